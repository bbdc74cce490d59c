"""Symbolic proxies and tracked containers."""
import z3

from . import core
from .core import Unsupported

NAMED = []


def ctx():
    return core.CTX


def unsup(what):
    c = core.CTX
    if c is None:
        raise Unsupported(what)
    c.unsupported(what)


class Sym:
    """Base class of every value the native interpreter must not look into."""
    __slots__ = ()
    pv_type = object

    def __hash__(self):
        unsup('hash of symbolic %s' % type(self).__name__)

    def __str__(self):
        unsup('native str() of symbolic %s' % type(self).__name__)

    def __format__(self, spec):
        unsup('native format() of symbolic %s' % type(self).__name__)

    def __index__(self):
        unsup('__index__ of symbolic %s' % type(self).__name__)

    def __int__(self):
        unsup('int() of symbolic %s' % type(self).__name__)

    def __float__(self):
        unsup('float() of symbolic %s' % type(self).__name__)

    def __len__(self):
        unsup('native len() of symbolic %s' % type(self).__name__)

    def __repr__(self):
        return '<%s>' % type(self).__name__


def is_sym(x):
    return isinstance(x, Sym)


def truth(x):
    """bool(x) of a proxy, as a python bool (may fork)."""
    return True if x else False


# ---------------------------------------------------------------------- booleans
class SymBool(Sym):
    __slots__ = ('t',)
    pv_type = bool

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return core.CTX.decide(self.t, 'bool')

    def _num(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, bool):
            return SymBool(self.t == z3.BoolVal(o))
        if isinstance(o, SymBool):
            return SymBool(self.t == o.t)
        if isinstance(o, (int, float, SymInt, SymFloat)):
            return self._num() == o
        if isinstance(o, SymAny):
            return o == self
        return False

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = Sym.__hash__

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.And(self.t, zbool(o)))
        return self._num() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.Or(self.t, zbool(o)))
        return self._num() | o

    __ror__ = __or__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o


def zbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymAny):
        r = x.resolve()
        return zbool(r)
    unsup('zbool of %r' % type(x))


def neg(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.t))
    if x is NotImplemented:
        return x
    return not x


# ---------------------------------------------------------------------- numbers
def _numterm(o):
    """(z3 arith term, is_real) or None"""
    if isinstance(o, bool):
        return z3.IntVal(int(o)), False
    if isinstance(o, int):
        return z3.IntVal(int(o)), False
    if isinstance(o, float):
        if o != o or o in (float('inf'), float('-inf')):
            unsup('non-finite float in arithmetic')
        return z3.RealVal(repr(o)) if 'e' not in repr(o) else z3.RealVal(str(__import__('fractions').Fraction(o))), True
    if isinstance(o, SymInt):
        return o.t, False
    if isinstance(o, SymFloat):
        return o.t, True
    if isinstance(o, SymBool):
        return o._num().t, False
    if isinstance(o, SymAny):
        return _numterm(o.resolve())
    return None


def _pair(a, b):
    x, y = _numterm(a), _numterm(b)
    if x is None or y is None:
        return None
    if x[1] != y[1]:
        f = lambda p: p[0] if p[1] else z3.ToReal(p[0])
        return f(x), f(y), True
    return x[0], y[0], x[1]


def _wrapnum(t, real):
    return SymFloat(t) if real else SymInt(t)


class _Num(Sym):
    __slots__ = ()

    def __bool__(self):
        return core.CTX.decide(self.t != 0, 'num')

    def __eq__(self, o):
        p = _pair(self, o)
        if p is None:
            return False
        return SymBool(p[0] == p[1])

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = Sym.__hash__

    def _cmp(self, o, f):
        p = _pair(self, o)
        if p is None:
            if isinstance(o, Sym) and not isinstance(o, SymStr):
                unsup('comparison of number with %s' % type(o).__name__)
            return NotImplemented
        return SymBool(f(p[0], p[1]))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _bin(self, o, f, swap=False):
        p = _pair(self, o)
        if p is None:
            return NotImplemented
        a, b = (p[1], p[0]) if swap else (p[0], p[1])
        return _wrapnum(f(a, b), p[2])

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __neg__(self):
        return type(self)(-self.t)

    def __abs__(self):
        return type(self)(z3.If(self.t < 0, -self.t, self.t))

    def __floordiv__(self, o):
        return self._div(o)

    def __mod__(self, o):
        p = _pair(self, o)
        if p is None or p[2]:
            unsup('symbolic %')
        if core.CTX.decide(p[1] == 0):
            raise ZeroDivisionError('integer modulo by zero')
        if not core.CTX.decide(p[1] > 0):
            unsup('modulo by a negative number')
        return SymInt(p[0] % p[1])

    def _div(self, o):
        p = _pair(self, o)
        if p is None or p[2]:
            unsup('symbolic //')
        if core.CTX.decide(p[1] == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if not core.CTX.decide(p[1] > 0):
            unsup('division by a negative number')
        return SymInt(p[0] / p[1])

    def __truediv__(self, o):
        p = _pair(self, o)
        if p is None:
            return NotImplemented
        a, b = p[0], p[1]
        if not p[2]:
            a, b = z3.ToReal(a), z3.ToReal(b)
        if core.CTX.decide(b == 0):
            raise ZeroDivisionError('division by zero')
        return SymFloat(a / b)

    def __and__(self, o):
        unsup('bitwise &')

    def __or__(self, o):
        unsup('bitwise |')


class SymInt(_Num):
    __slots__ = ('t',)
    pv_type = int

    def __init__(self, t):
        self.t = t


class SymFloat(_Num):
    __slots__ = ('t',)
    pv_type = float

    def __init__(self, t):
        self.t = t


# ---------------------------------------------------------------------- strings
_UF = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.name() for s in sorts)
    if key not in _UF:
        _UF[key] = z3.Function(name, *sorts)
    return _UF[key]


S_ = z3.StringSort()
B_ = z3.BoolSort()
I_ = z3.IntSort()


def zstr(x):
    if isinstance(x, str):
        return z3.StringVal(x)
    if isinstance(x, SymStr):
        return x.t
    if isinstance(x, SymAny):
        return zstr(x.resolve())
    return None


class SymStr(Sym):
    __slots__ = ('t',)
    pv_type = str

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return core.CTX.decide(self.t != z3.StringVal(''), 'str')

    def __eq__(self, o):
        if isinstance(o, SymAny):
            return o == self
        z = zstr(o)
        if z is None:
            return False
        return SymBool(self.t == z)

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = Sym.__hash__

    def __add__(self, o):
        z = zstr(o)
        if z is None:
            return NotImplemented
        return SymStr(z3.Concat(self.t, z))

    def __radd__(self, o):
        z = zstr(o)
        if z is None:
            return NotImplemented
        return SymStr(z3.Concat(z, self.t))

    def __lt__(self, o):
        z = zstr(o)
        return NotImplemented if z is None else SymBool(self.t < z)

    def __gt__(self, o):
        z = zstr(o)
        return NotImplemented if z is None else SymBool(z < self.t)

    def __le__(self, o):
        z = zstr(o)
        return NotImplemented if z is None else SymBool(z3.Not(z < self.t))

    def __ge__(self, o):
        z = zstr(o)
        return NotImplemented if z is None else SymBool(z3.Not(self.t < z))

    def __contains__(self, o):
        z = zstr(o)
        if z is None:
            raise TypeError("'in <string>' requires string as left operand")
        return core.CTX.decide(z3.Contains(self.t, z), 'in-str')

    def __iter__(self):
        unsup('iteration over a symbolic string')

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None and all(x is None or type(x) is int for x in (k.start, k.stop)):
            n = z3.Length(self.t)

            def bound(x, default):
                if x is None:
                    return default
                b = z3.IntVal(x) if x >= 0 else n + x
                return z3.If(b < 0, 0, z3.If(b > n, n, b))
            a, b = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
            return SymStr(z3.If(b > a, z3.SubString(self.t, a, b - a), z3.StringVal('')))
        unsup('subscript of a symbolic string')

    # methods: uninterpreted unless z3 has the operation
    def isidentifier(self):
        return SymBool(z3.And(uf('isidentifier', S_, B_)(self.t), self.t != z3.StringVal('')))

    def startswith(self, p, *rest):
        if rest or not isinstance(p, (str, SymStr)):
            unsup('startswith form')
        return SymBool(z3.PrefixOf(zstr(p), self.t))

    def endswith(self, p, *rest):
        if rest or not isinstance(p, (str, SymStr)):
            unsup('endswith form')
        return SymBool(z3.SuffixOf(zstr(p), self.t))

    def strip(self, *a):
        if a:
            return SymStr(uf('strip_of', S_, S_, S_)(self.t, zstr(a[0])))
        return SymStr(uf('strip', S_, S_)(self.t))

    def rstrip(self, *a):
        if a:
            return SymStr(uf('rstrip_of', S_, S_, S_)(self.t, zstr(a[0])))
        return SymStr(uf('rstrip', S_, S_)(self.t))

    def lower(self):
        return SymStr(uf('lower', S_, S_)(self.t))

    def upper(self):
        return SymStr(uf('upper', S_, S_)(self.t))

    def replace(self, a, b, *rest):
        if rest:
            unsup('replace with count')
        return SymStr(uf('replace', S_, S_, S_, S_)(self.t, zstr(a), zstr(b)))

    def split(self, *a):
        c = core.CTX
        hook = c.data.get('split')
        if hook is not None:
            r = hook(self, a)
            if r is not None:
                return r
        unsup('split of a symbolic string')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in dir(str):
            unsup('str.%s of a symbolic string' % name)
        raise AttributeError("'str' object has no attribute '%s'" % name)


# ---------------------------------------------------------------------- opaque objects and classes
class OpaqueType(Sym):
    """The class of an object about which nothing is known (an unknown user class)."""
    pv_type = type

    def __init__(self, label, supers=()):
        self.label = label
        self._name = None

    def __getattr__(self, name):
        if name in ('__name__', '__qualname__'):
            if self._name is None:
                self._name = SymStr(z3.String(core.CTX.fresh('tname')))
            return self._name
        if name.startswith('__') or name.startswith('pv_'):
            raise AttributeError(name)
        unsup('attribute %s of an unknown class' % name)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    __hash__ = Sym.__hash__


class Opaque(Sym):
    """An object of an unknown class.  str() of it may return anything or raise."""

    def __init__(self, label, callable_=False, base=None):
        self.label = label
        self._type = OpaqueType(label)
        self._str = None
        self.callable_ = callable_
        self.base = base          # builtin class this is a proper subclass instance of, or None
        self.strmode = None

    def __bool__(self):
        return core.CTX.decide(z3.Bool('truth(%s)' % self.label), 'truth ' + self.label)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, SymAny):
            if o.rep is self:
                return True
            return o == self
        if isinstance(o, Opaque):
            a, b = sorted([self.label, o.label])
            return SymBool(z3.Bool('eq(%s,%s)' % (a, b)))
        if o is None or isinstance(o, (bool, type)):
            return False
        return SymBool(z3.Bool('eq(%s,%s)' % (self.label, core.CTX.fresh('c'))))

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = Sym.__hash__

    def _rel(self, o):
        c = core.CTX
        if c.choose(2, 'rel ' + self.label) == 0:
            raise TypeError('comparison not supported (opaque object)')
        return SymBool(z3.Bool(c.fresh('rel(%s)' % self.label)))

    __lt__ = __le__ = __gt__ = __ge__ = lambda self, o: self._rel(o)

    def pv_str(self):
        c = core.CTX
        if self.strmode is None:
            self.strmode = 'raise' if c.choose(2, 'str(%s) raises' % self.label) == 1 else 'ok'
            self._str = SymStr(z3.String('str(%s)' % self.label))
        if self.strmode == 'raise':
            raise RuntimeError('__str__ of an opaque object failed')
        return self._str

    def __call__(self, *a, **k):
        if not self.callable_:
            raise TypeError('object is not callable')
        hook = core.CTX.data.get('call_opaque')
        if hook is not None:
            return hook(self, a, k)
        unsup('call of an opaque object')

    def __iter__(self):
        unsup('iteration over an opaque object')

    def __getitem__(self, k):
        unsup('subscript of an opaque object')

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('pv_'):
            raise AttributeError(name)
        c = core.CTX
        if c is None:
            raise AttributeError(name)
        if name == 'checked_by_polog':
            raise AttributeError(name)
        unsup('attribute %s of an opaque object' % name)


KINDS = ('none', 'bool', 'int', 'intsub', 'float', 'str', 'strsub', 'list', 'tuple', 'dict', 'class', 'func', 'other')

_KT = {'none': type(None), 'bool': bool, 'int': int, 'intsub': int, 'float': float, 'str': str, 'strsub': str,
       'list': list, 'tuple': tuple, 'dict': dict, 'class': type}


class SymAny(Sym):
    """A value of unknown type; the type is narrowed lazily, by forking."""

    def __init__(self, name, kinds=KINDS, label=None):
        self.name = name
        self.kinds = list(kinds)
        self.rep = self           # until resolved
        self.done = False

    # -- narrowing
    def narrow(self, pred):
        """Is the kind one satisfying pred?  Forks and narrows."""
        yes = [k for k in self.kinds if pred(k)]
        if not yes:
            return False
        if len(yes) == len(self.kinds):
            return True
        no = [k for k in self.kinds if not pred(k)]
        if core.CTX.choose(2, '%s in %s' % (self.name, '/'.join(yes))) == 0:
            self.kinds = yes
            return True
        self.kinds = no
        return False

    def is_instance(self, types):
        def match(k):
            t = _KT.get(k)
            if t is None:
                return object in types
            return issubclass(t, types)
        return self.narrow(match)

    def resolve(self):
        if self.done:
            return self.rep
        if len(self.kinds) > 1:
            i = core.CTX.choose(len(self.kinds), 'kind of ' + self.name)
            self.kinds = [self.kinds[i]]
        k = self.kinds[0]
        n = self.name
        if k == 'none':
            r = None
        elif k == 'bool':
            r = SymBool(z3.Bool(n + '.b'))
        elif k == 'int':
            r = SymInt(z3.Int(n + '.i'))
        elif k == 'float':
            r = SymFloat(z3.Real(n + '.f'))
        elif k == 'str':
            r = SymStr(z3.String(n + '.s'))
        elif k in ('list', 'tuple'):
            r = SymSeq(n + '.seq', lambda i, nm: SymAny(nm), pytype=_KT[k])
        elif k == 'dict':
            r = EDict()
            r.set_base(lambda key: unsup('content of an arbitrary dict'))
        elif k == 'class':
            r = OpaqueType(n)
        elif k == 'func':
            r = Opaque(n, callable_=True)
        elif k == 'intsub':
            r = Opaque(n, base=int)
        elif k == 'strsub':
            r = Opaque(n, base=str)
        else:
            r = Opaque(n)
        self.rep, self.done = r, True
        return r

    def recipe(self, model):
        k = self.kinds[0]
        out = {'kind': k, 'kinds': list(self.kinds)}
        if k == 'int' or k == 'intsub':
            out['value'] = model.eval(z3.Int(self.name + '.i'), True).as_long()
        elif k == 'bool':
            out['value'] = z3.is_true(model.eval(z3.Bool(self.name + '.b'), True))
        elif k == 'str':
            out['value'] = pystring(model.eval(z3.String(self.name + '.s'), True))
        elif k == 'float':
            v = model.eval(z3.Real(self.name + '.f'), True)
            out['value'] = float(v.as_fraction()) if z3.is_rational_value(v) else 0.5
        elif self.done and isinstance(self.rep, Opaque):
            out['str'] = self.rep.strmode or 'ok'
        return out

    def __bool__(self):
        return True if self.resolve() else False

    def __eq__(self, o):
        if o is self:
            return True
        if o is None:
            return self.narrow(lambda k: k == 'none')
        if isinstance(o, SymAny):
            o = o.resolve()
        return self.resolve() == o

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return self.resolve() < o

    def __le__(self, o):
        return self.resolve() <= o

    def __gt__(self, o):
        return self.resolve() > o

    def __ge__(self, o):
        return self.resolve() >= o

    def __add__(self, o):
        return self.resolve() + o

    def __radd__(self, o):
        return o + self.resolve()

    def __sub__(self, o):
        return self.resolve() - o

    def __mul__(self, o):
        return self.resolve() * o

    def __call__(self, *a, **k):
        return self.resolve()(*a, **k)

    def __iter__(self):
        return iter(self.resolve())

    def __getitem__(self, k):
        return self.resolve()[k]

    def __contains__(self, k):
        return k in self.resolve()

    def __getattr__(self, name):
        if name.startswith('pv_') or (name.startswith('__') and name != '__name__'):
            raise AttributeError(name)
        return getattr(self.resolve(), name)


def pystring(v):
    try:
        return v.as_string().encode().decode('unicode_escape') if '\\u' in v.as_string() else v.as_string()
    except Exception:
        return 'x'


# ---------------------------------------------------------------------- tracked containers
def note_write(obj, what=None):
    c = core.CTX
    if c is not None and c.writes is not None:
        c.writes.append((obj, what))


ABSENT = object()


def keq(a, b):
    if a is b:
        return True
    if is_sym(a) or is_sym(b):
        return truth(a == b)
    return a == b


class EDict(dict):
    """A dict which also accepts symbolic keys (association list with forks on equality) and
    may have an unknown initial content (lazy initialisation through `base`)."""
    __slots__ = ('_a', '_base')

    def __init__(self, *args, **kwargs):
        dict.__init__(self)
        self._a = None
        self._base = None
        if args:
            src = args[0]
            if isinstance(src, dict):
                for k, v in src.items():
                    self[k] = v
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    def set_base(self, base):
        self._to_assoc()
        self._base = base

    def _to_assoc(self):
        if self._a is None:
            self._a = [[k, dict.__getitem__(self, k)] for k in dict.__iter__(self)]
            dict.clear(self)

    def _entry(self, key):
        for e in self._a:
            if keq(e[0], key):
                return e
        if self._base is not None:
            v = self._base(key)
            e = [key, v]
            self._a.append(e)
            return e
        return None

    def _look(self, key):
        if self._a is None:
            if not is_sym(key):
                return dict.get(self, key, ABSENT)
            for k in dict.__iter__(self):
                if keq(k, key):
                    return dict.__getitem__(self, k)
            return ABSENT
        e = self._entry(key)
        return ABSENT if e is None else e[1]

    def __getitem__(self, key):
        v = self._look(key)
        if v is ABSENT:
            raise KeyError(key)
        return v

    def __setitem__(self, key, value):
        note_write(self)
        if self._a is None:
            if not is_sym(key):
                return dict.__setitem__(self, key, value)
            for k in dict.__iter__(self):
                if keq(k, key):
                    return dict.__setitem__(self, k, value)
            self._to_assoc()
            self._a.append([key, value])
            return
        e = self._entry(key)
        if e is None:
            self._a.append([key, value])
        elif e[1] is ABSENT:
            self._a.remove(e)
            self._a.append([e[0], value])
        else:
            e[1] = value

    def __delitem__(self, key):
        note_write(self)
        if self._a is None and not is_sym(key):
            return dict.__delitem__(self, key)
        if self._look(key) is ABSENT:
            raise KeyError(key)
        self._to_assoc()
        e = self._entry(key)
        if self._base is not None:
            e[1] = ABSENT
        else:
            self._a.remove(e)

    def __contains__(self, key):
        if self._a is None and isinstance(key, SymStr) and dict.__len__(self) > 1:
            r = one_of(key, list(dict.__iter__(self)))
            if r is not None:
                return r
        return self._look(key) is not ABSENT

    def _live(self):
        if self._a is None:
            return [(k, dict.__getitem__(self, k)) for k in dict.__iter__(self)]
        if self._base is not None:
            unsup('iteration over a dict of unknown content')
        return [(k, v) for k, v in self._a if v is not ABSENT]

    def __iter__(self):
        if self._a is None:
            return dict.__iter__(self)
        return iter([k for k, v in self._live()])

    def keys(self):
        if self._a is None:
            return dict.keys(self)
        return EList([k for k, v in self._live()])

    def values(self):
        if self._a is None:
            return dict.values(self)
        return EList([v for k, v in self._live()])

    def items(self):
        if self._a is None:
            return dict.items(self)
        return EList([(k, v) for k, v in self._live()])

    def __len__(self):
        if self._a is None:
            return dict.__len__(self)
        return len(self._live())

    def __bool__(self):
        return len(self) > 0

    def get(self, key, default=None):
        v = self._look(key)
        return default if v is ABSENT else v

    def pop(self, key, *default):
        v = self._look(key)
        if v is ABSENT:
            if default:
                return default[0]
            raise KeyError(key)
        del self[key]
        return v

    def popitem(self):
        items = self._live()
        if not items:
            raise KeyError('popitem(): dictionary is empty')
        k, v = items[-1]
        del self[k]
        return k, v

    def setdefault(self, key, default=None):
        v = self._look(key)
        if v is ABSENT:
            self[key] = default
            return default
        return v

    def update(self, *args, **kwargs):
        for src in args:
            if isinstance(src, dict) or hasattr(src, 'keys'):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    def clear(self):
        note_write(self)
        dict.clear(self)
        if self._a is not None:
            self._a, self._base = None, None

    def copy(self):
        r = EDict()
        if self._a is None:
            for k in dict.__iter__(self):
                dict.__setitem__(r, k, dict.__getitem__(self, k))
        else:
            r._a = [list(e) for e in self._a]
            r._base = self._base
        return r

    __copy__ = copy

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            w = o.get(k, ABSENT) if isinstance(o, EDict) else EDict(o).get(k, ABSENT)
            if w is ABSENT or not truth(v == w):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    __hash__ = None

    def __repr__(self):
        return 'EDict(%r)' % (self._a if self._a is not None else dict(dict.items(self)),)


def one_of(x, xs):
    """Membership of a symbolic string in a list of plain strings as one decision; None: not such a list."""
    if type(x) is not SymStr or not all(type(e) is str for e in xs):
        return None
    return core.CTX.decide(z3.Or([x.t == z3.StringVal(e) for e in sorted(set(xs))] or [z3.BoolVal(False)]), 'in')


class EList(list):
    __slots__ = ()

    def append(self, x):
        note_write(self)
        list.append(self, x)

    def extend(self, it):
        note_write(self)
        for x in it:
            list.append(self, x)

    def insert(self, i, x):
        note_write(self)
        list.insert(self, i, x)

    def pop(self, *a):
        note_write(self)
        return list.pop(self, *a)

    def remove(self, x):
        note_write(self)
        list.remove(self, x)

    def clear(self):
        note_write(self)
        list.clear(self)

    def sort(self, *a, **k):
        note_write(self)
        list.sort(self, *a, **k)

    def reverse(self):
        note_write(self)
        list.reverse(self)

    def __setitem__(self, i, v):
        note_write(self)
        list.__setitem__(self, i, v)

    def __delitem__(self, i):
        note_write(self)
        list.__delitem__(self, i)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def copy(self):
        return EList(self)

    def __add__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        return EList(list.__add__(self, o))

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return EList(r) if isinstance(i, slice) else r

    def __contains__(self, x):
        if isinstance(x, SymStr):
            r = one_of(x, self)
            if r is not None:
                return r
        return list.__contains__(self, x)


class ESet:
    """A set which accepts symbolic members."""
    pv_type = set

    def __init__(self, items=()):
        self.native = set()
        self.symbolic = []
        for x in items:
            self.add(x)

    def add(self, x):
        note_write(self)
        if is_sym(x):
            if x not in self:
                self.symbolic.append(x)
        elif not self.symbolic or x not in self:
            self.native.add(x)

    def clear(self):
        note_write(self)
        self.native, self.symbolic = set(), []

    def _become(self, other):
        note_write(self)
        self.native, self.symbolic = other.native, other.symbolic
        return self

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        return self._become(self.difference(o))

    def __iand__(self, o):
        return self._become(self.intersection(o))

    def difference_update(self, *others):
        self._become(self.difference(*others))

    def intersection_update(self, o):
        self._become(self.intersection(o))

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def issubset(self, o):
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __ne__(self, o):
        return not self == o

    def symmetric_difference(self, o):
        r = self.difference(o)
        for x in o:
            if x not in self:
                r.add(x)
        return r

    __xor__ = symmetric_difference

    def __contains__(self, x):
        if not is_sym(x):
            if x in self.native:
                return True
            return any(truth(y == x) for y in self.symbolic)
        if isinstance(x, SymAny):
            x = x.resolve()
            if not is_sym(x):
                return x in self
        if isinstance(x, SymStr) and all(isinstance(e, str) for e in self.native):
            if core.CTX.decide(z3.Or([x.t == z3.StringVal(e) for e in sorted(self.native)] or [z3.BoolVal(False)]), 'in-set'):
                return True
        else:
            for e in sorted(self.native, key=repr):
                if truth(x == e):
                    return True
        return any(truth(y == x) for y in self.symbolic)

    def __iter__(self):
        try:
            xs = sorted(self.native)
        except TypeError:
            xs = list(self.native)
        return iter(xs + self.symbolic)

    def __len__(self):
        return len(self.native) + len(self.symbolic)

    def union(self, *others):
        r = ESet(self)
        for o in others:
            for x in o:
                r.add(x)
        return r

    def update(self, *others):
        for o in others:
            for x in o:
                self.add(x)

    def difference(self, *others):
        r = ESet()
        for x in self:
            if not any(x in o for o in others):
                r.add(x)
        return r

    def intersection(self, o):
        r = ESet()
        for x in self:
            if x in o:
                r.add(x)
        return r

    def discard(self, x):
        note_write(self)
        if is_sym(x) or self.symbolic:
            unsup('discard with symbolic members')
        self.native.discard(x)

    def remove(self, x):
        note_write(self)
        if is_sym(x) or self.symbolic:
            unsup('remove with symbolic members')
        self.native.remove(x)

    def copy(self):
        return ESet(self)

    __or__ = union
    __sub__ = difference
    __and__ = intersection

    def __eq__(self, o):
        return len(self) == len(o) and all(x in o for x in self)

    __hash__ = None


class SymSeq(Sym):
    """A list or tuple of unknown length.  elem(i_term, name) builds the i-th element.

    Iterated with an invariant (`inv`) the loop is cut (unbounded proof); otherwise it is
    unrolled up to `bound` and the run is labelled bounded."""

    def __init__(self, name, elem, pytype=list, bound=3, inv=None, havoc=None, minlen=0):
        self.name = name
        self.elem = elem
        self.pytype = pytype
        self.bound = bound
        self.n = z3.Int(name + '.len')
        self.inv = inv
        self.havoc = havoc
        self.cache = {}
        core.CTX.add(self.n >= minlen)
        self.frozen = None

    @property
    def pv_type(self):
        return self.pytype

    def at(self, i):
        if i not in self.cache:
            self.cache[i] = self.elem(i, '%s[%d]' % (self.name, i))
        return self.cache[i]

    def pv_len(self):
        if self.frozen is not None:
            return len(self.frozen)
        return SymInt(self.n)

    def __bool__(self):
        if self.frozen is not None:
            return bool(self.frozen)
        return core.CTX.decide(self.n > 0, 'nonempty ' + self.name)

    def concretize(self):
        """Fix the length (bounded)."""
        if self.frozen is None:
            c = core.CTX
            i = 0
            while c.decide(self.n > i, '%s longer than %d' % (self.name, i)):
                i += 1
                if i > self.bound:
                    c.stats.bounded['len(%s) <= %d' % (self.name, self.bound)] = 1
                    c.end('bound')
            self.frozen = EList([self.at(j) for j in range(i)])
        return self.frozen

    def __iter__(self):
        if self.frozen is not None:
            return iter(self.frozen)
        return self._unroll()

    def _unroll(self):
        c = core.CTX
        i = 0
        while c.decide(self.n > i, '%s longer than %d' % (self.name, i)):
            if i >= self.bound:
                c.stats.bounded['len(%s) <= %d' % (self.name, self.bound)] = 1
                c.end('bound')
            yield self.at(i)
            i += 1
        if self.frozen is None:
            self.frozen = EList([self.at(j) for j in range(i)])

    def __getitem__(self, i):
        xs = self.concretize()
        return xs[i] if self.pytype is list else (tuple(xs)[i])

    def __contains__(self, x):
        for y in self:
            if keq(y, x):
                return True
        return False

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, SymAny):
            o = o.resolve()
        if isinstance(o, (list, tuple, SymSeq)):
            return list(self.concretize()) == list(o)
        return False

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = Sym.__hash__

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('pv_'):
            raise AttributeError(name)
        xs = self.concretize()
        return getattr(xs if self.pytype is list else tuple(xs), name)

    def __add__(self, o):
        return self.concretize() + EList(o)

    def __radd__(self, o):
        return EList(o) + self.concretize()


class Unbound:
    """Value of a local that was unbound when a loop was cut; any use is outside the subset."""
    def __getattribute__(self, name):
        unsup('use of a havocked local')


def zint_or_const(x):
    return z3.IntVal(x) if isinstance(x, int) else x.t


def _fill():
    """What the proxies do not model is undecided, never a wrong TypeError or AttributeError."""
    skip = {'__getnewargs__', '__class_getitem__', '__getattribute__', '__new__', '__sizeof__', '__reduce__', '__getformat__', '__init_subclass__', '__subclasshook__', '__class__', '__doc__', '__init__',
            '__reduce_ex__', '__getstate__', '__dir__', '__setattr__', '__delattr__'}

    def missing(name, T):
        def f(self, *a, **k):
            unsup('%s.%s of a symbolic value' % (T.__name__, name))
        return f
    for C, T in ((SymStr, str), (SymInt, int), (SymBool, bool), (SymFloat, float), (ESet, set)):
        for n in dir(T):
            if n in skip or n in C.__dict__:
                continue
            if not hasattr(C, n) or getattr(C, n, None) is getattr(object, n, 0) and n not in ('__repr__',) and getattr(T, n) is not getattr(object, n, 0):
                setattr(C, n, missing(n, T))


_fill()
