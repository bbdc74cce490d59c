"""Run-time support of the transformed code: call gate, models of builtins, loop cutting."""
import builtins
import functools
import itertools
import sys
import types

import z3

from . import core, vals
from .vals import (Sym, SymAny, SymBool, SymFloat, SymInt, SymSeq, SymStr, EDict, EList, ESet, Opaque, OpaqueType,
                   is_sym, truth, unsup, uf, S_, I_, B_)

SAFE_BUILTINS = {any, all, max, min, sorted, enumerate, zip, reversed, map, filter, iter, next, sum, id, staticmethod,
                 classmethod, property, object, Exception, slice, delattr,
                 functools.reduce, itertools.chain, itertools.islice, itertools.takewhile, itertools.dropwhile, itertools.starmap,
                 itertools.filterfalse, itertools.count, itertools.repeat, itertools.zip_longest}
SAFE_PY_MODULES = ('functools', 'contextlib', 'weakref', 'abc', 'dataclasses', 'typing', 'collections', '_weakrefset', 'inspect')


def has_sym(args, depth=2):
    for a in args:
        if is_sym(a):
            return True
        if depth and isinstance(a, (list, tuple)):
            if has_sym(a, depth - 1):
                return True
        elif depth and isinstance(a, EDict):
            if a._a is not None or has_sym(list(dict.values(a)), depth - 1):
                return True
    return False


class Checked:
    """A callable whose body the verifier cannot see: refuses symbolic arguments."""
    __slots__ = ('f', 'label')

    def __init__(self, f, label):
        self.f, self.label = f, label

    def __call__(self, *a, **k):
        if has_sym(a) or has_sym(list(k.values())):
            unsup('symbolic argument passed to unmodelled %s' % self.label)
        return self.f(*a, **k)


# ---------------------------------------------------------------------- builtin models
def flat(T):
    if isinstance(T, tuple):
        out = []
        for t in T:
            out.extend(flat(t))
        return out
    return [T]


def rep(x):
    if isinstance(x, SymAny):
        if x.done:
            return x.rep
        if x.kinds == ['none']:
            return x.resolve()
    return x


def b_isinstance(x, T):
    ts = flat(T)
    x = rep(x)
    native = []
    for t in ts:
        if hasattr(type(t), 'pv_instancecheck'):
            if truth(t.pv_instancecheck(x)):
                return True
        elif isinstance(t, OpaqueType):
            if isinstance(x, Opaque) and x._type is t:
                return True
            unsup('isinstance against an unknown class')
        else:
            native.append(t)
    native = tuple(native)
    if not native:
        return False
    if isinstance(x, SymAny):
        return x.is_instance(native)
    if isinstance(x, Opaque):
        return issubclass(x.base or object, native)
    if isinstance(x, ESet):
        return issubclass(set, native)
    if isinstance(x, Sym):
        return issubclass(x.pv_type, native)
    return isinstance(x, native)


def b_issubclass(x, T):
    x = rep(x)
    if hasattr(type(x), 'pv_issubclass'):
        return any(truth(x.pv_issubclass(t)) for t in flat(T))
    if isinstance(x, OpaqueType):
        return truth(SymBool(z3.Bool('issub(%s,%s)' % (x.label, ','.join(getattr(t, '__name__', '?') for t in flat(T))))))
    if isinstance(x, Sym):
        if isinstance(x, SymAny):
            x = x.resolve()
            return b_issubclass(x, T)
        raise TypeError('issubclass() arg 1 must be a class')
    return issubclass(x, T)


def b_type(x, *rest):
    if rest:
        return type(x, *rest)
    x = rep(x)
    if isinstance(x, SymAny):
        x = x.resolve()
    if isinstance(x, Opaque):
        return x._type
    if isinstance(x, EDict):
        return dict
    if isinstance(x, EList):
        return list
    if isinstance(x, ESet):
        return set
    if isinstance(x, Sym):
        return x.pv_type
    if hasattr(type(x), 'pv_class'):
        return x.pv_class
    return type(x)


def b_dir(x):
    """Attributes of an unknown object of a built-in kind are those of its type; an opaque object has those of object."""
    t = b_type(x)
    x = rep(x)
    if isinstance(x, Opaque):
        return EList(dir(object))
    if is_sym(x):
        return EList(dir(t))
    return EList(dir(x))


def b_callable(x):
    x = rep(x)
    if isinstance(x, SymAny):
        return x.narrow(lambda k: k in ('func', 'class'))
    if isinstance(x, Opaque):
        return x.callable_
    if isinstance(x, OpaqueType):
        return True
    if isinstance(x, Sym):
        return hasattr(type(x), 'pv_callable')
    return callable(x)


def b_len(x):
    x = rep(x)
    if isinstance(x, SymAny):
        x = x.resolve()
    if isinstance(x, SymSeq):
        return x.pv_len()
    if isinstance(x, SymStr):
        return SymInt(z3.Length(x.t))
    if isinstance(x, Opaque):
        unsup('len of an opaque object')
    if isinstance(x, Sym):
        raise TypeError('object has no len()')
    r = getattr(type(x), 'pv_len', None)
    if r is not None:
        return r(x)
    f = getattr(type(x), '__len__', None)
    if isinstance(f, types.FunctionType) and '_pv_' in f.__globals__:
        return f(x)       # the transformed __len__ may return a symbolic number
    return len(x)


def b_str(*a):
    if not a:
        return ''
    x = rep(a[0])
    if isinstance(x, SymAny):
        x = x.resolve()
    if len(a) > 1:
        return str(*a)
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return SymStr(uf('str_int', I_, S_)(x.t))
    if isinstance(x, SymFloat):
        return SymStr(uf('str_real', z3.RealSort(), S_)(x.t))
    if isinstance(x, SymBool):
        return SymStr(z3.If(x.t, z3.StringVal('True'), z3.StringVal('False')))
    if isinstance(x, Opaque):
        return x.pv_str()
    if isinstance(x, Sym):
        if hasattr(x, 'pv_str'):
            return x.pv_str()
        return SymStr(z3.String(core.CTX.fresh('str')))
    if isinstance(x, BaseException):
        if type(x).__str__ in (BaseException.__str__, KeyError.__str__, OSError.__str__):
            if has_sym(x.args):
                if len(x.args) == 1:
                    return b_str(x.args[0])
                return SymStr(z3.String(core.CTX.fresh('str(exc)')))
        return str(x)
    if isinstance(x, (list, tuple, dict)) and has_sym([x], 4):
        return SymStr(z3.String(core.CTX.fresh('str(container)')))
    f = getattr(type(x), '__str__', None)
    if isinstance(f, types.FunctionType):
        r = f(x)
        if not isinstance(rep(r), (str, SymStr)):
            raise TypeError('__str__ returned non-string')
        return r
    return str(x)


def b_repr(x):
    x = rep(x)
    if isinstance(x, SymAny):
        x = x.resolve()
    if is_sym(x):
        if isinstance(x, Opaque):
            x.pv_str()
        return SymStr(z3.String(core.CTX.fresh('repr')))
    f = getattr(type(x), '__repr__', None)
    if isinstance(f, types.FunctionType) and '_pv_' in f.__globals__:
        return f(x)
    if has_sym([x], 4):
        return SymStr(z3.String(core.CTX.fresh('repr')))
    return repr(x)


def b_int(*a):
    if len(a) != 1:
        return int(*a)
    x = rep(a[0])
    if isinstance(x, SymAny):
        x = x.resolve()
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._num()
    if hasattr(x, 'pv_int'):
        known, v = x.pv_int()
        if known:
            if v is None:
                raise ValueError('invalid literal for int()')
            return v
        x = SymStr(v)
    if isinstance(x, SymStr):
        # trusted model: int(str) is a partial function of the string
        if core.CTX.decide(uf('int_ok', S_, B_)(x.t), 'int() parses'):
            return SymInt(uf('int_of', S_, I_)(x.t))
        raise ValueError('invalid literal for int()')
    if isinstance(x, SymFloat):
        return SymInt(z3.ToInt(x.t)) if core.CTX.decide(x.t >= 0) else -SymInt(z3.ToInt(-x.t))
    if is_sym(x):
        raise TypeError('int() argument must be a string or a number')
    return int(x)


def b_float(*a):
    x = rep(a[0]) if a else 0
    if isinstance(x, SymAny):
        x = x.resolve()
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymInt):
        return SymFloat(z3.ToReal(x.t))
    if is_sym(x):
        unsup('float() of %s' % type(x).__name__)
    return float(*a)


def b_bool(*a):
    return truth(a[0]) if a else False


def _seq_copy(s, pytype):
    import copy
    s = copy.copy(s)
    s.pytype = pytype
    return s


def b_list(*a):
    if a and isinstance(a[0], SymSeq) and a[0].frozen is None and a[0].inv is not None:
        return _seq_copy(a[0], list)
    return EList([x for x in a[0]]) if a else EList()


def b_tuple(*a):
    if a and isinstance(a[0], SymSeq) and a[0].pytype is tuple:
        return a[0]
    if a and isinstance(a[0], SymSeq) and a[0].frozen is None and a[0].inv is not None:
        return _seq_copy(a[0], tuple)
    return tuple([x for x in a[0]]) if a else ()


def b_set(*a):
    return ESet(a[0]) if a else ESet()


def b_frozenset(*a):
    return ESet(a[0]) if a else ESet()


def b_dict(*a, **k):
    return EDict(*a, **k)


def b_hasattr(o, n):
    o = rep(o)
    if isinstance(o, SymAny):
        o = o.resolve()
    if isinstance(o, Opaque):
        h = core.CTX.data.get('hasattr_opaque')
        if h is not None:
            return h(o, n)
        unsup('hasattr of an opaque object')
    if isinstance(o, Sym):
        t = o.pv_type
        return hasattr(t, n)
    return hasattr(o, n)


def b_getattr(o, n, *d):
    o = rep(o)
    if isinstance(o, SymAny):
        o = o.resolve()
    if is_sym(n):
        unsup('getattr with a symbolic name')
    return getattr(o, n, *d)


def b_setattr(o, n, v):
    vals.note_write(o, n)
    return setattr(o, n, v)


class SymRange:
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        c = core.CTX
        i = 0
        bound = c.opts.get('bound', 3)
        while c.decide(vals._numterm(self.n)[0] > i, 'range'):
            if i >= bound:
                c.stats.bounded['range(%s) <= %d' % ('symbolic', bound)] = 1
                c.end('bound')
            yield i
            i += 1

    def pv_len(self):
        return self.n


def b_range(*a):
    a = [rep(x) for x in a]
    if any(is_sym(x) for x in a):
        if len(a) == 1:
            return SymRange(a[0])
        unsup('range with several symbolic arguments')
    return range(*a)


def b_hash(x):
    x = rep(x)
    if isinstance(x, SymAny):
        x = x.resolve()
    if hasattr(x, 'pv_hash'):
        return x.pv_hash()
    f = getattr(type(x), '__hash__', None)
    if isinstance(f, types.FunctionType) and '_pv_' in f.__globals__:
        return f(x)
    if is_sym(x):
        unsup('hash of a symbolic value')
    return hash(x)


def b_print(*a, **k):
    return None


def b_open(*a, **k):
    return core.CTX.world.stubs.fs().open(*a, **k)


def b_abs(x):
    return abs(x) if not isinstance(x, SymAny) else abs(x.resolve())


def b_format(x, spec=''):
    return fs(((x, -1, spec),))


def b_round(x, *a):
    if is_sym(x):
        unsup('round of a symbolic number')
    return round(x, *a)


MODELS = {isinstance: b_isinstance, dir: b_dir, issubclass: b_issubclass, type: b_type, callable: b_callable, len: b_len, str: b_str,
          repr: b_repr, int: b_int, float: b_float, bool: b_bool, list: b_list, tuple: b_tuple, set: b_set, dict: b_dict,
          frozenset: b_frozenset, hasattr: b_hasattr, getattr: b_getattr, setattr: b_setattr, range: b_range, hash: b_hash,
          print: b_print, open: b_open, abs: b_abs, format: b_format, round: b_round}


# ---------------------------------------------------------------------- f-strings
def fs(parts):
    out = []
    symbolic = False
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        v = rep(v)
        if isinstance(v, SymAny):
            v = v.resolve()
        if conv == 114:
            v = b_repr(v)
        elif conv == 115:
            v = b_str(v)
        if is_sym(spec):
            unsup('symbolic format spec')
        if isinstance(v, SymStr) and hasattr(v, 'parts') and not spec:
            out.append(v)
            symbolic = True
            continue
        if is_sym(v) or has_sym([v], 3) or not isinstance(v, (str, int, float, bool, type(None))):
            if spec and is_sym(v):
                if isinstance(v, SymStr):
                    v = SymStr(uf('fmt_' + spec, S_, S_)(v.t))
                elif isinstance(v, SymFloat):
                    v = SymStr(uf('fmtf_' + spec, z3.RealSort(), S_)(v.t))
                else:
                    v = SymStr(z3.String(core.CTX.fresh('fmt')))
            elif spec:
                v = format(v, spec)
            else:
                v = b_str(v)
        else:
            v = format(v, spec)
        out.append(v)
        symbolic = symbolic or is_sym(v)
    if not symbolic:
        return ''.join(out)
    return concat(out)


def concat(parts):
    r = None
    for p in parts:
        if isinstance(p, str) and p == '':
            continue
        r = p if r is None else r + p
    return '' if r is None else r


def str_format(s, args, kwargs):
    """'...'.format(...) of a known template: the same pieces as an f-string"""
    import string
    parts, auto = [], 0
    for literal, field, spec, conv in string.Formatter().parse(s):
        if literal:
            parts.append(literal)
        if field is None:
            continue
        if spec and '{' in spec:
            unsup('nested format spec')
        if field == '':
            field, auto = str(auto), auto + 1
        if field.isdigit():
            if int(field) >= len(args):
                raise IndexError('Replacement index %s out of range for positional args tuple' % field)
            v = args[int(field)]
        elif field.isidentifier():
            v = kwargs[field]
        else:
            unsup('format field %r' % field)
        parts.append((v, ord(conv) if conv else -1, spec or ''))
    return fs(tuple(parts))


def mod(a, b):
    """%: of a known template only %s, %r, %d of symbolic values"""
    import re
    a = rep(a)
    if not isinstance(a, str) or type(a) is not str:
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    if isinstance(b, dict) or isinstance(b, EDict):
        if not has_sym([b], 3):
            return a % b
        unsup('% with a dict')
    if all(type(x) in (str, int, float, bool, type(None)) for x in args):
        return a % b
    parts, n, last = [], 0, 0
    for m in re.finditer(r'%(.)', a, re.S):
        parts.append(a[last:m.start()])
        last = m.end()
        k = m.group(1)
        if k == '%':
            parts.append('%')
            continue
        if k not in 'srd':
            unsup('%% format %r' % a)
        if n >= len(args):
            raise TypeError('not enough arguments for format string')
        v = rep(args[n])
        n += 1
        v = v.resolve() if isinstance(v, SymAny) else v
        if k == 'd' and not isinstance(v, (int, SymInt)):
            raise TypeError('%d format: a real number is required')
        parts.append((v, 114 if k == 'r' else 115, ''))
    if n != len(args):
        raise TypeError('not all arguments converted during string formatting')
    parts.append(a[last:])
    return fs(tuple(parts))


class StrMethod:
    __slots__ = ('s', 'name')

    def __init__(self, s, name):
        self.s, self.name = s, name

    def __call__(self, *a, **k):
        s, n = self.s, self.name
        if n == 'join':
            items = [rep(x) for x in a[0]]
            items = [x.resolve() if isinstance(x, SymAny) else x for x in items]
            for x in items:
                if not isinstance(x, (str, SymStr)):
                    raise TypeError('sequence item: expected str instance')
            if not any(is_sym(x) for x in items):
                return s.join(items)
            out = []
            for i, x in enumerate(items):
                if i and s:
                    out.append(s)
                out.append(x)
            return concat(out)
        if n == 'format' and not all(type(x) in (str, int, float, bool, type(None)) for x in list(a) + list(k.values())):
            return str_format(s, a, k)
        if has_sym(a) or has_sym(list(k.values())):
            if n in ('startswith', 'endswith', '__eq__', 'replace'):
                return getattr(SymStr(z3.StringVal(s)), n)(*a, **k)
            unsup('str.%s with a symbolic argument' % n)
        r = getattr(s, n)(*a, **k)
        if type(r) is list:
            return EList(r)
        return r


# ---------------------------------------------------------------------- loops
class PlainLoop:
    cut = False
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class CutLoop:
    """for x in seq, seq of unknown length, with an inductive invariant supplied with the sequence.

    entry : prove inv(0)
    step  : havoc, assume 0 <= i < n and inv(i), run the body once on element i, prove inv(i+1), stop
    exit  : havoc, assume inv(n), continue after the loop
    A body leaving the loop early continues with the state of iteration i.
    Everything the body writes must be covered by the havoc (checked)."""
    cut = True

    def __init__(self, seq, site):
        self.seq, self.site = seq, site
        self.state = 'new'

    def _locals_plan(self):
        return core.CTX.opts.setdefault('plans', {}).setdefault(self.site, {})

    def havoc(self, names, loc):
        c = core.CTX
        for label, t in self.seq.inv(z3.IntVal(0)):
            c.prove('loop-entry %s: %s' % (self.seq.name, label), t, soft=True)
        c.stats.cuts[self.seq.name] = c.stats.cuts.get(self.seq.name, 0) + 1
        self.names = names
        plan = self._locals_plan()
        self.init = {n: loc[n] for n in names if n in loc}
        self.i = z3.Int(c.fresh(self.seq.name + '.i'))
        self.case = c.choose(2, 'loop %s step/exit' % self.seq.name)
        self.covered = self.seq.havoc() if self.seq.havoc else []
        out = []
        self.tmpl = {}
        idx = self.i if self.case == 0 else self.seq.n
        for n in names:
            if n not in loc:
                out.append(vals.Unbound())
                continue
            v = loc[n]
            kind = plan.get(n, 'same')
            if kind == 'same':
                w = v
            elif kind == 'count':
                w = v + SymInt(idx)
            else:
                x = rep(v)
                if isinstance(x, (bool, SymBool)):
                    w = SymBool(z3.Bool(c.fresh(n)))
                elif isinstance(x, (int, SymInt)):
                    w = SymInt(z3.Int(c.fresh(n)))
                else:
                    w = vals.Unbound()
            out.append(w)
        if self.case == 0:
            c.add(z3.And(self.i >= 0, self.i < self.seq.n))
            for label, t in self.seq.inv(self.i):
                c.add(t)
            if c.check() == z3.unsat:
                c.end('step infeasible')
            self.state = 'step'
        else:
            for label, t in self.seq.inv(self.seq.n):
                c.add(t)
            if c.check() == z3.unsat:
                c.end('exit infeasible')
            self.state = 'exit'
        return tuple(out)

    def __iter__(self):
        c = core.CTX
        if self.state == 'new':
            self.havoc((), {})
        return self

    def __next__(self):
        c = core.CTX
        c.chk()
        if self.state == 'exit':
            raise StopIteration
        if self.state == 'step':
            self.state = 'body'
            self.outer, c.writes = c.writes, []
            self.mark = c.alloc_epoch
            return self.seq.sym_elem(self.i)
        # end of one arbitrary iteration
        writes, c.writes = c.writes, self.outer
        covered = [id(o) for o in self.covered]
        for o, w in writes:
            if id(o) in covered or getattr(o, 'pv_ghost', False):
                continue
            if id(o) in c.data.get('new_objects', ()):
                continue
            frame_ok = self.seq.frame is not None and self.seq.frame(o, w)
            if not frame_ok:
                unsup('loop over %s writes %s outside its frame' % (self.seq.name, type(o).__name__))
        loc = sys._getframe(1).f_locals
        plan = self._locals_plan()
        for n, v0 in self.init.items():
            kind = plan.get(n, 'same')
            v1 = loc.get(n)
            ok = True
            if kind == 'same':
                ok = v1 is v0 or (isinstance(v0, (int, str, bool)) and not is_sym(v1) and v1 == v0)
            elif kind == 'count':
                p = vals._pair(v1, v0 + SymInt(self.i + 1))
                ok = p is not None and c.check(p[0] != p[1]) == z3.unsat
            if not ok:
                nxt = {'same': 'count' if isinstance(v0, int) and not isinstance(v0, bool) else 'any', 'count': 'any'}[kind]
                if n not in self.seq_targets():
                    plan[n] = nxt
                    c.opts['replan'] = True
        for label, t in self.seq.inv(self.i + 1):
            c.prove('loop-step %s: %s' % (self.seq.name, label), t, soft=True)
        c.end('loop step done')

    def seq_targets(self):
        return ()


class PlainWhile:
    cut = False

    def head(self):
        return True


class CutWhile:
    """while test: body, with an inductive invariant over the ghost state of the contract (c.while_cut).

    entry : prove inv
    then  : havoc (ghost state by the contract, assigned locals by inferred candidates: unchanged, or unknown), assume inv, run test and body once
    back  : prove inv, check that everything written is covered by the havoc, stop
    Leaving the loop (test false, break, return, exception) continues from the arbitrary iteration."""
    cut = True

    def __init__(self, site, inv, havoc):
        self.site, self.inv, self.do_havoc = site, inv, havoc
        self.state, self.init = 'new', {}

    _locals_plan = CutLoop._locals_plan

    def enter(self):
        c = core.CTX
        for label, t in self.inv():
            c.prove('loop-entry %s: %s' % (self.site, label), vals.zbool(t), soft=True)
        c.stats.cuts[self.site] = c.stats.cuts.get(self.site, 0) + 1
        self.covered = self.do_havoc() or []
        if c.writes is None:
            c.writes = []
        self.mark = len(c.writes)

    def havoc(self, names, loc):
        plan = self._locals_plan()
        out = []
        self.init = {n: loc[n] for n in names if n in loc}
        for n in names:
            if n not in loc or plan.get(n, 'same') != 'same':
                x = rep(loc.get(n)) if n in loc else None
                if isinstance(x, (bool, SymBool)):
                    out.append(SymBool(z3.Bool(core.CTX.fresh(n))))
                elif isinstance(x, (int, SymInt)):
                    out.append(SymInt(z3.Int(core.CTX.fresh(n))))
                else:
                    out.append(vals.Unbound())
            else:
                out.append(loc[n])
        return tuple(out)

    def head(self):
        c = core.CTX
        if self.state == 'new':
            self.state = 'body'
            return True
        c.chk()
        covered = [id(o) for o in self.covered]
        for o, w in c.writes[self.mark:]:
            if id(o) not in covered and not getattr(o, 'pv_ghost', False):
                unsup('loop %s writes %s outside its frame' % (self.site, type(o).__name__))
        loc = sys._getframe(1).f_locals
        plan = self._locals_plan()
        for n, v0 in self.init.items():
            v1 = loc.get(n)
            if plan.get(n, 'same') == 'same' and not (v1 is v0 or (isinstance(v0, (int, str, bool)) and not is_sym(v1) and type(v1) is type(v0) and v1 == v0)):
                plan[n] = 'any'
                c.opts['replan'] = True
        for label, t in self.inv():
            c.prove('loop-step %s: %s' % (self.site, label), vals.zbool(t), soft=True)
        c.end('loop step done')


class Ops:
    """The object bound to `_pv_` in every transformed module."""

    def __init__(self, stubs):
        self.stubs = stubs

    # -- engine
    def chk(self):
        c = core.CTX
        if c is not None and c.abort is not None:
            raise c.abort

    def fn(self, qual):
        c = core.CTX
        if c is not None:
            c.stats.functions.add(qual)
            if c.abort is not None and c.live:
                raise c.abort

    def tick(self, site):
        c = core.CTX
        if c is None:
            return
        c.chk()
        t = c.data.setdefault('ticks', {})
        t[site] = t.get(site, 0) + 1
        if t[site] > c.opts.get('max_ticks', 400):
            c.unsupported('while loop at %s runs more than %d times' % (site, c.opts.get('max_ticks', 400)))

    def wloop(self, site):
        c = core.CTX
        if c is not None and c.mode == 'cut' and c.data.get('while_cut') is not None:
            return CutWhile(site, *c.data['while_cut'])
        return PlainWhile()

    def loop(self, it, site):
        it = rep(it)
        if isinstance(it, SymAny):
            it = it.resolve()
        if isinstance(it, SymSeq) and it.inv is not None and it.frozen is None and core.CTX.mode == 'cut':
            return CutLoop(it, site)
        return PlainLoop(it)

    # -- identity
    def is_(self, a, b):
        if a is b:
            return True
        a, b = rep(a), rep(b)
        if a is b:
            return True
        if isinstance(b, SymAny) and not isinstance(a, SymAny):
            a, b = b, a
        if isinstance(a, SymAny):
            if b is None:
                return a.narrow(lambda k: k == 'none')
            if isinstance(b, (bool, SymBool)):
                if a.narrow(lambda k: k == 'bool'):
                    return a.resolve() == b
                return False
            if isinstance(b, SymAny):
                return False
            if isinstance(b, (int, str, float, SymInt, SymStr, SymFloat)):
                if not a.narrow(lambda k: k == {int: 'int', str: 'str', float: 'float'}.get(getattr(b, 'pv_type', type(b)))):
                    return False
                unsup('identity of numbers or strings')
            return a.resolve() is b
        if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)) or isinstance(b, SymBool) and isinstance(a, bool):
            return a == b
        if type(a) in (SymInt, SymStr, SymFloat) and type(b) in (SymInt, SymStr, SymFloat, int, str, float) or \
           type(b) in (SymInt, SymStr, SymFloat) and type(a) in (int, str, float):
            unsup('identity of numbers or strings')
        if hasattr(type(a), 'pv_is'):
            return a.pv_is(b)
        if hasattr(type(b), 'pv_is'):
            return b.pv_is(a)
        return False

    def isnot(self, a, b):
        return vals.neg(self.is_(a, b))

    # -- calls
    def c(self, f):
        t = type(f)
        if t is types.FunctionType:
            g = f.__globals__
            if '_pv_' in g or g.get('PYVC_TRUSTED'):
                return f
            m = g.get('__name__', '')
            if m.split('.')[0] in SAFE_PY_MODULES or m.startswith('pyvc') or m.startswith('specs'):
                return f
            return Checked(f, '%s.%s' % (m, f.__name__))
        if t is types.MethodType:
            if is_sym(f.__self__) or isinstance(f.__self__, (EDict, EList, ESet)):
                return f
            g = self.c(f.__func__) if isinstance(f.__func__, (types.FunctionType,)) else f.__func__
            if g is f.__func__:
                return f
            return Checked(f, getattr(f, '__qualname__', repr(f)))
        if isinstance(f, type):
            m = MODELS.get(f)
            if m is not None:
                return m
            if f in SAFE_BUILTINS or issubclass(f, BaseException):
                return f
            mod = f.__module__
            if mod.split('.')[0] in ('polog', 'pyvc', 'specs', '__main__') or '_pv_' in getattr(sys.modules.get(mod), '__dict__', {}):
                return f
            if mod.split('.')[0] in SAFE_PY_MODULES or mod in ('_weakref', 'weakref'):
                return f
            return Checked(f, '%s.%s' % (mod, f.__name__))
        if t is types.BuiltinFunctionType:
            m = MODELS.get(f) if f.__self__ is builtins or f is open else None
            if m is not None:
                return m
            if f in SAFE_BUILTINS:
                return f
            if isinstance(f.__self__, (EList, EDict, dict, list, tuple)) and not isinstance(f.__self__, type):
                return f
            return Checked(f, getattr(f, '__qualname__', repr(f)))
        if is_sym(f):
            return f
        return f

    def m(self, obj, name):
        if type(obj) is str:
            getattr(obj, name)
            return StrMethod(obj, name)
        if isinstance(obj, SymAny):
            obj = obj.resolve()
            if type(obj) is str:
                return StrMethod(obj, name)
        return self.c(getattr(obj, name))

    def callkw(self, f, args, kws):
        merged = EDict()
        plain = True
        for k, v in kws:
            if k is None:
                v = rep(v)
                if isinstance(v, SymAny):
                    v = v.resolve()
                if isinstance(v, EDict) and v._a is not None:
                    plain = False
                    if not len(merged):
                        merged = v.copy()
                        continue
                    if v._base is not None:
                        unsup('merge of two unknown ** mappings')
                for kk in v.keys():
                    if kk in merged:
                        raise TypeError('got multiple values for keyword argument')
                    if not is_sym(kk) and not isinstance(kk, str):
                        raise TypeError('keywords must be strings')
                    merged[kk] = v[kk]
            else:
                merged[k] = v
        if merged._a is None:
            return f(*args, **dict(dict.items(merged)))
        # symbolic keyword names: only a transformed function with **kwargs can receive them
        if f is EDict or f is dict:
            r = EDict(*args)
            r.update(merged)
            return r
        if isinstance(f, types.MethodType) and f.__func__ is EDict.update:
            f(*args)
            return f(merged)
        target = f
        if isinstance(f, types.MethodType):
            target = f.__func__
        if isinstance(f, type) or not isinstance(target, types.FunctionType):
            cl = f if isinstance(f, type) else type(f)
            target = cl.__init__ if isinstance(f, type) else cl.__call__
        while hasattr(target, '__wrapped__'):
            target = target.__wrapped__
        code = getattr(target, '__code__', None)
        if code is None or not (code.co_flags & 0x08):
            unsup('symbolic keyword names passed to a function without **kwargs')
        if str(getattr(target, '__module__', '')).startswith('pyvc.'):
            unsup('symbolic keyword names passed to a model of the library')
        explicit = code.co_varnames[:code.co_argcount + code.co_kwonlyargcount]
        out = {}
        for n in explicit:
            v = merged.pop(n, vals.ABSENT)
            if v is not vals.ABSENT:
                out[n] = v
        out['_pv_kw_'] = merged
        return f(*args, **out)

    def kwin(self, kw):
        m = kw.pop('_pv_kw_', None)
        if m is None:
            return EDict(kw)
        for k, v in kw.items():
            m[k] = v
        return m

    def argin(self, args):
        if len(args) == 1 and isinstance(args[0], ArgMarker):
            return args[0].seq
        return args

    # -- literals
    def mkdict(self, items):
        r = EDict()
        for it in items:
            if len(it) == 1:
                src = rep(it[0])
                if isinstance(src, SymAny):
                    src = src.resolve()
                if isinstance(src, EDict) and src._a is not None and not len(dict.keys(r)) and r._a is None:
                    r = src.copy()
                    continue
                for k in src.keys():
                    r[k] = src[k]
            else:
                r[it[0]] = it[1]
        return r

    def mod(self, a, b):
        return mod(a, b)

    def mklist(self, items):
        return EList(items)

    def mkset(self, items):
        return ESet(items)

    def fs(self, parts):
        return fs(parts)

    # -- heap
    def sa(self, obj, attr, value):
        vals.note_write(obj, attr)
        c = core.CTX
        if c is not None:
            h = c.data.get('on_store')
            if h is not None:
                h(obj, attr, value)
        setattr(obj, attr, value)

    # -- imports
    def stub(self, name):
        return self.stubs.module(name)

    def stubattr(self, name, attr):
        mod = self.stubs.module(name)
        try:
            return getattr(mod, attr)
        except AttributeError:
            raise ImportError('cannot import name %r from %r' % (attr, name))


class ArgMarker:
    def __init__(self, seq):
        self.seq = seq
