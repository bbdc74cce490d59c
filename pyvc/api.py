"""The symbolic interpretation of the contract language."""
PYVC_TRUSTED = True
import ast
import builtins
import importlib

import z3

from . import core, vals, ops, stubs
from .common import *
from .vals import SymAny, SymBool, SymFloat, SymInt, SymSeq, SymStr, EDict, EList, ESet, is_sym, zbool, truth

_EXC_NAMES = None


def handler_exception_names():
    """Builtin exception classes named in an except clause of the current source."""
    global _EXC_NAMES
    if _EXC_NAMES is None:
        from . import world
        world.load_sources()
        names = set()
        for p, pkg, src in world.SRC.values():
            for n in ast.walk(ast.parse(src)):
                if isinstance(n, ast.ExceptHandler) and n.type is not None:
                    for m in ast.walk(n.type):
                        if isinstance(m, ast.Name):
                            names.add(m.id)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'suppress':
                    for a in n.args:
                        if isinstance(a, ast.Name):
                            names.add(a.id)
        _EXC_NAMES = sorted(n for n in names if isinstance(getattr(builtins, n, None), type) and issubclass(getattr(builtins, n), BaseException)
                            and n not in ('Exception', 'BaseException'))
    return _EXC_NAMES


class SymApi:
    symbolic = True

    def __init__(self, c):
        self.c = c
        self.data = c.data
        self.events = c.events

    # ------------------------------------------------------------ world
    def mod(self, name):
        return importlib.import_module(name)

    def get(self, path):
        """'module:qual.name' -> object, or ends the scenario as outside the contract's reach."""
        m, q = path.split(':')
        try:
            o = self.mod(m)
            for part in q.split('.'):
                o = getattr(o, part)
            return o
        except (ImportError, AttributeError) as e:
            self.c.unsupported('contract target %s is not there any more' % path)

    def give_up(self, why):
        """The contract says nothing about this program (never an alarm)."""
        self.c.unsupported(why)

    def state(self, *extra):
        """The whole state of the program (and of the given objects)."""
        from . import frame
        return frame.snapshot(extra)

    def unchanged(self, before, *extra):
        """The lemma holds when the state is the same as before; a program that keeps more is outside of the lemma (never an alarm)."""
        from . import frame
        d = frame.difference(before, extra)
        if d is not None:
            self.give_up('the operation changes the state of the program: ' + d)
        self.prove('the state is as it was', True)

    def setup_stub(self, name, module):
        self.c.world.stubs.overrides[name] = module

    def use_contract(self, path, stub):
        """Modular reasoning: every reference to the function in the loaded program is replaced by its contract."""
        import sys
        m, q = path.split(':')
        try:
            mod = self.mod(m)
            parts = q.split('.')
            owner = mod
            for part in parts[:-1]:
                owner = getattr(owner, part)
            old = getattr(owner, parts[-1])
        except (ImportError, AttributeError):
            return False
        if owner is not mod:
            setattr(owner, parts[-1], stub)
            return True
        for n, mm in list(sys.modules.items()):
            if n == 'polog' or n.startswith('polog.'):
                for k, v in list(vars(mm).items()):
                    if v is old:
                        setattr(mm, k, stub)
        return True

    # ------------------------------------------------------------ inputs
    def bool(self, name):
        t = z3.Bool(name)
        self.c.named(name, lambda m: z3.is_true(m.eval(t, True)))
        return SymBool(t)

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None:
            self.c.add(t >= lo)
        if hi is not None:
            self.c.add(t <= hi)
        self.c.named(name, lambda m: m.eval(t, True).as_long())
        return SymInt(t)

    def real(self, name, lo=None):
        t = z3.Real(name)
        if lo is not None:
            self.c.add(t >= lo)

        def rec(m):
            v = m.eval(t, True)
            return float(v.as_fraction()) if z3.is_rational_value(v) else 0.5
        self.c.named(name, rec)
        return SymFloat(t)

    def str(self, name):
        t = z3.String(name)
        self.c.named(name, lambda m: vals.pystring(m.eval(t, True)))
        return SymStr(t)

    def ident(self, name):
        """Any identifier (an unknown string that satisfies isidentifier and has no dots)."""
        t = z3.String(name)

        def value(m):
            v = vals.pystring(m.eval(t, True))
            return v if v.isidentifier() else 'id_' + ''.join('%x' % ord(x) for x in v)
        self.c.named(name, value)
        x = SymStr(t)
        self.assume(x.isidentifier())
        self.assume(SymBool(z3.Not(z3.Contains(t, z3.StringVal('.')))))
        return x

    def dotted(self, parts):
        """The parts (identifiers) joined by dots; its split by a dot gives them back."""
        out = parts[0]
        for x in parts[1:]:
            out = out + '.' + x
        if not isinstance(out, SymStr):
            return out
        d = self.c.data
        if 'split' not in d:
            d['split_table'] = []

            def hook(s, a):
                if a == ('.',):
                    for t, ps in d['split_table']:
                        if t.eq(s.t):
                            return vals.EList(ps)
            d['split'] = hook
        d['split_table'].append((out.t, list(parts)))
        return out

    def word(self, name):
        """An unknown non-empty word without blanks and separators."""
        from .text import PartStr, Word
        return PartStr([Word(name)])

    def text(self, *parts):
        """The concatenation of literals, numbers (in decimal) and words."""
        from .text import PartStr
        return PartStr.make([p for p in parts])

    def to_int(self, x):
        return self.run(ops.b_int, x)

    def fs(self):
        self.c.data.setdefault('clock', 0)
        return self.c.world.stubs.fs()

    def clock(self):
        """From here on the clock does not go back."""
        self.c.data.setdefault('readings', [])

    def now(self):
        from . import stubs
        return stubs.time()

    def as_time(self, reading):
        from . import stubs
        return stubs.datetime_class.fromtimestamp(reading)

    def time(self, name):
        t = z3.Real(name)

        def rec(m):
            v = m.eval(t, True)
            return float(v.as_fraction()) if z3.is_rational_value(v) else 0.5
        self.c.named(name, rec)
        return stubs.SymTime(t)

    def any(self, name, kinds=None):
        x = SymAny(name, kinds or vals.KINDS)
        self.c.named(name, x.recipe)
        return x

    def choose(self, name, options):
        i = self.c.choose(len(options), name)
        self.c.named(name, lambda m: i)
        return options[i]

    def maybe(self, name):
        return self.choose(name, [False, True])

    def seq(self, name, elem, pytype=list, bound=3, inv=None, havoc=None, sym_elem=None, frame=None):
        s = SymSeq(name, lambda i, nm: elem(i), pytype=pytype, bound=self.c.opts.get('bound', bound), inv=inv, havoc=havoc)
        s_elem = sym_elem
        s.sym_elem = s_elem
        s.frame = frame
        self.c.named(name + '.len', lambda m: m.eval(s.n, True).as_long())
        return s

    def while_cut(self, inv, havoc):
        """Loops of the form `while` met from now on are verified by the invariant inv() -> [(label, condition)] over the ghost state;
        havoc() puts the ghost state (and objects it returns) into an arbitrary state of the invariant."""
        self.c.data['while_cut'] = (inv, havoc)

    def seqlen(self, s):
        return s.pv_len() if isinstance(s, SymSeq) else len(s)

    def exception(self, name, base=True, extra=(), exotic=True, coro=False):
        """An exception instance a user callable may raise: one of a complete set of representatives.  A coroutine cannot
        raise StopIteration (Python replaces it)."""
        opts = [UserError]
        for n in handler_exception_names():
            cls = getattr(builtins, n)
            if coro and issubclass(cls, (StopIteration, StopAsyncIteration)):
                continue
            if issubclass(cls, Exception) or base:
                opts.append(cls)
        if base:
            opts.append(UserBase)
        if exotic:
            opts += [BadStrError, FrozenError]
        opts += list(extra)
        opts = list(dict.fromkeys(opts))
        i = self.c.choose(len(opts), name)
        self.c.named(name, lambda m: opts[i].__name__)
        try:
            return opts[i]('raised by %s' % name)
        except TypeError:
            return opts[i]()

    # ------------------------------------------------------------ logic (never forks on SymBool)
    def assume(self, x):
        self.c.assume(zbool(x))

    def _b(self, x):
        if callable(x) and not is_sym(x):
            x = x()
        if isinstance(x, vals.SymAny):
            x = x.resolve()
        if not isinstance(x, (bool, SymBool, z3.BoolRef)):
            x = bool(x)
        return zbool(x)

    def prove(self, label, cond, soft=False):
        return self.c.prove(label, self._b(cond), soft)

    def cover(self, label):
        self.c.cover(label)

    def and_(self, *xs):
        return SymBool(z3.And([self._b(x) for x in xs])) if xs else True

    def or_(self, *xs):
        return SymBool(z3.Or([self._b(x) for x in xs])) if xs else False

    def not_(self, x):
        return SymBool(z3.Not(self._b(x)))

    def implies(self, a, b):
        return SymBool(z3.Implies(self._b(a), self._b(b)))

    def iff(self, a, b):
        return SymBool(self._b(a) == self._b(b))

    def ite(self, cond, a, b):
        t = self._b(cond)
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return SymBool(z3.If(t, zbool(a), zbool(b)))
        p = vals._pair(a, b)
        if p is not None:
            return vals._wrapnum(z3.If(t, p[0], p[1]), p[2])
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            return SymStr(z3.If(t, vals.zstr(a), vals.zstr(b)))
        return a if truth(SymBool(t)) else b

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(x > r, x, r)
        return r

    def eq(self, a, b):
        a, b = ops.rep(a), ops.rep(b)
        if a is b:
            return True
        r = a == b
        return r if isinstance(r, (bool, SymBool)) else bool(r)

    def same(self, a, b):
        """Object identity (equality for values that have none)."""
        a, b = ops.rep(a), ops.rep(b)
        if a is b:
            return True
        if isinstance(a, (int, str, float, SymInt, SymStr, SymFloat, SymBool, type(None))) and isinstance(b, (int, str, float, SymInt, SymStr, SymFloat, SymBool, type(None))):
            if ops.b_type(a) is not ops.b_type(b):
                return False
            return self.eq(a, b)
        return False

    def truth(self, x):
        return truth(x)

    def exactly(self, x, T):
        """Is T the very type of x?"""
        return ops.b_type(x) is T

    def isinstance(self, x, T):
        return ops.b_isinstance(x, T)

    def strof(self, x):
        return ops.b_str(x)

    # ------------------------------------------------------------ running
    def run(self, f, *a, **k):
        try:
            r = self.c.world.ops.callkw(f, a, tuple(k.items())) if k else f(*a)
            if self.c.abort is not None:
                raise self.c.abort
            return Outcome(True, r)
        except core.Abort:
            raise
        except BaseException as e:
            if self.c.abort is not None:
                raise self.c.abort
            return Outcome(False, exc=e)

    def run_coro(self, coro):
        """Drives a coroutine to its end (every suspension is resumed at once)."""
        try:
            while True:
                coro.send(None)
        except StopIteration as e:
            if self.c.abort is not None:
                raise self.c.abort
            return Outcome(True, e.value)
        except core.Abort:
            raise
        except BaseException as e:
            if self.c.abort is not None:
                raise self.c.abort
            return Outcome(False, exc=e)

    def callkw(self, f, args, mapping):
        return self.run(lambda: self.c.world.ops.callkw(f, args, ((None, mapping),)))

    def dict(self, *a, **k):
        return EDict(*a, **k)

    def list(self, xs=()):
        return EList(xs)

    def held(self):
        return list(self.c.locks_held)

    def get_events(self, tag):
        return [e for e in self.events if e[0] == tag]


