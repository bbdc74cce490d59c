"""The concrete interpretation of the contract language: the same contracts, executed by CPython on the real,
untransformed polog with concrete inputs (replay of counterexamples, run-time cross-check)."""
PYVC_TRUSTED = True
import ast
import builtins
import importlib
import os
import random
import sys

from .common import *


class Skip(BaseException):
    """The concrete case does not satisfy the precondition."""


class AnyObj:
    def __init__(self, label, bad=False):
        self.label, self.bad = label, bad

    def __str__(self):
        if self.bad:
            raise UserError('str failed')
        return '<obj %s>' % self.label

    __repr__ = __str__


class IntSub(int):
    pass


class StrSub(str):
    pass


INTS = [0, 1, 2, 3, 5, 7, 10, 20, 30, 40, 50, 100, 255, 1000, -1, -5, 10 ** 6]
STRS = ['', 'a', 'b', 'level', 'message', 'lol', 'kek', 'x y', ' ', '.', 'a.b', '_x', 'ERROR', 'error', 'some_name', 'time', 'success', 'Ы']


def literals(repo):
    ints, strs = set(), set()
    for root, dirs, files in os.walk(os.path.join(repo, 'polog')):
        dirs[:] = [d for d in dirs if d not in ('__pycache__', 'tests')]
        for f in files:
            if not f.endswith('.py'):
                continue
            try:
                tree = ast.parse(open(os.path.join(root, f), encoding='utf-8').read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    if type(n.value) is int and abs(n.value) < 10 ** 12:
                        ints.update((n.value, n.value + 1, n.value - 1))
                    elif type(n.value) is str and len(n.value) < 30 and '\n' not in n.value:
                        strs.add(n.value)
    return sorted(ints), sorted(strs)


class ConcApi:
    symbolic = False

    def __init__(self, hints=None, seed=0, lits=((), ())):
        self.hints = hints or {}
        self.rng = random.Random(seed)
        self.seed = seed
        self.failures = []
        self.checked = 0
        self.data = {}
        self.events = []
        self.used = {}
        self.pool_i = list(INTS) + list(lits[0])
        self.pool_s = list(STRS) + list(lits[1])
        self.seen_i = []
        self.seen_s = []
        self.objs = {}

    # ------------------------------------------------------------ world
    def mod(self, name):
        return importlib.import_module(name)

    def get(self, path):
        m, q = path.split(':')
        try:
            o = self.mod(m)
            for part in q.split('.'):
                o = getattr(o, part)
            return o
        except (ImportError, AttributeError):
            raise Skip('no ' + path)

    def use_contract(self, path, stub):
        return False

    def state(self, *extra):
        return None

    def unchanged(self, before, *extra):
        pass

    def scratch(self):
        """A directory of the case's own, removed when it ends."""
        import shutil
        import tempfile

        class Scratch:
            root = os.path.realpath(tempfile.mkdtemp(prefix='fs_', dir=os.environ.get('PYVC_SCRATCH')))

            def remove_all(self):
                shutil.rmtree(self.root, ignore_errors=True)
        self.data['fs'] = Scratch()
        return self.data['fs'].root

    def give_up(self, why):
        raise Skip(why)

    def setup_stub(self, name, module):
        pass

    def while_cut(self, inv, havoc):
        pass

    # ------------------------------------------------------------ inputs
    def _hint(self, name, default):
        if name in self.hints and self.hints[name] is not None:
            v = self.hints[name]
        else:
            v = default()
        self.used[name] = v
        return v

    def bool(self, name):
        return bool(self._hint(name, lambda: self.rng.random() < 0.5))

    def _rint(self, lo, hi):
        for _ in range(50):
            r = self.rng.random()
            if r < 0.35 and self.seen_i:
                v = self.rng.choice(self.seen_i) + self.rng.choice([-1, 0, 0, 1])
            elif r < 0.75:
                v = self.rng.choice(self.pool_i)
            else:
                v = self.rng.randint(0, 60)
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        return lo if lo is not None else hi

    def int(self, name, lo=None, hi=None):
        v = int(self._hint(name, lambda: self._rint(lo, hi)))
        self.seen_i.append(v)
        return v

    def real(self, name, lo=None):
        return float(self._hint(name, lambda: max(self.rng.choice([0.0, 0.5, 1.0, 2.25, 1e-9, 123.0]), lo or 0.0)))

    def _rstr(self):
        if self.seen_s and self.rng.random() < 0.35:
            return self.rng.choice(self.seen_s)
        return self.rng.choice(self.pool_s)

    def str(self, name):
        v = self._hint(name, self._rstr)
        v = ''.join(list(v)) if isinstance(v, str) else self._rstr()
        self.seen_s.append(v)
        return v

    def ident(self, name):
        return self._hint(name, lambda: self.rng.choice(['a', 'b', 'c', 'lol', '_', '__x', 'a1', 'A', 'class', 'projected', 'Pinkie_Pie', '\u0443\u0440']))

    def dotted(self, parts):
        return '.'.join(parts)

    def word(self, name):
        return self._hint(name, lambda: self.rng.choice(['lol', 'kek', 'x', 'KB', 'Mb', 'kbs', 'bytess', '5kb', 'kb5', '1.5', '-', '--5', '1e3', '0x10', '.', 'byte.', '1_0', '007', '0', 'megabite', 'b', 'mb']))

    def text(self, *parts):
        return ''.join(str(p) for p in parts)

    def to_int(self, x):
        return self.run(int, x)

    def fs(self):
        if 'fs' not in self.data:
            from .realfs import RealFS
            self.data['fs'] = RealFS(os.environ.get('PYVC_SCRATCH'))
        return self.data['fs']

    def clock(self):
        pass

    def now(self):
        import time
        time.sleep(0.0002)
        return time.time()

    def as_time(self, reading):
        import datetime
        return datetime.datetime.fromtimestamp(reading)

    def time(self, name):
        import datetime
        v = self._hint(name, lambda: self.rng.choice([0.0, 1.0, 2.0, 100.5]))
        return datetime.datetime.fromtimestamp(min(max(v, 0), 4e9) + 1e9)

    def any(self, name, kinds=None):
        from_kinds = kinds or ('none', 'bool', 'int', 'intsub', 'float', 'str', 'strsub', 'list', 'tuple', 'dict', 'class', 'func', 'other')
        h = self._hint(name, lambda: {'kind': self.rng.choice(list(from_kinds)), 'str': self.rng.choice(['ok', 'ok', 'raise'])})
        k = h['kind']
        if k == 'none':
            return None
        if k == 'bool':
            return bool(h.get('value', self.rng.random() < 0.5))
        if k in ('int', 'intsub'):
            v = h['value'] if 'value' in h else self._rint(None, None)
            self.seen_i.append(v)
            return v if k == 'int' else IntSub(v)
        if k == 'float':
            return float(h.get('value', self.rng.choice([0.0, 1.5, -2.0, 1e10])))
        if k in ('str', 'strsub'):
            v = h['value'] if 'value' in h else self._rstr()
            return v if k == 'str' else StrSub(v)
        if k == 'list':
            return [1, 'a']
        if k == 'tuple':
            return (1, 'a')
        if k == 'dict':
            return {'a': 1}
        if k == 'class':
            return AnyObj
        if k == 'func':
            return lambda x: x
        return AnyObj(name, h.get('str') == 'raise')

    def choose(self, name, options):
        i = self._hint(name, lambda: self.rng.randrange(len(options)))
        return options[i % len(options)]

    def maybe(self, name):
        return self.choose(name, [False, True])

    def seq(self, name, elem, pytype=list, bound=3, inv=None, havoc=None, sym_elem=None, frame=None):
        n = self._hint(name + '.len', lambda: self.rng.choice([0, 1, 2, 2, 3, 4, 7, 12]))
        n = min(n, 400)
        return pytype(elem(i) for i in range(n))

    def seqlen(self, s):
        return len(s)

    def exception(self, name, base=True, extra=(), exotic=True, coro=False):
        names = {'UserError': UserError, 'UserBase': UserBase, 'BadStrError': BadStrError, 'FrozenError': FrozenError}
        names.update({c.__name__: c for c in extra})
        default = ['UserError', 'UserError', 'ValueError', 'KeyError', 'TypeError', 'AttributeError', 'IndexError'] + [c.__name__ for c in extra]
        if exotic:
            default += ['BadStrError', 'FrozenError']
        if base:
            default += ['UserBase', 'KeyboardInterrupt']
        n = self._hint(name, lambda: self.rng.choice(default))
        cls = names.get(n) or getattr(builtins, n)
        try:
            return cls('raised by %s' % name)
        except TypeError:
            return cls()

    # ------------------------------------------------------------ logic
    def assume(self, x):
        if not x:
            raise Skip('assume')

    def prove(self, label, cond, soft=False):
        if callable(cond):
            cond = cond()
        self.checked += 1
        if not cond:
            self.failures.append(label)
        return bool(cond)

    def cover(self, label):
        pass

    def _v(self, x):
        return x() if callable(x) and not isinstance(x, type) else x

    def and_(self, *xs):
        return all(self._v(x) for x in xs)

    def or_(self, *xs):
        return any(self._v(x) for x in xs)

    def not_(self, x):
        return not self._v(x)

    def implies(self, a, b):
        return (not self._v(a)) or bool(self._v(b))

    def iff(self, a, b):
        return bool(self._v(a)) == bool(self._v(b))

    def ite(self, cond, a, b):
        return a if cond else b

    def max(self, *xs):
        return max(xs)

    def eq(self, a, b):
        return a == b

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (int, str, float)) and type(a) is type(b):
            return a == b
        return False

    def truth(self, x):
        return bool(x)

    def exactly(self, x, T):
        """Is T the very type of x?"""
        return type(x) is T

    def isinstance(self, x, T):
        return isinstance(x, T)

    def strof(self, x):
        return str(x)

    # ------------------------------------------------------------ running
    def run(self, f, *a, **k):
        try:
            return Outcome(True, f(*a, **k))
        except Skip:
            raise
        except BaseException as e:
            return Outcome(False, exc=e)

    def run_coro(self, coro):
        try:
            while True:
                coro.send(None)
        except StopIteration as e:
            return Outcome(True, e.value)
        except Skip:
            raise
        except BaseException as e:
            return Outcome(False, exc=e)

    def callkw(self, f, args, mapping):
        return self.run(f, *args, **mapping)

    def dict(self, *a, **k):
        return dict(*a, **k)

    def list(self, xs=()):
        return list(xs)

    def held(self):
        return []

    def interleave(self, name, a, b, points=200, block=0.05, stop=20, files='polog', only=None):
        """One-preemption schedule: `a` runs in a thread; at its k-th executed line of polog, `b` runs in a second thread until it
        ends or blocks; then both run to their ends.  Returns their outcomes, or None for a thread that never ends (deadlock)."""
        import threading
        import time as _t
        k = self._hint(name + ' preemption point', lambda: self.seed % points)
        res = [None, None]
        started = threading.Event()
        tb = threading.Thread(target=lambda: res.__setitem__(1, self.run(b)), daemon=True)
        count = [0]
        mark = os.sep + files + os.sep

        def go():
            if not started.is_set():
                started.set()
                tb.start()
                tb.join(block)

        def tracer(frame, event, arg):
            if started.is_set():
                return None
            if only is not None and not any(x in frame.f_code.co_filename for x in only):
                return None
            if mark not in frame.f_code.co_filename or (os.sep + 'tests' + os.sep) in frame.f_code.co_filename:
                return tracer if event == 'call' and frame.f_back is not None and False else None
            if event in ('line', 'call', 'return'):
                if count[0] == k:
                    sys.settrace(None)
                    go()
                    return None
                count[0] += 1
            return tracer

        def outer():
            sys.settrace(tracer)
            try:
                res[0] = self.run(a)
            finally:
                sys.settrace(None)
            go()
        ta = threading.Thread(target=outer, daemon=True)
        ta.start()
        ta.join(stop)
        if ta.is_alive():
            go()
        tb.join(stop if not ta.is_alive() else 1)
        self.data['lines'] = count[0]
        return (None if ta.is_alive() else res[0]), (None if tb.is_alive() else res[1])

    def get_events(self, tag):
        return [e for e in self.events if e[0] == tag]
