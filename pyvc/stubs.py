"""Trusted contracts of the standard-library functions polog calls (assumed, not proved)."""
PYVC_TRUSTED = True
import contextlib
import importlib
import types
import contextvars as _cv

import z3

from . import core, vals
from .vals import Sym, SymAny, SymBool, SymFloat, SymInt, SymStr, EDict, EList, Opaque, OpaqueType, uf, unsup, is_sym, S_, B_, I_

R_ = z3.RealSort()


class StubModule(types.ModuleType):
    def __init__(self, name, real=None, **attrs):
        super().__init__(name)
        self.__dict__['_real'] = real
        for k, v in attrs.items():
            setattr(self, k, v)

    def __getattr__(self, name):
        real = self.__dict__.get('_real')
        if name.startswith('__'):
            raise AttributeError(name)
        if real is None:
            return outside(self.__name__, name)
        return getattr(real, name)


def outside(module, name):
    """A name of a stubbed module that has no model: importing it is harmless, using it is outside reach."""
    value = getattr(importlib.import_module(module), name)
    if isinstance(value, type):
        if issubclass(value, BaseException):
            return value
        return OutsideMeta(name, (), {'__module__': module})
    if value is None or isinstance(value, (bool, int, float, str, bytes)):
        return value
    return _no('%s.%s' % (module, name))


class OutsideMeta(type):
    def __call__(cls, *a, **k):
        unsup('%s.%s' % (cls.__module__, cls.__name__))

    def __instancecheck__(cls, x):
        unsup('isinstance of %s.%s' % (cls.__module__, cls.__name__))

    def __subclasscheck__(cls, x):
        unsup('issubclass of %s.%s' % (cls.__module__, cls.__name__))


# ------------------------------------------------------------------ threading
class Lock:
    """threading.Lock: mutual exclusion; acquiring a lock the same thread already holds never returns."""
    reentrant = False
    pv_lock = True

    def __init__(self, *a, **k):
        self.depth = 0

    def acquire(self, *a, **k):
        c = core.CTX
        if c is not None:
            if self.depth and not self.reentrant:
                if c.data.get('deadlock_ok'):
                    c.end('deadlock')
                c.prove('no self-deadlock on a non-reentrant lock', False)
                c.end('deadlock')
            self.depth += 1
            c.locks_held.append(self)
            if c.on_lock is not None:
                c.on_lock('acquire', self)
        return True

    def release(self):
        c = core.CTX
        if c is not None:
            if self.depth == 0:
                raise RuntimeError('release unlocked lock')
            self.depth -= 1
            if self in c.locks_held:
                c.locks_held.reverse()
                c.locks_held.remove(self)
                c.locks_held.reverse()
            if c.on_lock is not None:
                c.on_lock('release', self)

    def locked(self):
        return self.depth > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    reentrant = True


class BoundedSemaphore(Lock):
    def __init__(self, value=1):
        super().__init__()


class Thread:
    """Only records the start; bodies of threads are verified separately (thread-modular)."""
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.daemon = daemon
        self.waits, self.ended = 0, False

    def start(self):
        c = core.CTX
        c.events.append(('thread-start', self))

    def join(self, timeout=None):
        c = core.CTX
        if timeout is not None and not self.ended:
            # the thread may still run after the timeout; that it ends at some time is assumed here (at most two timeouts)
            self.waits += 1
            if self.waits <= 2 and c.choose(2, 'thread still runs') == 1:
                c.events.append(('thread-wait', self))
                return
        self.ended = True
        c.events.append(('thread-join', self))
        h = c.data.get('on_join')
        if h is not None:
            h(self)

    def is_alive(self):
        return not self.ended


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        self.interval, self.function = interval, function

    def cancel(self):
        core.CTX.events.append(('timer-cancel', self))

    def start(self):
        core.CTX.events.append(('timer-start', self))


# ------------------------------------------------------------------ contextvars
class ContextVar:
    """Delegates to a real ContextVar (values may be proxies)."""
    def __init__(self, name, **kw):
        self._v = _cv.ContextVar(name, **kw)

    def get(self, *default):
        return self._v.get(*default)

    def set(self, value):
        vals.note_write(self)
        return self._v.set(value)

    def reset(self, token):
        vals.note_write(self)
        return self._v.reset(token)


# ------------------------------------------------------------------ time
def time():
    """An arbitrary reading, not less than the readings before it if the contract asks for that."""
    c = core.CTX
    t = z3.Real(c.fresh('now'))
    if 'readings' in c.data:
        if c.data['readings']:
            c.assume(t >= c.data['readings'][-1])
        c.data['readings'].append(t)
    return SymFloat(t)


def other_clock():
    """monotonic, perf_counter: the same readings from another beginning"""
    return time() + SymFloat(z3.Real('beginning of the other clock'))


class SymDelta(Sym):
    """A timedelta, abstracted to a real number of seconds."""
    def __init__(self, t):
        self.t = t

    def total_seconds(self):
        return SymFloat(self.t)

    def __getattr__(self, name):
        unsup('timedelta.' + name)


def sleep(x):
    core.CTX.events.append(('sleep', x))


class SymTime(Sym):
    """A datetime, abstracted to a real number."""
    def __init__(self, t):
        self.t = t

    @property
    def pv_type(self):
        import datetime
        return datetime.datetime

    def _cmp(self, o, f):
        if isinstance(o, SymAny):
            o = o.resolve()
        if not isinstance(o, SymTime):
            return NotImplemented
        return SymBool(f(self.t, o.t))

    def __eq__(self, o):
        if isinstance(o, SymAny):
            o = o.resolve()
        return SymBool(self.t == o.t) if isinstance(o, SymTime) else False

    def __ne__(self, o):
        return vals.neg(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __sub__(self, o):
        if isinstance(o, SymTime):
            return SymDelta(self.t - o.t)
        if isinstance(o, SymDelta):
            return SymTime(self.t - o.t)
        unsup('datetime - %s' % type(o).__name__)

    def __add__(self, o):
        if isinstance(o, SymDelta):
            return SymTime(self.t + o.t)
        unsup('datetime + %s' % type(o).__name__)

    def timestamp(self):
        return SymFloat(self.t)

    def __getattr__(self, name):
        if name.startswith('pv_') or name.startswith('__'):
            raise AttributeError(name)
        unsup('datetime.' + name)

    def __bool__(self):
        return True

    def pv_hash(self):
        return SymInt(uf('hash_time', R_, I_)(self.t))

    def pv_str(self):
        return SymStr(uf('str_time', R_, S_)(self.t))

    __hash__ = Sym.__hash__


class datetime_class:
    @staticmethod
    def fromtimestamp(x):
        t = vals._numterm(x)
        if t is None:
            raise TypeError('a number is required')
        return SymTime(t[0] if t[1] else z3.ToReal(t[0]))

    @staticmethod
    def now(*a):
        if core.CTX.data.get('clock') is not None:
            import datetime as _d
            core.CTX.data['clock'] += 1
            return _d.datetime(2024, 1, 1) + _d.timedelta(seconds=core.CTX.data['clock'])
        if a and a[0] is not None:
            unsup('datetime.now with a time zone')
        return SymTime(time().t)


# ------------------------------------------------------------------ json
class JsonStr(SymStr):
    """A string produced by dumps(payload)."""
    __slots__ = ('payload',)


def dumps(obj, *a, **k):
    from .ops import has_sym
    c = core.CTX
    mode = c.data.get('json', 'total')
    if mode == 'may_fail' and c.choose(2, 'json.dumps fails') == 1:
        raise ValueError('json.dumps failed')
    if not has_sym([obj], 5):
        import json
        return json.dumps(obj)
    s = JsonStr(z3.String(c.fresh('json')))
    c.add(s.t != z3.StringVal(''))
    s.payload = obj
    return s


def loads(s, *a, **k):
    if isinstance(s, SymAny):
        s = s.resolve()
    if isinstance(s, JsonStr):
        return s.payload
    if isinstance(s, Sym):
        unsup('json.loads of an arbitrary string')
    import json
    return wrap(json.loads(s))


def wrap(x):
    if isinstance(x, dict):
        r = EDict()
        for k, v in x.items():
            r[k] = wrap(v)
        return r
    if isinstance(x, list):
        return EList([wrap(v) for v in x])
    return x


# ------------------------------------------------------------------ inspect
def isclass(x):
    from .ops import rep
    x = rep(x)
    if isinstance(x, SymAny):
        return x.narrow(lambda k: k == 'class')
    if isinstance(x, OpaqueType) or hasattr(type(x), 'pv_issubclass'):
        return True
    return isinstance(x, type)


def ismodule(x):
    from .ops import rep
    x = rep(x)
    if isinstance(x, Sym):
        return False
    return isinstance(x, types.ModuleType)


def iscoroutinefunction(x):
    import inspect
    if isinstance(x, Sym):
        return False
    return inspect.iscoroutinefunction(x)


# ------------------------------------------------------------------ logging
class Filterer:
    def __init__(self):
        self.filters = EList()

    def addFilter(self, f):
        if not any(x is f for x in self.filters):
            self.filters.append(f)

    def removeFilter(self, f):
        if any(x is f for x in self.filters):
            self.filters[:] = [x for x in self.filters if x is not f]


class Stubs:
    def __init__(self, c):
        self.c = c
        self.mods = {}
        self.overrides = {}
        self._fs = None

    def fs(self):
        if self._fs is None:
            from . import fs
            self._fs = fs.FS()
            self.mods.update(fs.modules(self._fs, StubModule))
            core.CTX.data['fs'] = self._fs
        return self._fs

    def module(self, name):
        if name in self.overrides:
            return self.overrides[name]
        if name not in self.mods:
            self.mods[name] = self.build(name)
        return self.mods[name]

    def build(self, name):
        def real(n=name):
            return importlib.import_module(n)
        if name == 'threading':
            return StubModule(name, None, Lock=Lock, RLock=RLock, BoundedSemaphore=BoundedSemaphore, Semaphore=BoundedSemaphore, Thread=Thread, Timer=Timer,
                              current_thread=lambda: self, main_thread=lambda: self)
        if name == 'contextvars':
            return StubModule(name, None, ContextVar=ContextVar, copy_context=_cv.copy_context)
        if name == 'time':
            return StubModule(name, None, time=time, sleep=sleep, monotonic=other_clock, perf_counter=other_clock)
        if name == 'datetime':
            d = StubModule(name, None, datetime=datetime_class)
            return d
        if name == 'json':
            return StubModule(name, None, dumps=dumps, loads=loads, JSONDecodeError=ValueError)
        if name == 'queue':
            import queue
            return StubModule(name, None, Queue=_no('queue.Queue'), Empty=queue.Empty, Full=queue.Full)
        if name == 'atexit':
            def register(f, *a, **k):
                core.CTX.events.append(('atexit', f))
                return f
            return StubModule(name, None, register=register)
        if name == 'logging':
            root = Filterer()
            return StubModule(name, None, root=root, getLogger=lambda *a: root)
        if name == 'builtins':
            return StubModule(name, real())
        if name == 'inspect':
            return StubModule(name, real(), isclass=isclass, ismodule=ismodule, iscoroutinefunction=iscoroutinefunction)
        if name == 'multiprocessing':
            class P:
                pid = 4242
            return StubModule(name, None, current_process=lambda: P)
        if name == '_testcapi':
            raise ImportError('no _testcapi in the verified world')
        if name == 'weakref':
            return real()
        if name == '_thread':
            def interrupt_main():
                core.CTX.events.append(('interrupt_main',))
            return StubModule(name, None, interrupt_main=interrupt_main)
        if name == 'sys':
            return StubModule(name, real())
        if name in ('traceback', 'importlib', 'email.mime.text'):
            return real()
        if name in ('os', 'os.path', 'shutil', 'fcntl', 'pathlib'):
            self.fs()
            return self.mods[name]
        if name == 'smtplib':
            return StubModule(name, real())
        return real()


def _no(what):
    def f(*a, **k):
        unsup(what)
    return f
