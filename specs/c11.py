"""C11 - stacked decorators: one record per call, made by the topmost one."""
PYVC_TRUSTED = True
from specs.lib import *

FL = 'polog.loggers.auto.function_logger:FunctionLogger'
R = 'polog.core.stores.registering_functions:RegisteringFunctions'
T = [FL + '.__call__', R + '.get_function_or_wrapper', R + '.get_original', R + '.add', R + '.remove', R + '.is_method', R + '.is_decorator']


def one_record(c, rec, i, message, level, fails):
    c.prove('exactly one record per call', len(rec) == i + 1)
    c.prove('made by the decorator in force', rec.field(i, 'message') == message)
    c.prove('with its level', c.eq(rec.field(i, 'level'), level))
    c.prove('telling the outcome', rec.field(i, 'success') is (not fails))


@contract('C11', T)
def functions(c):
    """1..4 decorators on one function: every call makes exactly one record, with the message and level of the topmost; the function is called once"""
    rec = capture(c)
    log = c.get('polog:log')
    n = c.choose('decorators', [1, 2, 3, 4])
    kind = c.choose('kind', ['sync', 'async'])
    fails = c.choose('fails', [False, True])
    calls = []

    def body(x):
        calls.append(x)
        if fails:
            raise UserError('x')
        return x
    if kind == 'sync':
        def f(x):
            return body(x)
    else:
        async def f(x):
            return body(x)
    original = f
    olds = []
    for i in range(n):
        l = c.int('level %d' % i, lo=0)
        setting(c, level=0)
        f = log('message %d' % i, level=l, errors_level=l)(f)
        olds.append(f)
    a = c.any('a', ('none', 'int', 'str'))
    for k in range(2):
        out = c.run_coro(f(a)) if kind == 'async' else c.run(f, a)
        c.prove('the call has its own outcome', isinstance(out.exc, UserError) if fails else out.ok and c.same(out.value, a))
        c.prove('the function is called once', len(calls) == k + 1 and c.same(calls[k], a))
        one_record(c, rec, k, 'message %d' % (n - 1), l, fails)
    c.prove('the metadata of the function is kept', f.__name__ == original.__name__)


@contract('C11', T + ['polog.loggers.auto.class_logger:ClassLogger.__call__'])
def class_and_method(c):
    """a decorator of a method beats the decorator of its class, however many of each and in whatever order; other methods follow the topmost class decorator"""
    rec = capture(c)
    log = c.get('polog:log')
    fails = c.choose('fails', [False, True])
    steps = [c.choose('step 0', ['class', 'method'])]
    for i in (1, 2, 3):
        x = c.choose('step %d' % i, ['end', 'class', 'method'])
        if x == 'end':
            break
        steps.append(x)

    class A:
        def m(self):
            if fails:
                raise UserError('x')

        def other(self):
            pass

    want = cls = None
    for i, x in enumerate(steps):
        l = c.int('level %d' % i, lo=0)
        if x == 'method':
            A.m = log('method %d' % i, level=l, errors_level=l)(A.m)
            want = ('method %d' % i, l)
        else:
            log('class %d' % i, level=l, errors_level=l)(A)
            cls = ('class %d' % i, l)
    setting(c, level=0)
    a = A()
    c.run(a.m)
    one_record(c, rec, 0, *(want or cls), fails)
    c.run(a.other)
    if cls is None:
        c.prove('not logged', len(rec) == 1)
    else:
        one_record(c, rec, 1, *cls, False)
    n = len(rec)
    c.run(a.m)
    one_record(c, rec, n, *(want or cls), fails)


@contract('C11', T + ['polog.loggers.auto.class_logger:ClassLogger.__call__', 'polog.loggers.auto.class_logger:ClassLogger.make_originals'])
def inheritance(c):
    """a subclass keeps the logging of its parent; its own decorator replaces it in the subclass only; with methods=... the other methods of the subclass are not logged"""
    rec = capture(c)
    log = c.get('polog:log')
    setting(c, level=0)
    l1, l2 = c.int('parent level', lo=0), c.int('child level', lo=0)

    class A:
        def m(self):
            return 'm'

        def k(self):
            return 'k'
    parent = c.choose('parent', [False, True])
    if parent:
        log('parent', level=l1)(A)
    how = c.choose('child', ['none', 'all', 'methods'])

    class B(A):
        pass
    if how == 'all':
        log('child', level=l2)(B)
    elif how == 'methods':
        log('child', level=l2, methods=('m',))(B)
    p = ('parent', l1) if parent else None
    ch = ('child', l2)
    for cls, name, want in ((B, 'm', p if how == 'none' else ch), (B, 'k', p if how == 'none' else (ch if how == 'all' else None)), (A, 'm', p), (A, 'k', p)):
        n = len(rec)
        out = c.run(getattr(cls(), name))
        c.prove('the method works', out.ok and out.value == name)
        if want is None:
            c.prove('not logged', len(rec) == n)
        else:
            one_record(c, rec, n, want[0], want[1], False)


@contract('C11', [R + '.get_original', 'polog.data_structures.wrappers.weak_linked.dictionary:LockedWeakKeyValueDictionary.get'], mode='concrete', cases=100)
def function_lifetime(c):
    """BOUNDED: functions that come and go: decorating many short-lived functions never mixes them up"""
    import gc
    rec = capture(c)
    log = c.get('polog:log')
    n = c.choose('functions', [3, 10, 30])
    keep = []
    for i in range(n):
        def f(i=i):
            return i
        g = log('m%d' % i)(f)
        if c.choose('again %d' % i, [False, True]):
            g = log('m%d' % i)(g)
        if c.choose('keep %d' % i, [False, True]):
            keep.append((i, g))
        out = c.run(g)
        c.prove('own result', out.ok and out.value == i)
        del f, g
        if c.choose('collect %d' % i, [False, True]):
            gc.collect()
    for i, g in keep:
        k = len(rec)
        out = c.run(g)
        c.prove('own result later', out.ok and out.value == i)
        c.prove('own record', len(rec) == k + 1 and rec.field(k, 'message') == 'm%d' % i)
