"""C09 - one exception is recorded once by decorators."""
PYVC_TRUSTED = True
from specs.lib import *

FL = 'polog.loggers.auto.function_logger:FunctionLogger'
T = [FL + '.log_exception_info', FL + '.__call__']


def decorate(c, f, kind):
    log = c.get('polog:log')
    return log(f)


@contract('C09', T)
def chain(c):
    """one exception passing through any of three nested decorated calls: with deduplication one record, by the innermost; without it one record per decorated call"""
    dd = symbolic_bools(c, 'deduplicate_errors')['deduplicate_errors']
    rec = capture(c)
    log = c.get('polog:log')
    exc = c.exception('exc', base=False, exotic=False, coro=True)
    kinds = [c.choose('kind %d' % i, ['sync', 'async', 'method', 'plain']) for i in range(3)]
    depth = c.choose('depth', [1, 2, 3])
    decorated = [k != 'plain' for k in kinds[:depth]]

    def raiser():
        raise exc
    f = raiser
    for i in range(depth):
        f = level(c, log, f, kinds[i], 'level_%d' % i)
    out = c.run(f)
    c.prove('the exception itself comes out', out.exc is exc)
    total = sum(decorated)
    first = next((i for i in range(depth) if decorated[i]), None)
    c.prove('with deduplication: one record', c.implies(dd, len(rec) == min(total, 1)))
    c.prove('without deduplication: one record per decorated call', c.implies(c.not_(dd), len(rec) == total))
    if first is not None:
        c.prove('the first record is made by the innermost decorated call', rec.field(0, 'function') == 'level_%d' % first)
        c.prove('it tells the exception', c.and_(c.eq(rec.field(0, 'exception_type'), type(exc).__name__), rec.field(0, 'success') is False))


def level(c, log, inner, kind, name):
    if kind == 'plain':
        def f():
            return inner()
        return f
    if kind == 'sync':
        def f():
            return inner()
        f.__name__ = name
        return log(f)
    if kind == 'method':
        class K:
            pass

        def m(self):
            return inner()
        m.__name__ = name
        m.__qualname__ = 'K.' + name
        K.m = m
        log(K)
        return K().m

    async def f():
        return inner()
    f.__name__ = name
    g = log(f)

    def run():
        out = c.run_coro(g())
        if out.ok:
            return out.value
        raise out.exc
    return run


@contract('C09', T)
def different_exceptions(c):
    """every exception has its own record: a new exception raised while handling an old one, equal exceptions, exceptions of one class"""
    dd = symbolic_bools(c, 'deduplicate_errors')['deduplicate_errors']
    rec = capture(c)
    log = c.get('polog:log')
    a = c.exception('a', base=False, exotic=False, coro=True)
    case = c.choose('case', ['replaced', 'from', 'sequence', 'caught and new'])

    @log
    def inner():
        raise a

    @log
    def outer():
        if case == 'replaced':
            try:
                inner()
            except Exception:
                raise type(a)('raised by a')
        elif case == 'from':
            try:
                inner()
            except Exception as e:
                raise UserError('other') from e
        elif case == 'sequence':
            try:
                inner()
            except Exception:
                pass
            raise type(a)('raised by a')
        else:
            try:
                inner()
            except Exception:
                return 1
    c.run(outer)
    if case == 'caught and new':
        c.prove('the successful outer call is recorded as well', len(rec) == 2 and rec.field(1, 'success') is True)
    else:
        c.prove('each exception is recorded', len(rec) == 2)
        c.prove('both records tell a failure', rec.field(0, 'success') is False and rec.field(1, 'success') is False)


@contract('C09', T)
def level_and_repetition(c):
    """the decision is made at the first decorated call the exception passes through, whether or not the level lets that record out; raising the same object again is not recorded again"""
    rec = capture(c)
    log = c.get('polog:log')
    t, l1, l2 = c.int('threshold', lo=0), c.int('inner level', lo=0), c.int('outer level', lo=0)
    setting(c, level=t, default_level=0, default_error_level=0)
    dd = symbolic_bools(c, 'deduplicate_errors')['deduplicate_errors']
    exc = c.exception('exc', base=False, exotic=False, coro=True)

    @log(errors_level=l1)
    def inner():
        raise exc

    @log(errors_level=l2)
    def outer():
        inner()
    out = c.run(outer)
    c.prove('the exception itself comes out', out.exc is exc)
    n = len(rec)
    one, two = c.ite(l1 >= t, 1, 0), c.ite(l2 >= t, 1, 0)
    c.prove('records', c.eq(n, c.ite(dd, one, one + two)))
    c.run(inner)
    c.prove('the same object again', c.eq(len(rec), n + c.ite(dd, 0, one)))


@contract('C09', T + ['polog.loggers.finalizer:LoggerRouteFinalizer.__exit__'])
def manual_records_are_not_affected(c):
    """manual records and context managers always record, and do not stop a decorator from recording"""
    symbolic_bools(c, 'deduplicate_errors')
    rec = capture(c)
    log = c.get('polog:log')
    exc = c.exception('exc', base=False, exotic=False, coro=True)
    where = c.choose('where', ['inside', 'outside', 'with inside', 'with outside'])

    @log
    def f():
        if where == 'inside':
            log('m', exception=exc)
            if c.symbolic:
                c.c.chk()
        if where == 'with inside':
            with log('m'):
                raise exc
        raise exc

    def g():
        if where == 'outside':
            try:
                f()
            except Exception as e:
                log('m', exception=e)
                raise
        elif where == 'with outside':
            with log('m'):
                f()
        else:
            f()
    out = c.run(g)
    if c.symbolic:
        c.c.chk()
    c.prove('the exception itself comes out', out.exc is exc)
    c.prove('one record of each kind', len(rec) == 2)
    autos = [rec.field(0, 'auto'), rec.field(1, 'auto')]
    c.prove('one automatic and one manual', c.or_(c.and_(autos[0] is True, autos[1] is False), c.and_(autos[0] is False, autos[1] is True)))
