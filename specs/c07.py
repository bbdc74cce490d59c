"""C07 - which exceptions are suppressed."""
PYVC_TRUSTED = True
from specs.lib import *

FL = 'polog.loggers.auto.function_logger:FunctionLogger'
FIN = 'polog.loggers.finalizer:LoggerRouteFinalizer'
SUP = 'polog.core.utils.exception_is_suppressed:exception_is_suppressed'


class A(Exception):
    pass


class B(A):
    pass


class D(Exception):
    """Unrelated to A, but with the same names: only the class itself counts."""


D.__name__, D.__qualname__ = 'A', 'A'


class BadStr(A):
    def __str__(self):
        raise UserError('str failed')


LISTS = [None, (), (A,), (D,), (A, D), (D, A), (B,), (Exception,), (A, B)]


def expected(c, cls, lst, subclasses, default):
    """Is an exception of class cls suppressed?  lst: None - .suppress() not called; () - called without arguments."""
    if lst is None:
        return default
    if not lst:
        return True
    return c.or_(any(cls is x for x in lst), c.and_(subclasses, any(issubclass(cls, x) for x in lst)))


def apply(log_object, lst, how):
    if lst is None:
        return log_object
    if how == 'chain' and len(lst) == 2:
        return log_object.suppress(lst[0]).suppress(lst[1])
    return log_object.suppress(*lst)


def settings(c):
    d = symbolic_bools(c, 'suppress_exception_subclasses', 'suppress_by_default')
    return d['suppress_exception_subclasses'], d['suppress_by_default']


@contract('C07', [FL + '.__call__', FIN + '.suppress', FIN + '.__call__', SUP, 'polog.loggers.auto.class_logger:ClassLogger.__call__'])
def decorated(c):
    """a failed decorated call: the exception is suppressed (None is returned) exactly when .suppress() covers it; nothing but Exception is ever suppressed"""
    subs, default = settings(c)
    rec = capture(c)
    lst = c.choose('list', LISTS)
    cls = c.choose('class', [A, B, D, BadStr, UserBase])
    kind = c.choose('kind', ['sync', 'async', 'method'])
    exc = cls('x')
    log = c.get('polog:log')
    form = c.choose('form', ['call', 'message', 'level'])
    deco = apply({'call': lambda: log(), 'message': lambda: log('message'), 'level': lambda: log(level=5)}[form](), lst, c.choose('how', ['at once', 'chain']))
    if kind == 'sync':
        @deco
        def f():
            raise exc
        out = c.run(f)
    elif kind == 'async':
        @deco
        async def f():
            raise exc
        out = c.run_coro(f())
    else:
        @deco
        class K:
            def f(self):
                raise exc
        out = c.run(K().f)
    want = False if cls is UserBase else expected(c, cls, lst, subs, False)
    c.prove('suppressed exactly when .suppress() covers it', c.iff(out.ok, want))
    if out.ok:
        c.prove('a suppressed call returns None', out.value is None)
    else:
        c.prove('the exception itself propagates', out.exc is exc)
    if cls not in (BadStr, UserBase):
        c.prove('the record is written, suppressed or not', len(rec) == 1)
        c.prove('the record tells the failure', rec.field(0, 'success') is False)


@contract('C07', [FL + '.__call__', FIN + '.suppress'])
def successful(c):
    """suppression never changes a call or a block that does not fail"""
    settings(c)
    rec = capture(c)
    log = c.get('polog:log')
    lst = c.choose('list', LISTS)
    if c.choose('usage', ['decorator', 'with']) == 'decorator':
        f, calls = user_function(c, raises=False, result=object())
        out = c.run(apply(log('m'), lst, 'at once')(f))
        c.prove('the result is returned', out.ok and c.same(out.value, calls[0]['ret']))
    else:
        done = []

        def use():
            with apply(log('m'), lst, 'at once'):
                done.append(1)
        out = c.run(use)
        c.prove('the block is executed', out.ok and len(done) == 1)
    c.prove('one record', len(rec) == 1 and rec.field(0, 'success') is True)


@contract('C07', [FIN + '.__exit__', FIN + '.suppress', SUP, 'polog.loggers.router:Router.__exit__', 'polog.loggers.router:Router.suppress', 'polog.loggers.partial:RouterPartial.__enter__',
                  'polog.loggers.partial:RouterPartial.__exit__', 'polog.loggers.partial:RouterPartial.suppress'])
def context_manager(c):
    """an exception of the block: suppressed exactly when .suppress() covers it, or, without .suppress(), when suppress_by_default is on"""
    subs, default = settings(c)
    rec = capture(c)
    log = c.get('polog:log')
    c.get('polog:config').levels(lol=5)
    lst = c.choose('list', LISTS)
    cls = c.choose('class', [A, B, D, BadStr, UserBase])
    exc = cls('x')
    form = c.choose('form', ['message', 'empty', 'bare', 'level'])

    def use():
        if form == 'bare':
            cm = apply(log, lst, 'at once')
        elif form == 'level':
            cm = apply(log.lol, lst, 'at once')
        else:
            cm = apply(log('m') if form == 'message' else log(), lst, c.choose('how', ['at once', 'chain']))
        with cm:
            raise exc
    out = c.run(use)
    c.prove('suppressed exactly when the rule says', c.iff(out.ok, expected(c, cls, lst, subs, default)))
    if not out.ok:
        c.prove('the exception itself propagates', out.exc is exc)
    c.prove('the record is written, suppressed or not', len(rec) == 1)
    c.prove('the record tells the failure', rec.field(0, 'success') is False)


@contract('C07', [FIN + '.__exit__', 'polog.loggers.router:Router.__enter__', 'polog.loggers.router:Router.__exit__'])
def nested_blocks(c):
    """nested blocks: each decides by its own list; the inner one first"""
    subs, default = settings(c)
    rec = capture(c)
    log = c.get('polog:log')
    outer, inner = c.choose('outer', LISTS[:5]), c.choose('inner', LISTS[:5])
    cls = c.choose('class', [A, B, D])
    bare = c.choose('bare', [False, True])
    reached = []

    def use():
        with apply(log if bare else log('outer'), outer, 'at once'):
            with apply(log if bare else log('inner'), inner, 'at once'):
                raise cls('x')
            reached.append(1)
    out = c.run(use)
    i = expected(c, cls, inner, subs, default)
    o = expected(c, cls, outer, subs, default)
    c.prove('the outer block goes on exactly when the inner one suppresses', c.iff(len(reached) == 1, i))
    c.prove('the exception leaves exactly when neither suppresses', c.iff(out.ok, c.or_(i, o)))
    c.prove('one record for each block', len(rec) == 2)
    c.prove('the inner record is of the failed block', rec.field(0, 'success') is False)
    c.prove('the outer record fails exactly when the inner block lets the exception out', c.iff(rec.field(1, 'success') is False, c.not_(i)))


@contract('C07', [FL + '.__call__'])
def default_setting_is_not_for_decorators(c):
    """suppress_by_default never changes a decorated call without .suppress()"""
    settings(c)
    f, calls = user_function(c, raises=True, kind='sync')
    log = c.get('polog:log')
    how = c.choose('how', ['bare', 'call', 'message'])
    g = log(f) if how == 'bare' else (log()(f) if how == 'call' else log('m')(f))
    out = c.run(g)
    c.prove('the exception itself propagates', not out.ok and out.exc is calls[0]['exc'])
