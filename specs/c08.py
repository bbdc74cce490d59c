"""C08 - nothing is logged inside an unlogged call."""
PYVC_TRUSTED = True
from specs.lib import *

U = 'polog.unlog:UnlogDecorator'
R = 'polog.core.stores.registering_functions:RegisteringFunctions'
T = [U + '.__call__', U + '.unlog_function', U + '.set_unlogged', U + '.get_unlog_status', R + '.get_function_or_wrapper', R + '.forbid', R + '.get_original', R + '.remove']


def unlogger(c, full, name='unlog form'):
    """@unlog in one of its forms; full: None, True or False"""
    unlog = c.get('polog:unlog')
    log = c.get('polog:log')
    form = c.choose(name, ['unlog', '-log'])
    u = unlog if form == 'unlog' else -log
    return u if full is None else u(full=full)


def acts(c, log, inside):
    """What the user code inside does: each is a way to write a record."""
    if inside == 'manual':
        log('manual')
        n = 1
    elif inside == 'with':
        with log('manual'):
            pass
        n = 1
    elif inside == 'failed with':
        try:
            with log('manual'):
                raise UserError('x')
        except UserError:
            pass
        n = 1
    elif inside == 'decorated':
        @log
        def g():
            pass
        g()
        n = 1
    elif inside == 'decorated error':
        @log
        def g():
            raise UserError('x')
        try:
            g()
        except UserError:
            pass
        n = 1
    else:
        n = 0
    if c.symbolic:
        c.c.chk()
    return n


INSIDE = ['manual', 'with', 'failed with', 'decorated', 'decorated error', 'nothing']


def effective(c, full, setting_value):
    return setting_value if full is None else full


@contract('C08', T)
def dynamic_extent(c):
    """with full unlogging no record is written while an unlogged call is in progress, by anything; records written before and after it are"""
    rec = capture(c)
    s = symbolic_bools(c, 'full_unlog')['full_unlog']
    full = c.choose('full', [None, True, False])
    log = c.get('polog:log')
    inside = c.choose('inside', INSIDE)
    kind = c.choose('kind', ['sync', 'async'])
    raises = c.choose('raises', [False, True])
    made = []

    def body():
        made.append(acts(c, log, inside))
        if raises:
            raise UserError('outer')
        return 5
    if kind == 'sync':
        @unlogger(c, full)
        def f():
            return body()
    else:
        @unlogger(c, full)
        async def f():
            return body()

    def call():
        return c.run_coro(f()) if kind == 'async' else c.run(f)
    acts(c, log, 'manual')
    c.prove('before: written', len(rec) == 1)
    out = call()
    c.prove('the unlogged function works as before', out.ok == (not raises) and (raises or out.value == 5) and len(made) == 1)
    n = len(rec) - 1
    eff = effective(c, full, s)
    c.prove('fully unlogged: nothing is written', c.implies(eff, n == 0))
    c.prove('not fully unlogged: inner records are written', c.implies(c.not_(eff), n == made[0]))
    before = len(rec)
    acts(c, log, 'decorated' if c.choose('after', [False, True]) else 'manual')
    c.prove('after: written again', len(rec) == before + 1)


@contract('C08', T)
def nested_unlog(c):
    """unlogged calls inside an unlogged call (any depth of two): nothing is written until the outermost ends, even after the inner ones return or fail"""
    rec = capture(c)
    log = c.get('polog:log')
    outer_full, inner_full = c.choose('outer full', [None, True]), c.choose('inner full', [None, True])
    setting(c, full_unlog=True)
    raises = c.choose('inner raises', [False, True])
    inner_kind, outer_kind = c.choose('inner kind', ['sync', 'async']), c.choose('outer kind', ['sync', 'async'])
    where = c.choose('where', ['before', 'inside', 'after'])
    inside = c.choose('act', INSIDE[:5])

    def inner_body():
        if where == 'inside':
            acts(c, log, inside)
        if raises:
            raise UserError('inner')
    if inner_kind == 'sync':
        inner = unlogger(c, inner_full)(inner_body)

        def call_inner():
            try:
                inner()
            except UserError:
                pass
    else:
        @unlogger(c, inner_full)
        async def inner():
            inner_body()

        def call_inner():
            c.run_coro(inner())

    def outer_body():
        if where == 'before':
            acts(c, log, inside)
        call_inner()
        if where == 'after':
            acts(c, log, inside)
    if outer_kind == 'sync':
        outer = c.get('polog:unlog')(outer_body) if outer_full is None else c.get('polog:unlog')(full=True)(outer_body)
        out = c.run(outer)
    else:
        @c.get('polog:unlog')
        async def outer():
            outer_body()
        out = c.run_coro(outer())
    c.prove('the outer call ends', out.ok)
    c.prove('nothing is written until the outermost unlogged call ends', len(rec) == 0)
    acts(c, log, 'manual')
    c.prove('after: written again', len(rec) == 1)


@contract('C08', T)
def stacked(c):
    """@unlog and @log in any order and number on one function: the calls of the function are not logged; a full argument stays in force"""
    rec = capture(c)
    s = symbolic_bools(c, 'full_unlog')['full_unlog']
    log = c.get('polog:log')
    full = c.choose('full', [None, True, False])
    below, above = c.choose('log below', [0, 1, 2]), c.choose('log above', [0, 1, 2])
    kind = c.choose('kind', ['sync', 'async'])
    raises = c.choose('raises', [False, True])
    manual = c.choose('manual', [False, True])
    calls = []

    def body(x):
        calls.append(x)
        if manual:
            acts(c, log, 'manual')
        if raises:
            raise UserError('x')
        return x
    if kind == 'sync':
        def f(x):
            return body(x)
    else:
        async def f(x):
            return body(x)
    for i in range(below):
        f = log(f) if i else log(level=5)(f)
    f = unlogger(c, full)(f)
    for i in range(above):
        f = log(level=7)(f) if i else log(f)
    a = c.any('a')
    out = c.run_coro(f(a)) if kind == 'async' else c.run(f, a)
    c.prove('the function is called once with its argument', len(calls) == 1 and c.same(calls[0], a))
    c.prove('the call has its own outcome', isinstance(out.exc, UserError) if raises else out.ok and c.same(out.value, a))
    eff = effective(c, full, s)
    if not manual:
        c.prove('the call of an unlogged function is not logged', len(rec) == 0)
    else:
        c.prove('only manual records, and only if not fully unlogged', c.iff(len(rec) == 1, c.not_(eff)))
        c.prove('at most one record', len(rec) <= 1)


def a_class(c, member, inner):
    """(class, function that calls the member): one member of the given kind, which does `inner`"""
    if member == 'method':
        class A:
            def m(self):
                return inner()
        return A, 'm', lambda cls: cls().m()
    if member == 'private':
        class A:
            def _m(self):
                return inner()
        return A, '_m', lambda cls: cls()._m()
    if member == 'class private':
        class A:
            def __m(self):
                return inner()
        return A, '_A__m', lambda cls: cls()._A__m()
    if member == 'static':
        class A:
            @staticmethod
            def m():
                return inner()
        return A, 'm', lambda cls: cls.m()
    if member == 'static through an instance':
        class A:
            @staticmethod
            def m():
                return inner()
        return A, 'm', lambda cls: cls().m()
    if member == 'class method':
        class A:
            @classmethod
            def m(cls):
                return inner()
        return A, 'm', lambda cls: cls.m()
    if member == 'coroutine':
        class A:
            async def m(self):
                return inner()
        return A, 'm', lambda cls: c.run_coro(cls().m()).value
    raise AssertionError(member)


@contract('C08', T + ['polog.core.utils.replace_method:replace_method'])
def classes(c):
    """@unlog on a class and on methods of a decorated class; members of all kinds"""
    rec = capture(c)
    log, unlog = c.get('polog:log'), c.get('polog:unlog')
    setting(c, full_unlog=True)
    member = c.choose('member', ['method', 'private', 'class private', 'static', 'static through an instance', 'class method', 'coroutine'])
    how = c.choose('how', ['class', 'class over log', 'class over decorated methods', 'method of decorated class', 'log over class', 'subclass'])
    inside = c.choose('inside', ['manual', 'decorated', 'nothing'])
    done = []

    def inner():
        acts(c, log, inside)
        done.append(1)
        return 1
    A, name, call = a_class(c, member, inner)
    A.other = lambda self: 2
    plain_method = member in ('method', 'private', 'class private', 'coroutine')
    if how == 'class':
        A = unlog(A)
    elif how == 'class over log':
        A = unlog(log(A))
    elif how == 'class over decorated methods':
        if not plain_method:
            return
        setattr(A, name, log(level=5)(getattr(A, name)))
        A = unlog(A)
    elif how == 'log over class':
        A = log(unlog(A))
    elif how == 'subclass':
        Parent = log(A)

        @unlog
        class A(Parent):
            pass
    else:
        if not plain_method:
            return
        setattr(A, name, unlog(getattr(A, name)))
        A = log(A)
    out = c.run(call, A)
    c.prove('the method works', out.ok and out.value == 1 and len(done) == 1)
    c.prove('nothing is written', len(rec) == 0)
    out = c.run(A().other)
    c.prove('the other method works', out.ok and out.value == 2)
    c.prove('the other method is logged exactly when it is not unlogged', len(rec) == (1 if how == 'method of decorated class' else 0))


@contract('C08', T, mode='concrete', cases=60)
def tasks_and_threads(c):
    """BOUNDED (two tasks or two threads): an unlogged call in one task or thread does not silence the others"""
    import asyncio
    import threading
    rec = capture(c)
    log, unlog = c.get('polog:log'), c.get('polog:unlog')
    n = c.choose('switches', [1, 2, 3])
    if c.choose('what', ['tasks', 'threads']) == 'tasks':
        @unlog
        async def quiet():
            for i in range(n):
                log('quiet')
                await asyncio.sleep(0)
                log('quiet')

        @log(message='loud')
        async def loud():
            for i in range(n):
                log('loud')
                await asyncio.sleep(0)

        async def main():
            await asyncio.gather(quiet(), loud(), quiet())
        asyncio.run(main())
        want = n + 1
    else:
        a, b = threading.Event(), threading.Event()

        @unlog
        def quiet():
            a.set()
            b.wait(10)
            log('quiet')
        t = threading.Thread(target=quiet)
        t.start()
        a.wait(10)
        for i in range(n):
            log('loud')
        b.set()
        t.join(10)
        want = n
    c.prove('only the records of the other one are written', len(rec) == want and all(rec.field(i, 'message') == 'loud' for i in range(len(rec))))


@contract('C08', T)
def depth_does_not_matter(c):
    """lemma for the induction on the depth of nesting: what is kept inside an unlogged call depends on that call only, not on the calls around it, and is put back when it ends; so depth two stands for every depth"""
    context = c.get('polog.unlog:context')
    outer_full, inner_full = c.choose('outer full', [None, True, False]), c.choose('inner full', [None, True, False])
    kind = c.choose('kind', ['sync', 'async'])
    fails = c.choose('fails', [False, True])
    unlog = c.get('polog:unlog')
    seen = []

    def wrap(full, body):
        if kind == 'sync':
            def f():
                return body()
        else:
            async def f():
                return body()
        g = unlog(f) if full is None else unlog(full=full)(f)
        return (lambda: c.run_coro(g())) if kind == 'async' else (lambda: c.run(g))

    def inner_body():
        seen.append(context.get(None))
        if fails:
            raise UserError('x')
    inner = wrap(inner_full, inner_body)

    def outer_body():
        seen.append(context.get(None))
        inner()
        seen.append(context.get(None))
    outer = wrap(outer_full, outer_body)
    before = context.get(None)
    inner()
    middle = context.get(None)
    outer()
    if len(seen) != 4 or not (seen[0] == seen[2]) or not (seen[1] == seen[3]) or not (before == middle == context.get(None)):
        c.give_up('the state kept by unlogged calls depends on the depth: the bound on nesting stays')
    c.prove('closed', True)
