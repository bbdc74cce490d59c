"""C10 - message() edits the record of the call it is made in, and no other."""
PYVC_TRUSTED = True
from specs.lib import *

M = 'polog.loggers.handle.message:Message'
FL = 'polog.loggers.auto.function_logger:FunctionLogger'
T = [M + '._push', M + '._copy_context', M + '._get_context', M + '._set_context', M + '._clean_context', FL + '.__call__', FL + '.log_normal_info', FL + '.log_exception_info']


def message_function(c):
    return c.get('polog:message') if c.choose('form', ['message', 'log.message']) == 'message' else c.get('polog:log').message


@contract('C10', T)
def edits(c):
    """every editable field, alone or together: the record carries what message() was given; everything else is as without it"""
    rec = capture(c)
    log, config = c.get('polog:log'), c.get('polog:config')
    fails = c.choose('fails', [False, True])
    kind = c.choose('kind', ['sync', 'async'])
    lv = c.int('level', lo=0)
    config.levels(lol=lv)
    config.set(level=0)
    kw = {}
    pos = ()
    given_message = c.choose('message', [None, 'positional', 'named'])
    if given_message == 'positional':
        pos = (c.str('text'),)
    elif given_message == 'named':
        kw['message'] = c.str('text')
    lvl = c.choose('level given as', [None, 'int', 'name'])
    if lvl:
        kw['level'] = lv if lvl == 'int' else 'lol'
    suc = c.choose('success given', [None, True, False])
    if suc is not None:
        kw['success'] = suc
    ex = c.choose('exception given', [None, 'instance', 'name', 'e'])
    if ex == 'instance':
        kw['exception'] = ValueError('text')
    elif ex == 'name':
        kw['exception'] = 'SomeError'
    elif ex == 'e':
        kw['e'] = KeyError('text')
    message = message_function(c)
    deep = c.choose('called from', ['the function', 'a helper'])

    def body():
        if deep == 'the function':
            message(*pos, **kw)
        else:
            def helper():
                message(*pos, **kw)
            helper()
        if fails:
            raise UserError('own')
        return 5
    if kind == 'sync':
        def f():
            return body()
    else:
        async def f():
            return body()
    g = log('original', level=3, errors_level=4)(f)
    out = c.run_coro(g()) if kind == 'async' else c.run(g)
    c.prove('the call has its own outcome', isinstance(out.exc, UserError) if fails else out.ok and out.value == 5)
    c.prove('one record', len(rec) == 1)
    text = pos[0] if pos else kw.get('message')
    c.prove('message', c.eq(rec.field(0, 'message'), text) if text is not None else rec.field(0, 'message') == 'original')
    c.prove('level', c.eq(rec.field(0, 'level'), lv) if lvl else rec.field(0, 'level') == (4 if fails else 3))
    c.prove('success', rec.field(0, 'success') is (suc if suc is not None else not fails))
    et = {'instance': 'ValueError', 'name': 'SomeError', 'e': 'KeyError'}.get(ex)
    if et:
        c.prove('exception', rec.field(0, 'exception_type') == et)
    elif fails:
        c.prove('its own exception', rec.field(0, 'exception_type') == 'UserError')
    else:
        c.prove('no exception', rec.field(0, 'exception_type') is None)
    c.prove('the function is still told', rec.field(0, 'function') == 'f')


@contract('C10', T)
def nested_calls(c):
    """nested decorated calls, each may use message() before and after the inner call, each may fail, be unlogged or below the threshold: each record has its own message only"""
    rec = capture(c)
    log, unlog, config = c.get('polog:log'), c.get('polog:unlog'), c.get('polog:config')
    config.set(level=5)
    message = message_function(c)
    before, after = c.choose('outer before', [False, True]), c.choose('outer after', [False, True])
    inner_says = c.choose('inner says', [False, True])
    inner_fails = c.choose('inner fails', [False, True])
    inner_kind = c.choose('inner kind', ['logged', 'below', 'unlogged', 'async', 'class'])
    outer_kind = c.choose('outer kind', ['sync', 'async'])

    def body():
        if inner_says:
            message('inner')
        if inner_fails:
            raise UserError('x')
    if inner_kind == 'logged':
        inner = log('inner original', level=7, errors_level=7)(body)
    elif inner_kind == 'below':
        inner = log('inner original', level=1, errors_level=1)(body)
    elif inner_kind == 'unlogged':
        inner = unlog(full=True)(body)
    elif inner_kind == 'class':
        class K:
            def m(self):
                return body()
        log('inner original', level=7, errors_level=7)(K)
        inner = K().m
    else:
        async def a():
            body()
        a = log('inner original', level=7, errors_level=7)(a)

        def inner():
            out = c.run_coro(a())
            if not out.ok:
                raise out.exc

    def outer_body():
        if before:
            message('outer before')
        try:
            inner()
        except UserError:
            pass
        if after:
            message('outer after')
    if outer_kind == 'sync':
        outer = log('outer original', level=8)(outer_body)
        out = c.run(outer)
    else:
        @log('outer original', level=8)
        async def outer():
            outer_body()
        out = c.run_coro(outer())
    c.prove('the call ends', out.ok)
    n = 1
    if inner_kind in ('logged', 'async', 'class'):
        n = 2
        c.prove('the inner record has its own message', rec.field(0, 'message') == ('inner' if inner_says else 'inner original'))
        c.prove('the inner record is of the inner call', rec.field(0, 'level') == 7)
    c.prove('records', len(rec) == n)
    want = 'outer after' if after else ('outer before' if before else 'outer original')
    if inner_kind != 'unlogged' or after or not inner_says:
        c.prove('the outer record has its own message', rec.field(n - 1, 'message') == want)
    c.prove('the outer record is of the outer call', rec.field(n - 1, 'level') == 8)


@contract('C10', T)
def no_leak_to_later_calls(c):
    """a message() of a finished call, of a call that is not recorded, or made outside any decorated call, never changes a later record"""
    rec = capture(c)
    log, config = c.get('polog:log'), c.get('polog:config')
    config.set(level=5)
    message = message_function(c)
    first = c.choose('first', ['logged', 'failed', 'below', 'outside', 'deduplicated', 'bad result'])
    exc = UserError('x')

    def say():
        message('first', success=False, level=77)
        if first in ('failed', 'deduplicated'):
            raise exc
    if first == 'outside':
        message('first', success=False, level=77)
    elif first == 'deduplicated':
        @log(level=7, errors_level=7)
        def g():
            raise exc
        c.run(g)
        c.run(log(level=7, errors_level=7)(say))
    else:
        lv = 1 if first == 'below' else 7
        c.run(log(level=lv, errors_level=lv)(say))
    n = len(rec)
    second = c.choose('second', ['same', 'other', 'failed', 'manual', 'with'])
    if second == 'failed':
        def f():
            raise UserError('y')
    else:
        def f():
            return 1
    if second == 'manual':
        plain(c, 'second', level=8)
    elif second == 'with':
        def use():
            with log('second', level=8):
                pass
        c.run(use)
    else:
        c.run(log('second', level=8, errors_level=8)(f))
    c.prove('one more record', len(rec) == n + 1)
    c.prove('with its own fields', rec.field(n, 'message') == 'second' and rec.field(n, 'level') == 8)
    c.prove('and its own outcome', rec.field(n, 'success', True) is (second != 'failed'))


@contract('C10', [M + '._push', 'polog.loggers.handle.abstract:AbstractHandleLogger._kwargs_to_dict'])
def forbidden_field(c):
    """the name of the function cannot be edited: an error, or nothing in the silent mode"""
    rec = capture(c)
    log = c.get('polog:log')
    silent = c.choose('silent', [False, True])
    setting(c, silent_internal_exceptions=silent, level=0)
    message = message_function(c)
    v = c.choose('value', ['other', len])
    got = []

    def f():
        out = c.run(message, 'text', function=v)
        got.append(out.ok)
        if not out.ok:
            c.prove('refused with KeyError', out.raised(KeyError))
    c.run(log(level=3)(f))
    c.prove('one record', len(rec) == 1)
    c.prove('the function is told truly', rec.field(0, 'function') == 'f')
    c.prove('an error exactly in the loud mode', got == [silent])
    if silent:
        c.prove('the other fields are edited', rec.field(0, 'message') == 'text')


@contract('C10', T, mode='concrete', cases=60)
def tasks_and_threads(c):
    """BOUNDED (two tasks or threads): concurrent decorated calls do not mix their messages"""
    import asyncio
    import threading
    rec = capture(c)
    log, message = c.get('polog:log'), c.get('polog:message')
    n = c.choose('switches', [1, 2, 3])
    if c.choose('what', ['tasks', 'threads']) == 'tasks':
        @log
        async def f(i):
            message('m%d' % i)
            for k in range(n):
                await asyncio.sleep(0)
            return i

        async def main():
            await asyncio.gather(f(1), f(2), f(3))
        asyncio.run(main())
        want = 3
    else:
        bars = threading.Barrier(2)

        @log
        def f(i):
            bars.wait(10)
            message('m%d' % i)
            bars.wait(10)
            return i
        ts = [threading.Thread(target=f, args=(i,)) for i in (1, 2)]
        [t.start() for t in ts]
        [t.join(10) for t in ts]
        want = 2
    c.prove('all recorded', len(rec) == want)
    c.prove('each with its own message', all(str(rec.items[i].function_input_data.args[0]) == rec.field(i, 'message')[1:] for i in range(len(rec))))


@contract('C10', T)
def depth_does_not_matter(c):
    """lemma for the induction on the depth of nesting: what is kept when a decorated call begins does not depend on the calls around it, and what its caller kept is put back when it ends; so one nested call stands for every depth"""
    rec = capture(c)
    context = c.get('polog.loggers.handle.message:context')
    log, message = c.get('polog:log'), c.get('polog:message')
    setting(c, level=2)
    kind = c.choose('kind', ['sync', 'async'])
    fails = c.choose('fails', [False, True])
    level = c.choose('level', [1, 5])
    edits = c.choose('edits', [False, True])
    outer_edits = c.choose('outer edits', [False, True])
    text = c.str('text')
    seen = []

    def wrap(body):
        if kind == 'sync':
            def f():
                return body()
        else:
            async def f():
                return body()
        g = log(level=level, errors_level=level)(f)
        return (lambda: c.run_coro(g())) if kind == 'async' else (lambda: c.run(g))

    def inner_body():
        seen.append(context.get(None))
        if edits:
            message('inner')
        if fails:
            raise UserError('x')
    inner = wrap(inner_body)

    def outer_body():
        if outer_edits:
            message(text)
        seen.append(context.get(None))
        inner()
        seen.append(context.get(None))
    outer = wrap(outer_body)
    before = context.get(None)
    inner()
    middle = context.get(None)
    outer()
    after = context.get(None)
    if len(seen) != 4 or not (seen[0] is seen[2]) or not (seen[1] is seen[3]) or not (before is middle is after):
        c.give_up('the state kept by decorated calls depends on the depth: the bound on nesting stays')
    c.prove('closed', True)
