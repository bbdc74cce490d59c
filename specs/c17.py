"""C17 - the forms of log: how many records each makes, with which fields and outcome."""
PYVC_TRUSTED = True
import contextvars

from specs.lib import *

ROUTER = 'polog.loggers.router:Router'
FIN = 'polog.loggers.finalizer:LoggerRouteFinalizer'
PART = 'polog.loggers.partial:RouterPartial'
ERR = 'polog.errors:'
BLOCK = [FIN + '.__enter__', FIN + '.__exit__', FIN + '.__call__', FIN + '.rewrite_fields', FIN + '.convert_arguments_to_dict',
         ROUTER + '.__enter__', ROUTER + '.__exit__', PART + '.__enter__', PART + '.__exit__']


def prepare(c):
    """Everything is recorded; a level called lol exists."""
    setting(c, level=0, default_level=c.int('default_level', lo=0), default_error_level=c.int('default_error_level', lo=0))
    lol = c.int('lol', lo=0)
    c.get('polog:config').levels(lol=lol)
    return lol, c.get('polog:config')


def default_level(c, success=True):
    store = c.get('polog.core.stores.settings.settings_store:SettingsStore')()
    return store['default_level'] if success else store['default_error_level']


def fields_are(c, rec, i, want, what=''):
    for k, v in want.items():
        c.prove('%sfield %s' % (what, k), c.same(rec.field(i, k), v))


def some_arguments(c, name, text):
    """Arguments of log(...) and the fields they mean (level None: not given)."""
    args, kwargs, want = (), {}, {}
    how = c.choose(name + ' message', ['no', 'positional', 'named', 'both'])
    if how != 'no':
        want['message'] = text
    if how in ('positional', 'both'):
        args = (text,)
    if how in ('named', 'both'):
        kwargs['message'] = text
    if c.maybe(name + ' extra'):
        kwargs['extra'] = want['extra'] = c.any(name + ' extra value')
    lv = c.choose(name + ' level', ['no', 'number', 'name'])
    if lv == 'number':
        kwargs['level'] = want['level'] = c.int(name + ' level number', lo=0)
    if lv == 'name':
        kwargs['level'] = 'lol'
    return args, kwargs, want, lv


@contract('C17', [ROUTER + '.__call__', ROUTER + '.__getattribute__', PART + '.__call__', FIN + '.__init__', FIN + '.create_finalizer', FIN + '.convert_arguments_to_dict',
                  'polog.loggers.handle.handle_log:BaseLogger._push'])
def plain_call(c):
    """log(...) and log.<level>(...): exactly one record, made when the returned object is dropped, with exactly the given fields"""
    lol, _ = prepare(c)
    rec = capture(c)
    log = c.get('polog:log')
    args, kwargs, want, lv = some_arguments(c, 'call', 'the message')
    dotted = c.choose('dotted', [False, True])
    target = log.lol if dotted else log
    out = c.run(target, *args, **kwargs)
    c.prove('the call is accepted', out.ok)
    kept = len(rec)
    del out
    if c.symbolic:
        c.c.chk()
    c.prove('no record while the object may still become a decorator or a block', kept == 0)
    c.prove('exactly one record', len(rec) == 1)
    if lv == 'name' or (lv == 'no' and dotted):
        want['level'] = lol
    elif lv == 'no':
        want['level'] = default_level(c)
    fields_are(c, rec, 0, want)
    c.prove('not automatic', rec.field(0, 'auto') is False)
    for k in ('message', 'extra', 'success', 'exception_type', 'function', 'class'):
        if k not in want:
            c.prove('no field which was not given (%s)' % k, rec.field(0, k) is None)


@contract('C17', [ROUTER + '.__call__', ROUTER + '.__getattribute__', PART + '.__call__', FIN + '.__call__', ROUTER + '._wrap'])
def decorator(c):
    """a decorator makes no record by itself, and one per call, with its fields; log.<level> is level=<level>, an explicit level wins"""
    lol, _ = prepare(c)
    rec = capture(c)
    log = c.get('polog:log')
    form = c.choose('form', ['bare', 'bare dotted', 'call', 'dotted call', 'suppress', 'dotted suppress'])
    explicit = form.endswith('call') and c.maybe('explicit level')
    level = c.int('level', lo=0)
    kw = {'level': level} if explicit else {}
    message = 'the message' if form.endswith('call') and c.maybe('message') else None
    a = (message,) if message else ()
    kind = c.choose('kind', ['function', 'coroutine', 'class'])
    calls = []
    if kind == 'function':
        def f():
            calls.append(1)
    elif kind == 'coroutine':
        async def f():
            calls.append(1)
    else:
        class f:
            def m(self):
                calls.append(1)

    def decorate():
        if form == 'bare':
            return log(f)
        if form == 'bare dotted':
            return log.lol(f)
        if form == 'call':
            return log(*a, **kw)(f)
        if form == 'dotted call':
            return log.lol(*a, **kw)(f)
        if form == 'suppress':
            return log().suppress(UserError)(f)
        return log.lol.suppress(UserError)(f)
    out = c.run(decorate)
    c.prove('decorating is accepted', out.ok)
    if not out.ok:
        return
    c.prove('decorating makes no record', len(rec) == 0)
    c.prove('decorating does not call', not calls)
    g = out.value
    del out
    n = c.choose('calls', [0, 1, 2])
    for i in range(n):
        if kind == 'coroutine':
            c.run_coro(g())
        else:
            c.run(g) if kind == 'function' else c.run(g().m)
        c.prove('one record per call', len(rec) == i + 1 and len(calls) == i + 1)
        c.prove('the level', c.eq(rec.field(i, 'level'), level if explicit else lol if 'dotted' in form else default_level(c)))
        c.prove('the message', rec.field(i, 'message') == message)
    del g, f
    if c.symbolic:
        c.c.chk()
    c.prove('no other record', len(rec) == n)


def block_of(c, log, form, text):
    """(context manager, message it starts with, is its level lol)"""
    if form == 'bare':
        return log, None, False
    if form == 'dotted':
        return log.lol, None, True
    if form == 'call':
        return log(text), text, False
    if form == 'dotted call':
        return log.lol(text), text, True
    if form == 'bare suppress':
        return log.suppress(UserError), None, False
    if form == 'dotted suppress':
        return log.lol.suppress(UserError), None, True
    return log(text).suppress(UserError), text, False


FORMS = ['bare', 'dotted', 'call', 'dotted call', 'bare suppress', 'dotted suppress', 'call suppress']


@contract('C17', BLOCK)
def block(c):
    """a block makes exactly one record, at its end, with its outcome, its duration and the fields as last rewritten in it"""
    lol, _ = prepare(c)
    rec = capture(c)
    log = c.get('polog:log')
    form = c.choose('form', FORMS)
    fails = c.choose('fails', [None, UserError, ValueError, UserBase])
    steps = c.choose('rewritings', [0, 1, 2])
    seen = []
    state = {}

    def use():
        cm, message, dotted = block_of(c, log, form, 'initial')
        state.update(message=message, dotted=dotted, level=None, extra=None)
        with cm as l:
            seen.append(len(rec))
            for i in range(steps):
                how = c.choose('rewriting %d' % i, ['message', 'named message', 'level', 'extra'])
                if how == 'message':
                    l('text %d' % i)
                    state['message'] = 'text %d' % i
                elif how == 'named message':
                    l(message='text %d' % i)
                    state['message'] = 'text %d' % i
                elif how == 'level':
                    state['level'] = c.int('level %d' % i, lo=0)
                    l(level=state['level'])
                else:
                    state['extra'] = c.any('extra %d' % i, ('int', 'str', 'other'))
                    l(extra=state['extra'])
                seen.append(len(rec))
            if fails is not None:
                raise fails('the reason')
    out = c.run(use)
    suppressed = 'suppress' in form and fails is UserError
    c.prove('the block has its own outcome', out.ok if fails is None or suppressed else type(out.exc) is fails)
    c.prove('no record before the end of the block', all(x == 0 for x in seen) and len(seen) == steps + 1)
    c.prove('exactly one record', len(rec) == 1)
    c.prove('the outcome', rec.field(0, 'success') is (fails is None))
    c.prove('the message', c.same(rec.field(0, 'message'), state['message']))
    c.prove('the extra field', c.same(rec.field(0, 'extra'), state['extra']))
    c.prove('the level', c.eq(rec.field(0, 'level'), state['level'] if state['level'] is not None else lol if state['dotted'] else default_level(c, fails is None)))
    if fails is not None:
        c.prove('the type of the exception', rec.field(0, 'exception_type') == fails.__name__)
        c.prove('the message of the exception', rec.field(0, 'exception_message') == 'the reason')
    else:
        c.prove('no exception', rec.field(0, 'exception_type') is None and rec.field(0, 'exception_message') is None and rec.field(0, 'traceback') is None)
    c.prove('the duration is there', rec.field(0, 'time_of_work') is not None)
    c.prove('the time is there', rec.field(0, 'time') is not None)
    c.prove('not automatic', rec.field(0, 'auto') is False)


@contract('C17', BLOCK)
def nested_blocks(c):
    """blocks inside blocks, of whatever forms: each makes one record with its own fields, the inner one first"""
    lol, _ = prepare(c)
    rec = capture(c)
    log = c.get('polog:log')
    outer, inner = c.choose('outer', FORMS), c.choose('inner', FORMS)
    late = c.choose('the outer is rewritten', ['before', 'inside', 'after'])
    twice = c.choose('inner blocks', [1, 2])
    a, b = c.any('a', ('int', 'str')), [c.any('b%d' % i, ('int', 'str')) for i in range(twice)]

    def use():
        with block_of(c, log, outer, 'outer')[0] as l:
            if late == 'before':
                l('outer', mark=a)
            for i in range(twice):
                try:
                    with block_of(c, log, inner, 'inner')[0] as k:
                        k('inner %d' % i, mark=b[i])
                        if late == 'inside':
                            l('outer', mark=a)
                        if i == 0 and fails:
                            raise ValueError('x')
                except ValueError:
                    pass
            if late == 'after':
                l('outer', mark=a)
    fails = c.choose('fails', [False, True])
    out = c.run(use)
    c.prove('the blocks end as they should', out.ok)
    c.prove('one record per block', len(rec) == twice + 1)
    for i in range(twice):
        c.prove('the record of the inner block', rec.field(i, 'message') == 'inner %d' % i)
        c.prove('its field', c.same(rec.field(i, 'mark'), b[i]))
        c.prove('its outcome', rec.field(i, 'success') is not (fails and i == 0))
    c.prove('the record of the outer block', rec.field(twice, 'message') == 'outer')
    c.prove('its field', c.same(rec.field(twice, 'mark'), a))
    c.prove('its outcome', rec.field(twice, 'success') is True)


class Pause:
    """A suspension point of a coroutine."""
    def __await__(self):
        yield


async def pause():
    await Pause()


@contract('C17', BLOCK)
def tasks(c):
    """blocks of concurrent tasks, started inside a block or not, in any order of their steps: each makes one record with its own fields and outcome"""
    prepare(c)
    rec = capture(c)
    log = c.get('polog:log')
    form = c.choose('form', ['bare', 'dotted', 'call', 'bare suppress'])
    outer = c.choose('outer', [None, 'bare', 'call'])
    failing = c.choose('failing', [None, 0, 1])
    marks = [c.any('mark%d' % i, ('int', 'str')) for i in range(2)]
    ends = []

    async def task(i):
        with block_of(c, log, form, 'initial')[0] as l:
            l('task %d' % i, mark=marks[i])
            await pause()
            if failing == i:
                raise ValueError('x')

    def drive():
        alive = []
        for i in range(2):
            alive.append((i, contextvars.copy_context(), task(i)))
        while alive:
            j = 0 if len(alive) == 1 else c.choose('step %d' % len(ends), [0, 1])
            i, ctx, coro = alive[j]
            ends.append(None)
            try:
                ctx.run(coro.send, None)
            except StopIteration:
                del alive[j]
                ends[-1] = (i, True)
            except ValueError:
                del alive[j]
                ends[-1] = (i, False)

    def use():
        if outer is None:
            drive()
        else:
            with block_of(c, log, outer, 'outer')[0] as l:
                l('outer')
                drive()
    out = c.run(use)
    c.prove('nothing else fails', out.ok)
    done = [e for e in ends if e is not None]
    c.prove('one record per block', len(rec) == 2 + (outer is not None))
    for n, (i, ok) in enumerate(done):
        c.prove('the task has its own outcome', ok is not (failing == i))
        c.prove('the record is of the block that ended', rec.field(n, 'message') == 'task %d' % i)
        c.prove('its field', c.same(rec.field(n, 'mark'), marks[i]))
        c.prove('its outcome', rec.field(n, 'success') is ok)
    if outer is not None:
        c.prove('the outer record', rec.field(2, 'message') == 'outer' and rec.field(2, 'success') is True)


@contract('C17', [FIN + '.__call__', FIN + '.__enter__', FIN + '.__exit__'])
def used_twice(c):
    """an object of log(...) serves once: the second use raises and makes no record"""
    prepare(c)
    rec = capture(c)
    log = c.get('polog:log')
    deco_error, cm_error = c.get(ERR + 'IncorrectUseOfTheDecoratorError'), c.get(ERR + 'IncorrectUseOfTheContextManagerError')
    first = c.choose('first', ['decorator', 'block', 'failed decorator', 'in the block'])
    second = c.choose('second', ['decorator', 'class', 'block'])
    l = log('m')

    def f():
        pass

    class K:
        def m(self):
            pass

    def use(how):
        if how in ('decorator', 'class'):
            l(f if how == 'decorator' else K)
        elif how == 'failed decorator':
            l(42)
        else:
            with l:
                pass
    if first == 'in the block':
        inner = []

        def both():
            with l:
                inner.append(c.run(use, second))
        c.run(both)
        out = inner[0]
        made = 1
    else:
        one = c.run(use, first)
        c.prove('the first use', one.ok if first != 'failed decorator' else isinstance(one.exc, deco_error))
        made = 1 if first == 'block' else 0
        c.prove('records of the first use', len(rec) == made)
        if first == 'block' and second != 'block':
            return
        out = c.run(use, second)
    if second == 'block':
        c.prove('the second use is refused', isinstance(out.exc, cm_error))
    elif first != 'in the block':
        c.prove('the second use is refused', isinstance(out.exc, deco_error))
    else:
        c.prove('rewriting by an object which is not a message is refused', isinstance(out.exc, c.get(ERR + 'IncorrectUseLoggerError')))
    del l, out
    if c.symbolic:
        c.c.chk()
    c.prove('no further record', len(rec) == made)


@contract('C17', [ROUTER + '.__call__', FIN + '.__call__', FIN + '.convert_arguments_to_dict'])
def misuse(c):
    """misuse raises an error in the caller and makes no record, whatever silent_internal_exceptions says"""
    prepare(c)
    symbolic_bools(c, 'silent_internal_exceptions')
    rec = capture(c)
    log = c.get('polog:log')
    how = c.choose('how', ['two positional', 'three positional', 'first argument', 'dotted first argument', 'decorating', 'two positional in a block', 'leaving'])
    x = c.any('x', ('none', 'bool', 'int', 'float', 'list', 'dict', 'other'))

    def use():
        if how == 'two positional':
            log('m', x)
        elif how == 'three positional':
            log(x, 'm', x)
        elif how == 'first argument':
            log(x)
        elif how == 'dotted first argument':
            log.lol(x, extra=1)
        elif how == 'decorating':
            log('m', level=5)(x)
        elif how == 'two positional in a block':
            with log:
                pass
            made.append(len(rec))
            with log('m') as l:
                l('a', 'b')
        else:
            log.__exit__(None, None, None)
    made = []
    out = c.run(use)
    e = {'decorating': 'IncorrectUseOfTheDecoratorError', 'leaving': 'IncorrectUseOfTheContextManagerError'}.get(how, 'IncorrectUseLoggerError')
    c.prove('an error is raised', isinstance(out.exc, c.get(ERR + e)))
    del out
    if c.symbolic:
        c.c.chk()
    if how == 'two positional in a block':
        c.prove('the block is recorded as failed', len(rec) == 2 and rec.field(1, 'success') is False and rec.field(1, 'message') == 'm')
    else:
        c.prove('nothing is recorded', len(rec) == 0)


@contract('C17', BLOCK + [ROUTER + '.suppress', FIN + '.suppress'])
def failed_entering(c):
    """a block which could not be entered makes no record and does not disturb the blocks around it"""
    prepare(c)
    silent = symbolic_bools(c, 'silent_internal_exceptions')['silent_internal_exceptions']
    rec = capture(c)
    log = c.get('polog:log')
    outer = c.choose('outer', FORMS)
    entered, refused = [], []

    def use():
        with block_of(c, log, outer, 'outer')[0] as l:
            l('outer')
            try:
                with log.suppress(c.choose('what', [42, 'ValueError', UserBase])) as k:
                    entered.append(1)
                    k('inner')
            except ValueError:
                refused.append(1)
    out = c.run(use)
    c.prove('the outer block ends normally', out.ok)
    c.prove('entered exactly when errors are silent', c.iff(len(entered) == 1, silent))
    c.prove('refused otherwise', c.iff(len(refused) == 1, c.not_(silent)))
    n = len(entered)
    c.prove('one record for each entered block', len(rec) == n + 1)
    if n:
        c.prove('the inner record', rec.field(0, 'message') == 'inner')
    c.prove('the outer record', rec.field(n, 'message') == 'outer' and rec.field(n, 'success') is True)


@contract('C17', BLOCK, mode='concrete', cases=24)
def threads(c):
    """two threads with blocks, preempted at any point: each block makes one record with its own fields and outcome"""
    setting(c, level=0, pool_size=0)
    rec = capture(c)
    log = c.get('polog:log')
    c.get('polog:config').levels(lol=5)
    form = c.choose('form', ['bare', 'dotted', 'call', 'bare suppress'])
    failing = c.choose('failing', [None, 0, 1])

    def thread(i):
        def body():
            try:
                with block_of(c, log, form, 'initial')[0] as l:
                    l('thread %d' % i, mark=i)
                    if failing == i:
                        raise ValueError('x')
            except ValueError:
                pass
        return body
    c.interleave('blocks', thread(0), thread(1), points=120)
    c.prove('one record per block', len(rec) == 2)
    got = {r.get('mark'): (r.get('message'), r.get('success')) for r in rec.items}
    c.prove('each with its own fields and outcome', got == {i: ('thread %d' % i, failing != i) for i in range(2)})
