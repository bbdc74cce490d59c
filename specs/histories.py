"""Long histories, deep nestings and large values, on the real code: bounded stand-ins for what the contracts prove for one step only."""
PYVC_TRUSTED = True
import asyncio
import datetime
import io
import os
import random
import shutil
import tempfile

from specs.lib import *

LI = 'polog.core.log_item:LogItem'
FL = 'polog.loggers.auto.function_logger:FunctionLogger'


def rng(c):
    return random.Random(c.choose('seed', list(range(1000))))


# ------------------------------------------------------------------ C01
ITERATORS = [('generator', lambda: (x for x in (1, 2, 3))), ('list iterator', lambda: iter([1, 2, 3])), ('map', lambda: map(int, '123')), ('zip', lambda: zip('ab', 'cd')),
             ('text stream', lambda: io.StringIO('1\n2\n3\n')), ('reversed', lambda: reversed([1, 2, 3])), ('dict iterator', lambda: iter({1: 2, 3: 4}))]


@contract('C01', [FL + '.log_normal_info', FL + '.log_exception_info', 'polog.utils.json_vars:json_vars', 'polog.utils.json_vars:get_item', 'polog.core.utils.get_traceback:get_locals_from_traceback'], mode='concrete', cases=120)
def iterators_are_not_consumed(c):
    """BOUNDED (listed kinds of iterators): what the function gets, returns or holds as local variables is not consumed or changed by composing the record"""
    setting(c, level=0)
    capture(c)
    name, make = c.choose('iterator', ITERATORS)
    where = c.choose('where', ['argument', 'keyword', 'result', 'local', 'argument of a failing call'])
    kind = c.choose('kind', ['sync', 'async'])
    before = list(make())
    it = make()
    got = []

    def body(a, k):
        if where == 'argument':
            got.append(list(a))
        elif where == 'keyword':
            got.append(list(k))
        elif where == 'result':
            return it
        elif where == 'local':
            local = it
            raise UserError('x')
        else:
            raise UserError('x')
    if kind == 'sync':
        def f(a, k=None):
            return body(a, k)
    else:
        async def f(a, k=None):
            return body(a, k)
    g = c.get('polog:log')(f)
    a, k = (it, None) if where.startswith('argument') else (None, it) if where == 'keyword' else (None, None)
    out = c.run_coro(g(a, k=k)) if kind == 'async' else c.run(g, a, k=k)
    if where in ('argument', 'keyword'):
        c.prove('the function gets all of it', got == [before])
    else:
        c.prove('nothing is consumed', list(it) == before)
    if where == 'result':
        c.prove('the very object', out.ok and out.value is it)


@contract('C01', [FL + '.log_normal_info', 'polog.utils.json_vars:json_vars'], mode='concrete', cases=60)
def values_are_not_changed(c):
    """BOUNDED (listed containers): containers among the arguments, results and locals are the same objects with the same content afterwards"""
    setting(c, level=0)
    capture(c)
    make = c.choose('container', [lambda: [3, 1, 2], lambda: {'b': 1, 'a': [2]}, lambda: {3, 1}, lambda: bytearray(b'abc'), lambda: [[1], {'x': object}], lambda: 'x' * 100000, lambda: list(range(20000))])
    a, b, r = make(), make(), make()
    fails = c.choose('fails', [False, True])

    def f(*args, **kwargs):
        local = a
        if fails:
            raise UserError(a)
        return r
    out = c.run(c.get('polog:log')(f), a, k=b)
    c.prove('the same content', a == make() and b == make() and r == make())
    c.prove('the same outcome', (out.value is r) if not fails else out.raised(UserError) and out.exc.args[0] is a)


# ------------------------------------------------------------------ C02
@contract('C02', ['polog.core.stores.levels:Levels.get', FL + '.resolve_normal_level', 'polog.core.utils.get_errors_level:get_errors_level'], mode='concrete', cases=40)
def redefined_levels(c):
    """BOUNDED (40 calls): names of levels are registered anew and the settings change between calls of the same functions; each record has the level in force at its call"""
    r = rng(c)
    config, log = c.get('polog:config'), c.get('polog:log')
    rec = capture(c)
    names = ['lol', 'kek']
    numbers = {'lol': 5, 'kek': 7}
    config.levels(**numbers)
    state = {'level': 0, 'default_level': 1, 'default_error_level': 2}
    setting(c, **state)

    def ok():
        pass

    def bad():
        raise UserError('x')
    decorated = {(n, fails): log(**given(level=n))(bad_or_ok(fails)) for n in names + [None, 3] for fails in (False, True)}
    error_named = log(errors_level='lol')(bad_or_ok(True))

    def resolve(n):
        return numbers.get(n, n)
    for i in range(40):
        what = r.randrange(3)
        if what == 0:
            n = r.choice(names)
            numbers[n] = r.randrange(10)
            config.levels(**{n: numbers[n]})
        elif what == 1:
            key = r.choice(sorted(state))
            state[key] = r.randrange(8)
            setting(c, **{key: state[key]})
        del rec.items[:]
        form = r.randrange(4)
        if form == 0:
            n, fails = r.choice(sorted(decorated, key=str))
            c.run(decorated[n, fails])
            if fails:
                want = max(state['default_level'], state['default_error_level'], *([resolve(n)] if n is not None else []))
            else:
                want = resolve(n) if n is not None else state['default_level']
        elif form == 1:
            c.run(error_named)
            want = resolve('lol')
        elif form == 2:
            n = r.choice(names)
            plain(c, 'm', level=n)
            want = resolve(n)
        else:
            n = r.choice(names)
            getattr(log, n)('m')
            want = resolve(n)
        c.prove('delivered exactly when the level is not lower than the threshold', len(rec) == (want >= state['level']))
        if len(rec):
            c.prove('the level in force', rec.field(0, 'level') == want)


def bad_or_ok(fails):
    def f():
        if fails:
            raise UserError('x')
    return f


# ------------------------------------------------------------------ C03
@contract('C03', [LI + '.call_handlers', LI + '.call_one_handler'], mode='concrete', cases=12)
def long_history(c):
    """BOUNDED (400 records, 12 handlers, names up to 12 parts): whatever handlers failed before, each record reaches all of them, once"""
    r = rng(c)
    config = c.get('polog:config')
    setting(c, level=0)
    seen, fail = {}, {}

    def mk(i):
        def handler(item):
            seen.setdefault(i, []).append(item)
            if fail.get(i):
                raise UserError('handler')
        return handler
    for i in range(12):
        config.add_handlers({'.'.join('n%d' % j for j in range(i + 1)): mk(i)})
    always = r.randrange(12)
    f = c.get('polog:log')(lambda: 1)
    for k in range(400):
        for i in range(12):
            fail[i] = i == always or r.random() < 0.3
        out = c.run(f) if k % 2 else c.run(lambda: plain(c, 'm%d' % k))
        c.prove('nothing escapes', out.ok)
    c.prove('each handler got each record once, in order', all(len(seen.get(i, ())) == 400 for i in range(12)))
    c.prove('as the same objects', all(x is y for i in range(12) for x, y in zip(seen[0], seen[i])))


@contract('C03', [FL + '.get_handlers'], mode='concrete', cases=12)
def long_local_history(c):
    """BOUNDED (200 records, 40 handlers): the same for the handlers of a decorator"""
    r = rng(c)
    config = c.get('polog:config')
    setting(c, level=0)
    n = r.randrange(1, 40)
    count = [0] * n

    def mk(i):
        def handler(item):
            count[i] += 1
            if r.random() < 0.5:
                raise UserError('handler')
        return handler
    f = c.get('polog:log')(handlers=[mk(i) for i in range(n)])(lambda: 1)
    for k in range(200):
        f()
    c.prove('each handler got each record once', count == [200] * n)


# ------------------------------------------------------------------ C04
@contract('C04', [LI + '.extract_extra_fields_from'], mode='concrete', cases=12)
def fields_long_history(c):
    """BOUNDED (200 records, 30 fields): whatever extractors failed before, each record has exactly the fields whose extractors work for it"""
    r = rng(c)
    config, field = c.get('polog:config'), c.get('polog:field')
    setting(c, level=0)
    rec = capture(c)
    fail, value = {}, {}

    def mk(i):
        def extractor(item):
            if fail[i]:
                raise UserError('extractor')
            return value[i]
        return extractor
    for i in range(30):
        (config.add_fields if i % 2 else config.add_engine_fields)(**{'field%d' % i: field(mk(i))})
    f = c.get('polog:log')(lambda: 1)
    for k in range(200):
        for i in range(30):
            fail[i], value[i] = r.random() < 0.4, r.choice([None, 0, '', k, [k]])
        del rec.items[:]
        c.run(f) if k % 2 else plain(c, 'm')
        got = {name: rec.items[0][name] for name in rec.items[0] if name.startswith('field')}
        c.prove('exactly the extracted values', got == {'field%d' % i: value[i] for i in range(30) if not fail[i]})


# ------------------------------------------------------------------ C06
@contract('C06', ['polog.core.stores.settings.setting_point:SettingPoint.set'], mode='concrete', cases=12)
def settings_long_history(c):
    """BOUNDED (300 changes): after any changes, accepted or refused, each setting holds its last accepted value"""
    r = rng(c)
    config = c.get('polog:config')
    store = c.get('polog.core.stores.settings.settings_store:SettingsStore')()
    values = {'level': [0, 1, 5, -1, None, 1.5, 'no such level'], 'default_level': [0, 3, -2, []], 'default_error_level': [0, 3, -2, 'x'], 'service_name': ['a', None, 'b', 'a b', 5, ''],
              'silent_internal_exceptions': [True, False, 0, 1, None], 'max_delay_before_exit': [0, 0.5, 1, -1, 'x'], 'time_quant': [0.01, 1, 0, -1, None], 'delay_on_exit_loop_iteration_in_quants': [1, 10, 0, -1, 0.5],
              'debug_mode': [True, False, None], 'deduplicate_errors': [True, False, 2], 'full_unlog': [True, False, 'x'], 'suppress_by_default': [True, False, 0], 'suppress_exception_subclasses': [True, False, None],
              'fields_intersection': [True, False, 1], 'unknown_fields_in_handle_logs': [True, False, ''], 'traceback_cutting': [True, False, 1]}
    good = {'level': [0, 1, 5], 'default_level': [0, 3], 'default_error_level': [0, 3], 'service_name': ['a', None, 'b'], 'max_delay_before_exit': [0, 0.5, 1], 'time_quant': [0.01, 1], 'delay_on_exit_loop_iteration_in_quants': [1, 10]}
    now = {key: store[key] for key in values}
    for k in range(300):
        key = r.choice(sorted(values))
        v = r.choice(values[key])
        ok = any(v is g or (v == g and type(v) is type(g)) for g in good.get(key, [True, False]))
        out = c.run(config.set, **{key: v})
        c.prove('accepted exactly when it is valid', out.ok == ok)
        if ok:
            now[key] = v
        c.prove('each setting holds its last accepted value', all(store[n] == now[n] and type(store[n]) is type(now[n]) for n in now))


# ------------------------------------------------------------------ C07
@contract('C07', ['polog.core.utils.exception_is_suppressed:exception_is_suppressed', FL + '.__call__', 'polog.loggers.finalizer:LoggerRouteFinalizer.__exit__'], mode='concrete', cases=40)
def suppression_long_history(c):
    """BOUNDED (60 calls and blocks): the settings change between calls of the same functions; the rule of the moment is applied to each"""
    r = rng(c)
    log = c.get('polog:log')
    rec = capture(c)
    setting(c, level=0, deduplicate_errors=False)
    state = {'suppress_exception_subclasses': True, 'suppress_by_default': False}
    lists = [None, (), (ValueError,), (LookupError, OSError), (Exception,), (KeyError, UnicodeError)]
    classes = [ValueError, KeyError, IndexError, UnicodeError, FileNotFoundError, UserError, type('ValueError', (Exception,), {})]
    current = [None]

    def body():
        if current[0] is not None:
            raise current[0]
        return 1

    def deco(l):
        def f():
            return body()
        return log(f) if l is None else log().suppress(*l)(f)
    functions = {i: deco(l) for i, l in enumerate(lists)}

    def block(l):
        with (log('m') if l is None else log('m').suppress(*l)):
            return body()
    for k in range(60):
        if r.random() < 0.3:
            key = r.choice(sorted(state))
            state[key] = not state[key]
            setting(c, **{key: state[key]})
        i = r.randrange(len(lists))
        cls = r.choice(classes)
        exc = current[0] = cls('x') if r.random() < 0.8 else None
        l = lists[i]
        use_block = r.random() < 0.4
        del rec.items[:]
        out = c.run(block, l) if use_block else c.run(functions[i])
        c.prove('one record', len(rec) == 1)
        if exc is None:
            c.prove('the result', out.ok and out.value == 1)
            continue
        if l is None:
            want = use_block and state['suppress_by_default']
        elif not l:
            want = True
        else:
            want = any(isinstance(exc, x) if state['suppress_exception_subclasses'] else type(exc) is x for x in l)
        c.prove('suppressed exactly when the rule of the moment says', out.ok if want else out.exc is exc)


# ------------------------------------------------------------------ C08, C09, C10, C11: deep nestings
@contract('C08', ['polog.unlog:UnlogDecorator.set_unlogged', 'polog.unlog:UnlogDecorator.get_unlog_status'], mode='concrete', cases=60)
def deep_nesting(c):
    """BOUNDED (depth up to 60): any nesting of logged, unlogged and failing calls, functions and coroutines: a record is written exactly by the calls that are not inside a fully unlogged one"""
    r = rng(c)
    log, unlog = c.get('polog:log'), c.get('polog:unlog')
    rec = capture(c)
    setting(c, level=0, deduplicate_errors=False)
    depth = r.choice([5, 20, 60])
    plan = [r.choice(['log', 'log', 'unlog', 'manual', 'plain', 'block']) if r.random() < 0.7 else 'log' for _ in range(depth)]
    first = r.randrange(depth)
    plan[:first] = [p if p != 'unlog' else 'log' for p in plan[:first]]
    fails = r.random() < 0.5
    is_async = [r.random() < 0.5 for _ in range(depth)] if r.random() < 0.5 else [False] * depth
    want = 0
    silent = False
    for p in plan:
        silent = silent or p == 'unlog'
        want += p in ('log', 'manual', 'block') and not silent

    if not any(is_async):
        def level(i):
            if i == depth:
                if fails:
                    raise UserError('x')
                return
            p = plan[i]

            def f():
                level(i + 1)
            if p == 'manual':
                plain(c, 'm')
            if p == 'block':
                with log('block'):
                    return f()
            return (log(f) if p == 'log' else unlog(f) if p == 'unlog' else f)()
        c.run(level, 0)
    else:
        async def level(i):
            if i == depth:
                if fails:
                    raise UserError('x')
                return
            p = plan[i]

            async def f():
                await level(i + 1)
            if p == 'manual':
                plain(c, 'm')
            if p == 'block':
                with log('block'):
                    return await f()
            await (log(f) if p == 'log' else unlog(f) if p == 'unlog' else f)()
        c.run_coro(level(0))
    c.prove('exactly the records outside unlogged calls', len(rec) == want)
    plain(c, 'after')
    c.prove('records are written again', len(rec) == want + 1 and rec.field(want, 'message') == 'after')


@contract('C09', [FL + '.log_exception_info'], mode='concrete', cases=20)
def many_exceptions(c):
    """BOUNDED (500 exceptions, depth up to 30): every new exception is recorded once, however many there were before, also when their memory is used again"""
    r = rng(c)
    log = c.get('polog:log')
    count = []
    config = c.get('polog:config')
    config.add_handlers(lambda item: count.append(item.get('exception_message')))
    setting(c, level=0, deduplicate_errors=True)
    depth = r.choice([1, 2, 30])
    same = r.random() < 0.5

    def body(k):
        raise UserError('same' if same else 'e%d' % k)

    def nest(f):
        return log(lambda k: f(k))
    f = log(body)
    for _ in range(depth - 1):
        f = nest(f)
    for k in range(500):
        try:
            f(k)
        except UserError:
            pass
    c.prove('each exception once', count == ['same' if same else 'e%d' % k for k in range(500)])


@contract('C10', ['polog.loggers.handle.message:Message._copy_context', 'polog.loggers.handle.message:Message._push', FL + '.__call__'], mode='concrete', cases=60)
def deep_messages(c):
    """BOUNDED (depth up to 40): in any nesting of decorated calls, each of which edits its record before the inner call, after it or not at all, each record has its own message"""
    r = rng(c)
    log, message = c.get('polog:log'), c.get('polog:message')
    rec = capture(c)
    setting(c, level=0, deduplicate_errors=False)
    depth = r.choice([3, 10, 40])
    when = [r.choice(['before', 'after', 'never']) for _ in range(depth)]
    low = [r.random() < 0.2 for _ in range(depth)]
    setting(c, level=5)
    is_async = r.random() < 0.4

    def make(i):
        if is_async:
            async def f():
                if when[i] == 'before':
                    message('message %d' % i, extra=i)
                if i + 1 < depth:
                    await make(i + 1)()
                if when[i] == 'after':
                    message('message %d' % i, extra=i)
        else:
            def f():
                if when[i] == 'before':
                    message('message %d' % i, extra=i)
                if i + 1 < depth:
                    make(i + 1)()
                if when[i] == 'after':
                    message('message %d' % i, extra=i)
        f.__name__ = 'f%d' % i
        return log(message='own %d' % i, level=1 if low[i] else 7)(f)
    g = make(0)
    c.run_coro(g()) if is_async else c.run(g)
    order = [i for i in reversed(range(depth)) if not low[i]]
    c.prove('one record per recorded call', [x.get('function') for x in rec.items] == ['f%d' % i for i in order])
    c.prove('its own message', [x.get('message') for x in rec.items] == ['message %d' % i if when[i] != 'never' else 'own %d' % i for i in order])
    c.prove('its own fields', [x.get('extra') for x in rec.items] == [i if when[i] != 'never' else None for i in order])


EDITABLE = {'module': 'other', 'class_': 'Other', 'message': 'new', 'level': 9, 'local_variables': '{"kwargs": {}}', 'vars': 'text', 'exception': 'SomeError', 'e': 'SomeError', 'extra': [1]}


@contract('C10', ['polog.loggers.handle.message:Message._copy_context'], mode='concrete', cases=60)
def every_field(c):
    """BOUNDED (each field alone, functions and methods): an edited field replaces the automatic one, whichever it is, and the others stay"""
    log, message = c.get('polog:log'), c.get('polog:message')
    rec = capture(c)
    setting(c, level=0)
    fails = c.choose('fails', [False, True])
    key = c.choose('field', sorted(EDITABLE))
    value = EDITABLE[key]
    edit = [False]

    class A:
        @log(message='old')
        def method(self):
            if edit[0]:
                message(**{key: value})
            if fails:
                raise UserError('x')
    a = A()
    c.run(a.method)
    edit[0] = True
    c.run(a.method)
    plain_item, edited = rec.items[0], rec.items[1]
    name = {'class_': 'class', 'vars': 'local_variables', 'e': 'exception_type', 'exception': 'exception_type'}.get(key, key)
    c.prove('the field is replaced', edited.get(name) == value)
    skip = {name, 'time', 'time_of_work', 'traceback', 'local_variables'}
    c.prove('the others stay', {k: v for k, v in edited.items() if k not in skip} == {k: v for k, v in plain_item.items() if k not in skip})


@contract('C11', ['polog.core.stores.registering_functions:RegisteringFunctions.get_function_or_wrapper'], mode='concrete', cases=20)
def many_decorators(c):
    """BOUNDED (up to 60 decorators): one record, by the topmost one"""
    log = c.get('polog:log')
    rec = capture(c)
    setting(c, level=0)
    n = c.choose('decorators', [1, 2, 3, 10, 60])
    kind = c.choose('kind', ['function', 'method', 'both'])
    calls = []
    if kind == 'function':
        def f():
            calls.append(1)
        g = f
        for i in range(n):
            g = log(message='m%d' % i)(g)
        g()
        want = 'm%d' % (n - 1)
    else:
        class A:
            def f(self):
                calls.append(1)
        if kind == 'both':
            A.f = log(message='method')(A.f)
        for i in range(n):
            A = log(message='m%d' % i)(A)
        A().f()
        want = 'method' if kind == 'both' else 'm%d' % (n - 1)
    c.prove('called once', len(calls) == 1)
    c.prove('one record, by the topmost decorator', [x.get('message') for x in rec.items] == [want])


# ------------------------------------------------------------------ C12
@contract('C12', ['polog.data_structures.trees.named_tree.tree:NamedTree.__setitem__', 'polog.data_structures.trees.named_tree.tree:NamedTree.__delitem__', 'polog.data_structures.trees.named_tree.tree:NamedTree.get', 'polog.data_structures.trees.named_tree.walker:TreeWalker.bfs', FL + '.get_handlers'], mode='concrete', cases=40)
def long_registry_history(c):
    """BOUNDED (120 operations, names of up to 15 parts): the registry stays a map of names, and scopes deliver to exactly what is under them"""
    r = rng(c)
    config, log = c.get('polog:config'), c.get('polog:log')
    setting(c, level=0)
    seen = []

    def mk(name):
        return lambda item: seen.append(name)
    model = {}
    parts = ['a', 'b', 'c1', '_d', 'é']
    deep = r.random() < 0.4

    def name():
        if model and r.random() < 0.3:
            base = r.choice(sorted(model))
            return base + '.' + r.choice(parts) if r.random() < 0.6 and base.count('.') < 14 else base
        return '.'.join(r.choice(parts) for _ in range(r.randrange(1, 15 if deep else 4)))
    scopes = [name() for _ in range(3)]
    functions = [(s, log(handlers=[s])(lambda: 1)) for s in scopes]
    everywhere = log(lambda: 1)
    for k in range(120):
        n = name()
        if r.random() < 0.6:
            out = c.run(config.add_handlers, {n: mk(n)})
            c.prove('registered exactly when the name is free', out.ok == (n not in model))
            model[n] = True
        else:
            out = c.run(config.delete_handlers, n)
            c.prove('deleted exactly when it is there', out.ok == (n in model))
            model.pop(n, None)
        if k % 5 == 0:
            tree = config.get_handlers()
            c.prove('each name finds its handler', all((tree.get(x) is not None) == (x in model) for x in list(model) + [name() for _ in range(3)]))
            c.prove('as many as registered', len(tree) == len(model))
            del seen[:]
            everywhere()
            c.prove('every handler once', sorted(seen) == sorted(model))
            s, f = r.choice(functions)
            del seen[:]
            f()
            c.prove('exactly what is in the scope', sorted(seen) == sorted(x for x in model if x == s or x.startswith(s + '.')))


# ------------------------------------------------------------------ C14
TEXTS = ['', 'a', '\n', 'a\r\nb\r\n', '\r', '\x00', 'привет', '\U0001f40e', '\u2028\u2029\x85', '\ufeff', '\udcff', 'ok \ud800', '\t', '\x1a', 'x' * 100000, 'é\n' * 5000]


@contract('C14', ['polog.handlers.file.file_dependency_wrapper:FileDependencyWrapper.write', 'polog.handlers.file.file_dependency_wrapper:FileDependencyWrapper.open', 'polog.handlers.file.file_dependency_wrapper:FileDependencyWrapper.get_file_object', 'polog.handlers.file.writer:file_writer.do'], mode='concrete', cases=60)
def unusual_texts(c):
    """BOUNDED (listed texts, 30 records, rotations between them): every text is in the files exactly, in UTF-8, or was handed to the alternative as a whole"""
    r = rng(c)
    fs = c.scratch()
    path, dest = os.path.join(fs, 'file.log'), os.path.join(fs, 'old')
    texts = [r.choice(TEXTS) for _ in range(30)]
    box, failed = [None], []
    w = c.get('polog.handlers.file.writer:file_writer')(path, formatter=lambda log: box[0], alt=lambda log: failed.append(box[0]), rotation=c.choose('rotation', [None, '1 b >> ' + dest, '10 kb >> ' + dest]), forced_flush=c.choose('flush', [True, False]), lock_type=c.choose('locks', ['thread', 'thread+file', None]))
    item = c.get(LI)()
    item.set_data({})
    for t in texts:
        box[0] = t
        w(item)
    w.file.flush()
    w.file.close()
    files = [os.path.join(dest, x) for x in sorted(os.listdir(dest))] if os.path.isdir(dest) else []
    data = b''.join(open(x, 'rb').read() for x in files + [path])

    def encodable(t):
        try:
            t.encode('utf-8')
            return True
        except UnicodeError:
            return False
    c.prove('every text that can be written is there, exactly', data == ''.join(t for t in texts if encodable(t)).encode('utf-8'))
    c.prove('the others went to the alternative', failed == [t for t in texts if not encodable(t)])


LOCALE = """
import sys, os
sys.path.insert(0, sys.argv[1])
from polog.handlers.file.writer import file_writer
from polog.core.log_item import LogItem
w = file_writer(sys.argv[2], formatter=lambda log: 'привет\\n', rotation='20 b >> ' + sys.argv[3])
item = LogItem()
item.set_data({})
for i in range(5):
    w(item)
"""


@contract('C14', ['polog.handlers.file.file_dependency_wrapper:FileDependencyWrapper.open', 'polog.handlers.file.file_dependency_wrapper:FileDependencyWrapper.get_file_object'], mode='concrete', cases=2)
def other_locale(c):
    """BOUNDED (one locale): the texts are written in UTF-8 whatever the locale is"""
    import subprocess
    import sys
    fs = c.scratch()
    path, dest = os.path.join(fs, 'file.log'), os.path.join(fs, 'old')
    polog_dir = os.path.dirname(os.path.dirname(os.path.abspath(c.mod('polog').__file__)))
    env = dict(os.environ, LC_ALL='C', LANG='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    script = os.path.join(fs, 'script.py')
    with open(script, 'w', encoding='utf-8') as f:
        f.write(LOCALE)
    p = subprocess.run([sys.executable, '-B', script, polog_dir, path, dest], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20)
    c.prove('the program works', p.returncode == 0)
    files = [os.path.join(dest, x) for x in os.listdir(dest)] if os.path.isdir(dest) else []
    data = b''.join(open(x, 'rb').read() for x in files + [path])
    c.prove('every text is there', data == 'привет\n'.encode('utf-8') * 5)


@contract('C14', ['polog.handlers.file.file_dependency_wrapper:FileDependencyWrapper.reopen', 'polog.handlers.file.file_dependency_wrapper:FileDependencyWrapper.open'], mode='concrete', cases=20)
def another_writer_of_the_name(c):
    """BOUNDED (one other writer): what another program appends under the name of the file while the rotation goes on is kept"""
    fs = c.scratch()
    path, dest = os.path.join(fs, 'file.log'), os.path.join(fs, 'old')
    module = c.mod('polog.handlers.file.file_dependency_wrapper')
    real = shutil.move
    moves = []

    def move(a, b, *args, **kwargs):
        result = real(a, b, *args, **kwargs)
        moves.append(b)
        with open(path, 'ab') as f:
            f.write(b'other %d\n' % len(moves))
        return result
    n = c.choose('records', [2, 3, 6])
    box = [None]
    w = c.get('polog.handlers.file.writer:file_writer')(path, formatter=lambda log: box[0], rotation='1 b >> ' + dest)
    item = c.get(LI)()
    item.set_data({})
    shutil.move = move
    try:
        for i in range(n):
            box[0] = 'mine %d\n' % i
            w(item)
    finally:
        shutil.move = real
    w.file.close()
    files = [os.path.join(dest, x) for x in os.listdir(dest)] if os.path.isdir(dest) else []
    lines = b''.join(open(x, 'rb').read() for x in files + [path]).splitlines()
    c.prove('everything is kept once', sorted(lines) == sorted([b'mine %d' % i for i in range(n)] + [b'other %d' % (i + 1) for i in range(len(moves))]))


# ------------------------------------------------------------------ C16
@contract('C16', ['polog.handlers.memory.saver:memory_saver.__call__'], mode='concrete', cases=2)
def memory_of_many_records(c):
    """BOUNDED (30000 records): the memory handler keeps all of them, in order"""
    h = c.get('polog.handlers.memory.saver:memory_saver')()
    h.clean()
    items = []
    for i in range(30000):
        item = c.get(LI)()
        item.set_data({'message': i})
        items.append(item)
        h(item)
    c.prove('all, in order', len(h.all) == 30000 and all(x is y for x, y in zip(h.all, items)) and h.last is items[-1])


@contract('C16', ['polog.handlers.abstract.base:BaseHandler.__call__', 'polog.handlers.abstract.base:BaseHandler.to_do_or_not_to_do'], mode='concrete', cases=20)
def handler_long_history(c):
    """BOUNDED (300 records): the decision about a record does not depend on earlier ones"""
    r = rng(c)
    Base = c.get('polog.handlers.abstract.base:BaseHandler')
    log = []
    answer, fail = [None], [None]

    class H(Base):
        def get_content(self, item):
            if fail[0] == 'content':
                raise UserError('x')
            return item

        def do(self, content):
            if fail[0] == 'do':
                raise UserError('x')
            log.append(('did', content))
    only = r.random() < 0.5
    h = H(only_errors=only, filter=lambda item: answer[0], alt=lambda item: log.append(('alt', item)))
    for k in range(300):
        item = c.get(LI)()
        success = r.choice([True, False, None])
        item.set_data({} if success is None else {'success': success})
        answer[0], fail[0] = r.choice([True, False, None, 1, 0, '']), r.choice([None, None, 'content', 'do'])
        del log[:]
        out = c.run(h, item)
        acts = not (only and success in (True, None)) and answer[0] is not False
        c.prove('nothing escapes', out.ok)
        c.prove('acts, or the alternative does, once', [x[0] for x in log] == ['did' if acts and fail[0] is None else 'alt'] and log[0][1] is item)


# ------------------------------------------------------------------ C17
@contract('C17', ['polog.loggers.router:Router.__enter__', 'polog.loggers.router:Router.__exit__', 'polog.loggers.partial:RouterPartial.__enter__', 'polog.loggers.finalizer:LoggerRouteFinalizer.__exit__'], mode='concrete', cases=60)
def deep_blocks(c):
    """BOUNDED (depth up to 40, 5 such trees in a row): each block makes its own record when it ends, innermost first"""
    r = rng(c)
    log, config = c.get('polog:log'), c.get('polog:config')
    rec = capture(c)
    setting(c, level=0)
    config.levels(lol=3)
    for turn in range(5):
        depth = r.choice([2, 6, 40])
        forms = [r.choice(['bare', 'level', 'call', 'suppress']) for _ in range(depth)]
        fails = r.random() < 0.5
        del rec.items[:]

        def enter(i):
            if i == depth:
                if fails:
                    raise UserError('x')
                return
            form = forms[i]
            cm = {'bare': lambda: log, 'level': lambda: log.lol, 'call': lambda: log('m'), 'suppress': lambda: log.suppress(UserError)}[form]()
            with cm as block:
                block(message='block %d' % i)
                enter(i + 1)
        c.run(enter, 0)
        failing = fails
        want = []
        for i in reversed(range(depth)):
            want.append(('block %d' % i, not failing))
            if forms[i] == 'suppress':
                failing = False
        c.prove('one record per block, innermost first, with its outcome', [(x.get('message'), x.get('success')) for x in rec.items] == want)


# ------------------------------------------------------------------ C18, C19, C20
@contract('C18', ['polog.loggers.handle.abstract:AbstractHandleLogger._kwargs_to_dict', 'polog.loggers.handle.handle_log:BaseLogger._push'], mode='concrete', cases=20)
def many_manual_records(c):
    """BOUNDED (200 records, up to 60 fields): each has exactly its own fields"""
    r = rng(c)
    rec = capture(c)
    handle_log = c.get('polog:handle_log') if c.choose('which', ['log', 'handle_log']) == 'handle_log' else None
    setting(c, level=0)
    for k in range(200):
        fields = {'field%d' % r.randrange(100): r.choice([k, '', 0, 'text', [k], ()]) for _ in range(r.choice([0, 1, 3, 60]))}
        if r.random() < 0.3:
            fields['success'] = r.random() < 0.5
        if r.random() < 0.3:
            fields['level'] = r.randrange(10)
        del rec.items[:]
        if handle_log is not None:
            handle_log('m%d' % k, **fields)
        else:
            plain(c, 'm%d' % k, **fields)
        c.prove('one record', len(rec) == 1)
        want = dict(fields, message='m%d' % k, auto=False)
        want.setdefault('level', 1 if fields.get('success', True) else 2)
        got = dict(rec.items[0].items())
        c.prove('the time', isinstance(got.pop('time', None), datetime.datetime))
        c.prove('exactly its own fields', got == want)


@contract('C19', ['polog.loggers.handle.smart_assert:SmartAssert.__call__'], mode='concrete', cases=20)
def many_asserts(c):
    """BOUNDED (150 asserts): the settings change between them; each follows the settings of the moment"""
    r = rng(c)
    rec = capture(c)
    smart_assert = c.get('polog.loggers.handle.smart_assert:smart_assert')
    debug, politic = True, 'if_debug'
    setting(c, level=0, debug_mode=debug, smart_assert_politic=politic)
    for k in range(150):
        if r.random() < 0.3:
            debug = not debug
            setting(c, debug_mode=debug)
        if r.random() < 0.3:
            politic = r.choice(['all', 'if_debug'])
            setting(c, smart_assert_politic=politic)
        cond = r.choice([True, False, 0, 1, [], [0], '', 'x', None])
        del rec.items[:]
        out = c.run(smart_assert, cond, 'm%d' % k)
        c.prove('raises exactly when it should', (out.ok and out.value is None) if cond or not debug else out.raised(AssertionError) and str(out.exc) == 'm%d' % k)
        c.prove('records exactly when it should', [x.get('message') for x in rec.items] == (['m%d' % k] if not cond and (politic == 'all' or not debug) else []))


@contract('C20', ['polog.core.stores.settings.actions.integration_with_logging:from_logging_filter_to_polog', 'polog.core.stores.settings.actions.integration_with_logging:integration_with_logging'], mode='concrete', cases=20)
def many_logging_records(c):
    """BOUNDED (150 records): equal records, records of one moment, switching between them: one record each while it is on, none while it is off"""
    import logging
    import time
    r = rng(c)
    rec = capture(c)
    setting(c, level=0, logging_off=False)
    passed = []

    class H(logging.Handler):
        def emit(self, record):
            passed.append(record.getMessage())
    root = logging.getLogger()
    h = H()
    root.addHandler(h)
    root.setLevel(0)
    real = time.time
    freeze = r.random() < 0.5
    on = True
    try:
        for k in range(150):
            if r.random() < 0.2:
                on = not on
                setting(c, integration_with_logging=on)
            text = r.choice(['same', 'same', 'm%d' % k])
            lvl = r.choice([10, 20, 30, 40, 50])
            record = root.makeRecord('root', lvl, '/p', 5, text, (), None, 'f')
            if freeze:
                record.created = 1700000000.0
            del rec.items[:], passed[:]
            root.handle(record)
            c.prove('one record while it is on', [x.get('message') for x in rec.items] == ([text] if on else []))
            c.prove('handed on', passed == [text])
    finally:
        root.removeHandler(h)


# ------------------------------------------------------------------ C21
@contract('C21', ['polog.handlers.file.base_formatter:BaseFormatter.get_formatted_string', 'polog.utils.json_vars:json_vars'], mode='concrete', cases=20)
def long_values(c):
    """BOUNDED (texts up to 300000 characters, 300 fields, 300 arguments): nothing is cut or left out"""
    import json
    r = rng(c)
    rec = capture(c)
    setting(c, level=0)
    n = r.choice([1, 300])
    size = r.choice([10, 5000, 300000 // n])
    args = ['%d' % i * size for i in range(n)]
    kwargs = {'k%d' % i: list(range(size % 1000)) for i in range(n)}

    def f(*a, **k):
        return 'r' * size
    c.get('polog:log')(f)(*args, **kwargs)
    data = json.loads(rec.field(0, 'input_variables'))
    c.prove('all arguments, whole', [x['value'] for x in data['args']] == args and {k: v['value'] for k, v in data['kwargs'].items()} == {k: str(v) for k, v in kwargs.items()})
    c.prove('the whole result', json.loads(rec.field(0, 'result'))['value'] == 'r' * size)
    fields = {'field%d' % i: 'v%d' % i * size for i in range(n)}
    item = c.get(LI)()
    item.set_data(dict(fields, message='m' * size))
    fmt = c.get('polog.handlers.file.base_formatter:BaseFormatter')('END')
    for turn in range(3):
        line = fmt.get_formatted_string(item)
        c.prove('the whole line', line.endswith(' | '.join(['"%s"' % ('m' * size), 'where: ?'] + ['%s: "%s"' % x for x in fields.items()]) + 'END'))


@contract('C21', ['polog.utils.json_vars:get_item', 'polog.utils.json_vars:json_one_variable'], mode='concrete', cases=20)
def equal_values(c):
    """BOUNDED (100 values): values that are equal but not the same kind (1, True, 1.0) are told apart, in any order"""
    import json
    r = rng(c)
    one = c.get('polog.utils.json_vars:json_one_variable')
    values = [1, True, 1.0, 0, False, 0.0, -0.0, '1', '', (), (1,), (True,), (1.0,), None, 'None', 10 ** 30, 1e30, frozenset(), b'', 2 ** 53 + 1]
    for k in range(100):
        v = r.choice(values)
        got = json.loads(one(v))
        tp = type(v).__name__
        base = isinstance(v, (bool, int, float, str))
        c.prove('the value and the type', got['type'] == tp and (type(got['value']) is type(v) and repr(got['value']) == repr(v) if base else got['value'] == str(v)))


# ------------------------------------------------------------------ C22
@contract('C22', ['polog.core.utils.signature_matcher:SignatureMatcher.match', 'polog.core.utils.signature_matcher:SignatureMatcher.is_handler'], mode='concrete', cases=20)
def same_names(c):
    """BOUNDED (100 callables): callables of one name, and objects at the same address, are judged each by its own signature"""
    r = rng(c)
    is_handler = c.get('polog.core.utils.signature_matcher:SignatureMatcher').is_handler
    keep = r.random() < 0.5
    kept = []
    for k in range(100):
        def make(i):
            if i == 0:
                def f(a): pass
            elif i == 1:
                def f(a, b): pass
            elif i == 2:
                def f(): pass
            elif i == 3:
                def f(*a): pass
            elif i == 4:
                def f(a, *, k): pass
            else:
                class f:
                    def __call__(self, a): pass
                return f()
            f.__qualname__ = f.__name__ = 'f'
            return f
        i = r.randrange(6)
        f = make(i)
        if keep:
            kept.append(f)
        out = c.run(is_handler, f, raise_exception=False)
        c.prove('by its own signature', out.ok and bool(out.value) == (i in (0, 5)))
        del f


# ------------------------------------------------------------------ C24
@contract('C24', [FL + '.__call__', FL + '.log_normal_info'], mode='concrete', cases=20)
def recursion(c):
    """BOUNDED (depth up to 40): each record of a recursive function has its own time and duration"""
    import time
    r = rng(c)
    rec = capture(c)
    setting(c, level=0)
    log = c.get('polog:log')
    depth = r.choice([2, 10, 40])
    now = [1700000000.0]
    real = time.time
    starts, ends = {}, {}

    def clock():
        return now[0]
    is_async = r.random() < 0.5

    def tick():
        now[0] += r.choice([0.0, 0.25, 1.5, 100.0])
    if is_async:
        @log
        async def f(n):
            starts[n] = now[0]
            tick()
            if n:
                await f(n - 1)
            tick()
            ends[n] = now[0]
    else:
        @log
        def f(n):
            starts[n] = now[0]
            tick()
            if n:
                f(n - 1)
            tick()
            ends[n] = now[0]
    time.time = clock
    try:
        out = c.run_coro(f(depth)) if is_async else c.run(f, depth)
    finally:
        time.time = real
    c.prove('it works', out.ok)
    c.prove('as many records as calls', len(rec) == depth + 1)
    c.prove('its own time', [x.get('time') for x in rec.items] == [datetime.datetime.fromtimestamp(starts[n]) for n in range(depth + 1)])
    c.prove('its own duration', all(abs(x.get('time_of_work') - (ends[n] - starts[n])) < 1e-3 for n, x in enumerate(rec.items)))


# ------------------------------------------------------------------ C25
@contract('C25', ['polog.config:config.levels', 'polog.config:config.add_fields', 'polog.config:config.delete_fields'], mode='concrete', cases=20)
def registries_long_history(c):
    """BOUNDED (300 operations): the registries of levels and fields are maps"""
    r = rng(c)
    config, log, field = c.get('polog:config'), c.get('polog:log'), c.get('polog:field')
    rec = capture(c)
    setting(c, level=0)
    levels, ins, eng = {}, {}, {}
    names = ['n%d' % i for i in range(8)] + ['Ünï', 'x' * 200]
    for k in range(300):
        what, n = r.randrange(5), r.choice(names)
        if what == 0:
            levels[n] = r.choice([0, 1, 7, 10 ** 20])
            config.levels(**{n: levels[n]})
        elif what in (1, 2):
            store, add = (ins, config.add_fields) if what == 1 else (eng, config.add_engine_fields)
            store[n] = field(lambda item: 1)
            add(**{n: store[n]})
        else:
            store, delete = (ins, config.delete_fields) if what == 3 else (eng, config.delete_engine_fields)
            out = c.run(delete, n)
            c.prove('deleted exactly when it is there', out.ok if n in store else out.raised(KeyError))
            store.pop(n, None)
        if k % 20 == 0:
            a, b = config.get_in_place_fields(), config.get_engine_fields()
            c.prove('the registered fields', set(a) == set(ins) and all(a[x] is ins[x] for x in ins) and set(b) == set(eng) and all(b[x] is eng[x] for x in eng))
            for x in levels:
                del rec.items[:]
                getattr(log, x)('m')
                c.prove('the last value of the level', [i.get('level') for i in rec.items] == [levels[x]])
