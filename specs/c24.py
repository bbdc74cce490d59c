"""C24 - the record says what ran, where, when and for how long."""
PYVC_TRUSTED = True
import functools
from specs.lib import *

FL = 'polog.loggers.auto.function_logger:FunctionLogger'
FIN = 'polog.loggers.finalizer:LoggerRouteFinalizer'
HL = 'polog.loggers.handle.handle_log:BaseLogger'
T = [FL + '.__call__', FL + '.get_base_args_dict', FL + '.get_class_name', FL + '.get_arg', FL + '.log_normal_info', FL + '.log_exception_info', FL + '.create_log_item', 'polog.core.utils.not_none_to_dict:not_none_to_dict']
ASSUMPTIONS = ['the clock (time.time) gives real numbers that do not decrease; datetime.fromtimestamp is monotone']


class Seen:
    """ghost: readings of the clock around one call: before it, at the beginning and at the end of its body, after it"""
    pv_ghost = True

    def __init__(self, c):
        self.before, self.begin, self.end, self.after = c.now(), None, None, None


def in_time(c, rec, i, s, what=''):
    """the record i is about the run seen in s"""
    t, w = rec.field(i, 'time'), rec.field(i, 'time_of_work')
    c.prove(what + 'the time is when it began', c.and_(c.as_time(s.before) <= t, t <= c.as_time(s.begin)))
    slack = 0 if c.symbolic else 0.0001
    c.prove(what + 'the time of work is from its beginning to its end', c.and_(s.end - s.begin <= w + slack, w <= s.after - s.before + slack))


def services(c):
    """(before, in force): the setting is changed between decorating and the call"""
    now = c.choose('service', [None, 'lol', 'kek'])
    return c.choose('service before', [None, 'kek']), now


def place(c, rec, i, function, cls, message, service, module=__name__):
    c.prove('the function', rec.field(i, 'function') == function)
    c.prove('the module', rec.field(i, 'module') == module)
    c.prove('the class of a method, and no class for a function', rec.field(i, 'class') == cls)
    c.prove('the message of the decorator, if it has one', rec.field(i, 'message') is None if message is None else c.same(rec.field(i, 'message'), message))
    c.prove('the service, if it is named', rec.field(i, 'service_name') == service)
    c.prove('made automatically', rec.field(i, 'auto') is True)


ALWAYS = {'auto', 'time', 'time_of_work', 'level', 'success', 'function', 'module'}


def exact(c, rec, i, ok, *optional):
    want = set(ALWAYS) | ({'result'} if ok else {'exception_type', 'exception_message', 'traceback', 'local_variables'})
    for name, there in optional:
        if there:
            want.add(name)
    c.prove('no other fields', set(rec.items[i].keys()) == want)


@contract('C24', T)
def call(c):
    """a decorated function or coroutine function: place, outcome, beginning and duration; exactly these fields"""
    c.clock()
    rec = capture(c)
    log = c.get('polog:log')
    old, service = services(c)
    setting(c, level=0, service_name=old)
    kind = c.choose('kind', ['sync', 'async'])
    fails = c.choose('fails', [False, True])
    form = c.choose('form', ['bare', 'message', 'empty message', 'suppress', 'twice'])
    message = c.str('message') if form in ('message', 'twice') else '' if form == 'empty message' else None
    argument = c.choose('arguments', [False, True])
    seen = []

    def body():
        s = seen[-1]
        s.begin = c.now()
        s.end = c.now()
        if fails:
            raise UserError('x')
        return 1
    if kind == 'sync':
        def the_function(*a):
            return body()
    else:
        async def the_function(*a):
            return body()
    the_function.__qualname__ = 'the_function'
    if form == 'bare':
        g = log(the_function)
    elif form == 'suppress':
        g = log().suppress()(the_function)
    elif form == 'twice':
        g = log(message)(log('lower')(the_function))
    else:
        g = log(message)(the_function)
    setting(c, service_name=service)
    args = (1,) if argument else ()
    for i in range(2):
        s = Seen(c)
        seen.append(s)
        out = c.run_coro(g(*args)) if kind == 'async' else c.run(g, *args)
        s.after = c.now()
        c.prove('one record', len(rec) == i + 1)
        if len(rec) != i + 1:
            return
        place(c, rec, i, 'the_function', None, message, service)
        in_time(c, rec, i, s)
        c.prove('the outcome', rec.field(i, 'success') is (not fails))
        if fails:
            c.prove('the class and the text of the exception', rec.field(i, 'exception_type') == 'UserError' and rec.field(i, 'exception_message') == 'x')
        exact(c, rec, i, not fails, ('message', message is not None), ('service_name', service is not None), ('input_variables', argument))


def classes(c, log, form, body):
    """(callable, name of the function, name of the class)"""
    if form == 'decorated method':
        class Plain:
            @log
            def method(self):
                return body()
        return Plain().method, 'method', 'Plain'
    if form == 'decorated class':
        @log
        class Decorated:
            def method(self):
                return body()
        return Decorated().method, 'method', 'Decorated'
    if form == 'static method':
        @log
        class Static:
            @staticmethod
            def method():
                return body()
        return Static.method, 'method', 'Static'
    if form == 'class method':
        @log
        class Class:
            @classmethod
            def method(cls):
                return body()
        return Class.method, 'method', 'Class'
    if form == 'decorated bound method':
        class Bound:
            def method(self):
                return body()
        return log(Bound().method), 'method', 'Bound'
    if form == 'nested class':
        class Outer:
            @log
            class Inner:
                def method(self):
                    return body()
        return Outer.Inner().method, 'method', 'Inner'
    if form == 'inner function':
        class WithFactory:
            def factory(self):
                @log
                def product():
                    return body()
                return product
        return WithFactory().factory(), 'product', None
    if form == 'wrapped':
        def inner():
            return body()

        @log
        @functools.wraps(inner)
        def outer():
            return inner()
        return outer, 'inner', None
    if form == 'lambda':
        return log(lambda: body()), '<lambda>', None
    if form == 'subclass':
        class Parent:
            def method(self):
                return 0

        @log
        class Child(Parent):
            def method(self):
                return body()
        return Child().method, 'method', 'Child'
    if form == 'async method':
        class Plain:
            @log
            async def method(self):
                return body()
        return Plain().method, 'method', 'Plain'
    raise AssertionError(form)


@contract('C24', T + ['polog.loggers.auto.class_logger:ClassLogger.__call__'])
def members(c):
    """methods of all kinds are recorded with the name of their class, functions (also inside of methods) without one"""
    c.clock()
    rec = capture(c)
    log = c.get('polog:log')
    setting(c, level=0)
    form = c.choose('form', ['decorated method', 'decorated class', 'static method', 'class method', 'decorated bound method', 'nested class', 'inner function', 'wrapped', 'lambda', 'subclass', 'async method'])
    fails = c.choose('fails', [False, True])
    seen = []

    def body():
        s = seen[-1]
        s.begin = c.now()
        s.end = c.now()
        if fails:
            raise UserError('x')
        return 1
    f, name, cls = classes(c, log, form, body)
    s = Seen(c)
    seen.append(s)
    out = c.run_coro(f()) if form == 'async method' else c.run(f)
    s.after = c.now()
    c.prove('one record', len(rec) == 1)
    if len(rec) == 1:
        place(c, rec, 0, name, cls, None, None)
        in_time(c, rec, 0, s)
        c.prove('the outcome', rec.field(0, 'success') is (not fails))


class Pause:
    def __await__(self):
        yield


@contract('C24', T)
def overlapping(c):
    """calls of one function that overlap (a recursive call, or two coroutines in any order of their steps): each record has its own beginning, duration and outcome"""
    c.clock()
    rec = capture(c)
    log = c.get('polog:log')
    setting(c, level=0)
    how = c.choose('how', ['recursive', 'coroutines'])
    failing = c.choose('failing', [None, 0, 1])
    runs = [Seen(c), Seen(c)]
    ended = []
    if how == 'recursive':
        @log
        def f(i):
            runs[i].begin = c.now()
            if i == 0:
                runs[1].before = c.now()
                out = c.run(f, 1)
                runs[1].after = c.now()
                ended.append(1)
            runs[i].end = c.now()
            if failing == i:
                raise UserError(str(i))
        runs[0].before = c.now()
        c.run(f, 0)
        runs[0].after = c.now()
        ended.append(0)
    else:
        @log
        async def f(i):
            runs[i].begin = c.now()
            await Pause()
            runs[i].end = c.now()
            if failing == i:
                raise UserError(str(i))
        alive = []
        for i in range(2):
            alive.append((i, f(i)))
        started = set()
        n = 0
        while alive:
            j = 0 if len(alive) == 1 else c.choose('step %d' % n, [0, 1])
            n += 1
            i, coro = alive[j]
            if i not in started:
                started.add(i)
                runs[i].before = c.now()
            try:
                coro.send(None)
            except (StopIteration, UserError):
                if c.symbolic:
                    c.c.chk()
                runs[i].after = c.now()
                ended.append(i)
                del alive[j]
    c.prove('a record of each call', len(rec) == 2)
    if len(rec) != 2:
        return
    for k, i in enumerate(ended):
        in_time(c, rec, k, runs[i])
        c.prove('its own outcome', rec.field(k, 'success') is (failing != i))


@contract('C24', [FIN + '.__enter__', FIN + '.__exit__', HL + '._specific_processing', HL + '._defaults_to_dict'])
def block(c):
    """a block: when it was entered, for how long it ran, its service and outcome; not automatic and without a place of its own"""
    c.clock()
    rec = capture(c)
    log = c.get('polog:log')
    old, service = services(c)
    setting(c, level=0, service_name=old)
    form = c.choose('form', ['bare', 'call', 'suppress', 'rewritten', 'made before'])
    fails = c.choose('fails', [False, True])
    message = c.str('message')
    s = Seen(c)

    made = log('first') if form == 'made before' else None
    s.before = c.now()

    def use():
        with made if made is not None else (log if form == 'bare' else log('first').suppress() if form == 'suppress' else log('first')) as l:
            s.begin = c.now()
            setting(c, service_name=service)
            if form == 'rewritten':
                l(message)
            s.end = c.now()
            if fails:
                raise UserError('x')
    out = c.run(use)
    s.after = c.now()
    c.prove('one record', len(rec) == 1)
    if len(rec) != 1:
        return
    in_time(c, rec, 0, s)
    c.prove('not automatic', rec.field(0, 'auto') is False)
    c.prove('no place', all(rec.field(0, k) is None for k in ('function', 'module', 'class')))
    c.prove('the service in force', rec.field(0, 'service_name') == service)
    c.prove('the message', rec.field(0, 'message') is None if form == 'bare' else c.same(rec.field(0, 'message'), message if form == 'rewritten' else 'first'))
    c.prove('the outcome', rec.field(0, 'success') is (not fails))
    if fails:
        c.prove('the class and the text of the exception', rec.field(0, 'exception_type') == 'UserError' and rec.field(0, 'exception_message') == 'x')
    want = {'auto', 'time', 'time_of_work', 'level', 'success'} | ({'message'} if form != 'bare' else set()) | ({'service_name'} if service else set()) | ({'exception_type', 'exception_message', 'traceback'} if fails else set())
    c.prove('no other fields', set(rec.items[0].keys()) == want)


@contract('C24', [HL + '._specific_processing', HL + '._defaults_to_dict', HL + '._push'])
def manual(c):
    """a manual record: when it was made, its service; not automatic; exactly the given and these fields"""
    c.clock()
    rec = capture(c)
    setting(c, level=0, service_name=None)
    service = c.choose('service', [None, 'lol'])
    setting(c, service_name=service)
    how = c.choose('how', ['log', 'handle_log'])
    message = c.str('message')
    before = c.now()
    if how == 'log':
        out = plain(c, message)
    else:
        out = c.run(c.get('polog:handle_log'), message)
    after = c.now()
    c.prove('accepted', out.ok)
    c.prove('one record', len(rec) == 1)
    if len(rec) != 1:
        return
    t = rec.field(0, 'time')
    c.prove('the time is when it was made', c.and_(c.as_time(before) <= t, t <= c.as_time(after)))
    c.prove('not automatic', rec.field(0, 'auto') is False)
    c.prove('the service in force', rec.field(0, 'service_name') == service)
    c.prove('the message', c.same(rec.field(0, 'message'), message))
    c.prove('no other fields', set(rec.items[0].keys()) == {'auto', 'time', 'level', 'message'} | ({'service_name'} if service else set()))
