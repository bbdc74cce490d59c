"""The frame lemmas: an operation leaves the whole state of the program (globals, classes, instances, closures, containers,
context variables) as it was, so a contract proved for one operation holds after any number of them.  A program that keeps
more is outside of the lemma: it is undecided, never an alarm."""
PYVC_TRUSTED = True
from specs.lib import *

LI = 'polog.core.log_item:LogItem'
FL = 'polog.loggers.auto.function_logger:FunctionLogger'


def simple_function(c, name='f', kind='sync'):
    n = [0]

    def outcome():
        n[0] += 1
        how = c.choose('%s %d' % (name, n[0]), ['returns', 'raises', 'is interrupted'])
        if how != 'returns':
            raise (UserError if how == 'raises' else UserBase)('x')
        return 5
    if kind == 'async':
        async def f(*args, **kwargs):
            return outcome()
    else:
        def f(*args, **kwargs):
            return outcome()
    return f


def decorated(c):
    kind = c.choose('kind', ['sync', 'async'])
    f = simple_function(c, kind=kind)
    how = c.choose('how', ['plain', 'level', 'named', 'errors'])
    log = c.get('polog:log')
    if how == 'named':
        c.get('polog:config').levels(lol=c.int('named', lo=0))
    g = {'plain': lambda: log(f), 'level': lambda: log(message='m', level=c.int('own', lo=0))(f), 'named': lambda: log(level='lol')(f), 'errors': lambda: log(errors_level=c.int('errors', lo=0))(f)}[how]()
    return (lambda: c.run_coro(g(1, x=2)) if kind == 'async' else c.run(g, 1, x=2)), [g]


def suppressed(c):
    f = simple_function(c)
    l = c.choose('list', [(), (ValueError,), (Exception, LookupError)])
    g = c.get('polog:log')().suppress(*l)(f)
    return (lambda: c.run(g)), [g]


def unlogged(c):
    kind = c.choose('kind', ['sync', 'async'])
    inner = simple_function(c, 'inner')
    logged = c.get('polog:log')(inner)
    unlog = c.get('polog:unlog')
    full = c.choose('full', [None, True, False])

    if kind == 'async':
        async def f():
            plain(c, 'm')
            return logged()
    else:
        def f():
            plain(c, 'm')
            return logged()
    g = unlog(f) if full is None else unlog(full=full)(f)
    return (lambda: c.run_coro(g()) if kind == 'async' else c.run(g)), [g, logged]


def messaging(c):
    message = c.get('polog:message')
    fails = c.choose('fails', [False, True])
    kind = c.choose('kind', ['sync', 'async'])
    inner_edits = c.choose('inner edits', [False, True])

    def inner():
        if inner_edits:
            message('inner')
    logged = c.get('polog:log')(inner)

    def body():
        logged()
        message('new', x=1)
        if fails:
            raise UserError('x')
    if kind == 'async':
        async def f():
            body()
    else:
        def f():
            body()
    g = c.get('polog:log')(level=c.int('own', lo=0))(f)
    return (lambda: c.run_coro(g()) if kind == 'async' else c.run(g)), [g, logged]


def manual(c):
    how = c.choose('form', ['call', 'fields', 'exception', 'level', 'wrong'])
    data = {'call': {}, 'fields': {'x': 1, 'y': 'z'}, 'exception': {'exception': UserError('x')}, 'level': {'level': c.int('own', lo=0)}, 'wrong': {'success': 'not a bool'}}[how]
    if c.choose('which', ['log', 'handle_log']) == 'log':
        return (lambda: plain(c, 'm', **data)), []
    return (lambda: c.run(c.get('polog:handle_log'), 'm', **data)), []


def block(c):
    log = c.get('polog:log')
    form = c.choose('form', ['bare', 'call', 'level', 'suppress', 'nested'])
    fails = c.choose('fails', [False, True])
    c.get('polog:config').levels(lol=3)

    def body():
        make = {'bare': lambda: log, 'call': lambda: log('m'), 'level': lambda: log.lol, 'suppress': lambda: log.suppress(UserError), 'nested': lambda: log('outer')}[form]
        with make() as b:
            b(message='edited')
            if form == 'nested':
                with log:
                    pass
            if fails:
                raise UserError('x')
    return (lambda: c.run(body)), []


def asserting(c):
    smart_assert = c.get('polog.loggers.handle.smart_assert:smart_assert')
    setting(c, debug_mode=c.choose('debug', [False, True]), smart_assert_politic=c.choose('politic', ['all', 'if_debug']))
    cond = c.bool('condition')
    return (lambda: c.run(smart_assert, cond, 'm')), []


def with_fields(c):
    field, config = c.get('polog:field'), c.get('polog:config')
    n = [0]

    def extractor(item):
        n[0] += 1
        if c.choose('fails %d' % n[0], [False, True]):
            raise UserError('x')
        return 1
    config.add_fields(one=field(extractor))
    config.add_engine_fields(two=field(extractor))
    g = c.get('polog:log')(lambda: 1)
    return (lambda: c.run(g) if c.choose('record', ['auto', 'manual']) == 'auto' else plain(c, 'm')), [g]


def failing_handlers(c):
    config = c.get('polog:config')

    def handler(item):
        raise c.choose('handler', [UserError, UserBase])('x')
    config.add_handlers({'some.name': handler})
    g = c.get('polog:log')(handlers=['some', lambda item: None])(lambda: 1)
    which = c.choose('handlers', ['global', 'own'])
    return (lambda: c.run(g) if which == 'own' else plain(c, 'm')), [g]


def bridge(c):
    from specs.c20 import Record, Std
    std = Std(c)
    setting(c, integration_with_logging=True)
    r = Record(c, 'r')
    return (lambda: c.run(std.root.handle, r)), []


def handler(c):
    n = [0]

    def outcome(what):
        n[0] += 1
        if c.choose('%s %d' % (what, n[0]), ['works', 'fails']) == 'fails':
            raise UserError('x')

    class H(c.get('polog.handlers.abstract.base:BaseHandler')):
        def get_content(self, item):
            outcome('content')
            return item

        def do(self, content):
            outcome('do')
    h = H(only_errors=c.choose('only errors', [False, True]), filter=c.choose('filter', [None, lambda item: False]), alt=c.choose('alt', [None, lambda item: outcome('alt')]))
    item = c.get(LI)()
    item.set_data({'success': c.choose('success', [False, True])})
    return (lambda: c.run(h, item)), [h, item]


def formatter(c):
    h = c.get('polog.handlers.file.base_formatter:BaseFormatter')('END')
    item = c.get(LI)()
    one, many = c.get('polog.utils.json_vars:json_one_variable'), c.get('polog.utils.json_vars:json_vars')
    data = {'success': True, 'message': c.str('text'), 'level': c.choose('level', [1, 77]), 'module': 'm', 'function': 'f', 'result': one('r'), 'input_variables': many('a', k=1)}
    if c.choose('extra', [False, True]):
        data['extra'] = c.str('extra text')
    item.set_data(data)
    c.run(h.get_formatted_string, item)     # the widths are fixed by the first line
    return (lambda: c.run(lambda: [h.get_formatted_string(item), one('x'), many(1, z=2)])), [h, item]


def matching(c):
    f = c.choose('callable', [lambda a: 1, lambda a, b: 1, lambda: 1, lambda *a: 1, 5, len])
    is_handler = c.get('polog.core.utils.signature_matcher:SignatureMatcher').is_handler
    raising = c.choose('raising', [False, True])
    return (lambda: c.run(is_handler, f, raise_exception=raising)), []


def mailing(c):
    from specs.c23 import KINDS, Net, install, sender
    net = Net(c.choose('fails', [None, 'connect', 'login', 'sendmail', 'quit']))
    net.kind = c.choose('kind of failure', KINDS[:5])
    install(c, net)
    h = sender(c, alt=lambda item: None)
    item = c.get(LI)()
    item.set_data({'message': 'm'})
    return (lambda: c.run(h, item)), [h, item]


def lemma(prop, targets, operations):
    @contract(prop, targets, cases=10)
    def records_leave_no_trace(c):
        """frame lemma: the operations of this property, whatever their outcome, leave the whole state of the program as it was after the first record; so what is proved for one holds after any number of them"""
        capture(c, fresh=True)
        earlier_operations(c)
        setting(c, deduplicate_errors=c.choose('deduplicate', [False, True]))
        operation, objects = c.choose('operation', operations)(c)
        setting(c, level=c.int('threshold', lo=0))
        if c.choose('once before', [False, True]):
            operation()
            if c.symbolic:
                c.c.chk()
        before = c.state(*objects)
        operation()
        if c.symbolic:
            c.c.chk()
        c.unchanged(before, *objects)


lemma('C01', [FL + '.__call__', FL + '.log_normal_info', FL + '.log_exception_info'], [decorated])
lemma('C02', [FL + '.__call__', FL + '.resolve_normal_level', 'polog.core.utils.get_errors_level:get_errors_level', 'polog.loggers.handle.abstract:AbstractHandleLogger.__call__'], [decorated, manual])
lemma('C03', [LI + '.call_handlers', LI + '.call_one_handler', FL + '.get_handlers'], [failing_handlers])
lemma('C04', [LI + '.extract_extra_fields', LI + '.extract_extra_fields_from'], [with_fields])
lemma('C07', ['polog.core.utils.exception_is_suppressed:exception_is_suppressed', FL + '.__call__', 'polog.loggers.finalizer:LoggerRouteFinalizer.__exit__'], [suppressed, block])
lemma('C08', ['polog.unlog:UnlogDecorator.set_unlogged', 'polog.unlog:UnlogDecorator.get_unlog_status'], [unlogged])
lemma('C09', [FL + '.log_exception_info'], [decorated])
lemma('C10', ['polog.loggers.handle.message:Message._copy_context', 'polog.loggers.handle.message:Message._push', FL + '.__call__'], [messaging])
lemma('C17', ['polog.loggers.router:Router.__enter__', 'polog.loggers.router:Router.__exit__', 'polog.loggers.finalizer:LoggerRouteFinalizer.__exit__'], [block])
lemma('C18', ['polog.loggers.handle.abstract:AbstractHandleLogger.__call__', 'polog.loggers.handle.handle_log:BaseLogger._push'], [manual])
lemma('C19', ['polog.loggers.handle.smart_assert:SmartAssert.__call__'], [asserting])
lemma('C24', [FL + '.__call__', 'polog.loggers.finalizer:LoggerRouteFinalizer.__exit__'], [decorated, block])


lemma('C20', ['polog.core.stores.settings.actions.integration_with_logging:from_logging_filter_to_polog'], [bridge])
lemma('C16', ['polog.handlers.abstract.base:BaseHandler.__call__', 'polog.handlers.abstract.base:BaseHandler.to_do_or_not_to_do'], [handler])
lemma('C21', ['polog.handlers.file.base_formatter:BaseFormatter.get_formatted_string', 'polog.utils.json_vars:json_vars', 'polog.utils.json_vars:json_one_variable'], [formatter])
lemma('C22', ['polog.core.utils.signature_matcher:SignatureMatcher.match', 'polog.core.utils.signature_matcher:SignatureMatcher.is_handler'], [matching])
lemma('C23', ['polog.handlers.smtp.sender:SMTP_sender.do', 'polog.handlers.smtp.smtp_dependency_wrapper:SMTPDependencyWrapper.send'], [mailing])


def there_and_back(prop, targets, changes):
    @contract(prop, targets, cases=10)
    def changes_leave_no_trace(c):
        """frame lemma: a change and the opposite change leave the whole state of the program as it was, before the first record and after it; so the state is determined by the last values, not by how they were reached"""
        capture(c, fresh=True)
        change = c.choose('change', changes)(c)
        if c.choose('records before', [False, True]):
            c.get('polog:log')(lambda: None)()
        change()
        before = c.state()
        change()
        c.unchanged(before)


def a_setting(c):
    config = c.get('polog:config')
    key, a, b = c.choose('setting', [('level', c.int('a', lo=0), c.int('b', lo=0)), ('default_level', c.int('a', lo=0), c.int('b', lo=0)), ('default_error_level', c.int('a', lo=0), c.int('b', lo=0)), ('service_name', None, 'x'),
                                     ('silent_internal_exceptions', True, False), ('suppress_by_default', True, False), ('suppress_exception_subclasses', True, False), ('deduplicate_errors', True, False), ('full_unlog', True, False),
                                     ('debug_mode', True, False), ('fields_intersection', True, False), ('unknown_fields_in_handle_logs', True, False), ('traceback_cutting', True, False), ('smart_assert_politic', 'all', 'if_debug'),
                                     ('integration_with_logging', True, False)])

    def change():
        for v in (a, -1, b):
            c.run(config.set, **{key: v})
    return change


def a_level_of(c):
    config = c.get('polog:config')
    a, b = c.int('a', lo=0), c.int('b', lo=0)

    def change():
        config.levels(lol=a)
        config.levels(lol=b)
    return change


def a_handler(c):
    config = c.get('polog:config')
    name = c.choose('name', ['one', 'one.two', 'one.two.three'])
    if c.choose('another', [False, True]):
        config.add_handlers({'one.two.other': lambda item: None})

    def handler(item):
        pass

    def change():
        config.add_handlers({name: handler})
        config.delete_handlers(name)
    return change


def a_field(c):
    config, field = c.get('polog:config'), c.get('polog:field')
    one = field(lambda item: 1)
    engine = c.choose('engine', [False, True])
    (config.add_engine_fields if engine else config.add_fields)(other=one)

    def change():
        (config.add_engine_fields if engine else config.add_fields)(one=one)
        (config.delete_engine_fields if engine else config.delete_fields)('one')
    return change


there_and_back('C06', ['polog.core.stores.settings.setting_point:SettingPoint.set', 'polog.config:config.set'], [a_setting])
there_and_back('C02', ['polog.core.stores.levels:Levels.set', 'polog.core.stores.settings.setting_point:SettingPoint.set'], [a_level_of, a_setting])
there_and_back('C07', ['polog.core.stores.settings.setting_point:SettingPoint.set'], [a_setting])
there_and_back('C12', ['polog.config:config.add_handlers', 'polog.config:config.delete_handlers'], [a_handler])
there_and_back('C25', ['polog.config:config.levels', 'polog.config:config.add_fields', 'polog.config:config.delete_fields'], [a_level_of, a_field])
