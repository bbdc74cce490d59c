"""C25 - names of levels and fields."""
PYVC_TRUSTED = True
from specs.lib import *

NM = 'polog.core.utils.name_manager:NameManager'
CF = 'polog.config:config'
LV = 'polog.core.stores.levels:Levels'
LT = [CF + '.levels', NM + '.is_possible_level_name', NM + '.is_identifier_name', LV + '.set', LV + '.get']
FT = [CF + '.add_fields', CF + '.add_engine_fields', NM + '.is_possible_extra_field_name', NM + '.is_identifier_name', CF + '.get_in_place_fields', CF + '.get_engine_fields', CF + '.get_all_fields', CF + '.delete_fields', CF + '.delete_engine_fields']
ASSUMPTIONS = ['str.isidentifier is an uninterpreted predicate, the same one for the code and for the contract',
               'names that are attributes of the internal function logger only (engine, settings, get_arg, ...) are not specified: the code refuses them']
BUILT_IN = ['level', 'auto', 'time', 'service_name', 'success', 'function', 'class', 'module', 'message', 'exception_type', 'exception_message', 'traceback', 'input_variables', 'local_variables', 'result', 'time_of_work']
NAMES = ['lol', 'Kek', 'x', 'level_1', '\u0443\u0440\u043e\u0432\u0435\u043d\u044c', 'messages', 'class_', 'class', 'def', 'suppress', 'message', '_x', '_', '__call__', '__enter__', '__class__', '__init__', '', '1x', 'a b', 'a.b', 'a-b', 'level', 'success', 'ERROR', 'data', 'Message', 'log', 'extra']


def own_attributes(c, *paths):
    out = set()
    for p in paths:
        out |= {n for n in dir(c.get(p))}
    return out


def a_name(c):
    if c.choose('name', ['any', 'listed']) == 'any':
        return c.str('name text')
    return c.choose('which name', NAMES)


def good(c, name):
    return c.and_(name.isidentifier(), c.not_(name.startswith('_')))


def among(c, name, names):
    return c.or_(*[c.eq(name, n) for n in sorted(names)])


@contract('C25', LT)
def names_of_levels(c):
    """a level is registered exactly when its name is an identifier without a leading underscore that is no attribute of log, handle_log or message, and its value an integer not less than 0; a refused one stays unknown"""
    rec = capture(c)
    config = c.get('polog:config')
    setting(c, level=0)
    shadowing = own_attributes(c, 'polog:log', 'polog:handle_log', 'polog:message')
    inner = own_attributes(c, 'polog.loggers.auto.function_logger:flog') - shadowing
    name = a_name(c)
    c.assume(c.not_(among(c, name, inner)))
    value = c.any('value', ('none', 'int', 'float', 'str', 'list'))
    known = c.choose('registered before', [False, True])
    if known:
        c.assume(good(c, name))
        c.assume(c.not_(among(c, name, shadowing)))
        out = c.callkw(config.levels, (), c.dict({name: 3}) if not c.symbolic else _one(c, name, 3))
        c.prove('accepted before', out.ok)
    out = c.callkw(config.levels, (), _one(c, name, value))
    fine = c.exactly(value, int) and c.truth(value >= 0)
    c.prove('accepted exactly when nothing is shadowed and the value is a level', c.iff(out.ok, c.and_(fine, good(c, name), c.not_(among(c, name, shadowing)))))
    if not out.ok:
        c.prove('refused with an error', out.raised((TypeError, ValueError, NameError)))
    got = c.run(c.get('polog.core.stores.levels:Levels').get, name)
    if out.ok:
        c.prove('in force', got.ok and c.same(got.value, value))
    elif known:
        c.prove('a refused registration changes nothing', got.ok and c.eq(got.value, 3))
    else:
        c.prove('a refused name is not a level', not got.ok)


def _one(c, name, value):
    d = c.dict()
    d[name] = value
    return d


@contract('C25', LT + ['polog.loggers.router:Router.__getattribute__', 'polog.loggers.handle.abstract:AbstractHandleLogger.__getattribute__', 'polog.loggers.partial:RouterPartial.__call__', CF + '.standard_levels'])
def levels_as_attributes(c):
    """every accepted name works as an attribute of log and of handle_log, in every form, with its last value"""
    rec = capture(c)
    config = c.get('polog:config')
    log = c.get('polog:log')
    setting(c, level=0)
    name = c.choose('name', ['lol', 'x', '\u0443\u0440\u043e\u0432\u0435\u043d\u044c', 'class_', 'data', 'level', 'success', 'item', 'kwargs', 'levels', 'standard'])
    value = c.int('value', lo=0)
    if name == 'standard':
        name, value = c.choose('which', [(n, v) for u, v in (('NOTSET', 0), ('DEBUG', 10), ('INFO', 20), ('WARNING', 30), ('ERROR', 40), ('CRITICAL', 50)) for n in (u, u.lower())])
        c.run(config.standard_levels)
    else:
        if c.choose('registered before', [False, True]):
            config.levels(**{name: 77, 'other': 5})
        config.levels(**{name: value})
    form = c.choose('form', ['call', 'decorator', 'block', 'handle_log'])
    if form == 'call':
        def use():
            getattr(log, name)('m')
    elif form == 'decorator':
        def use():
            @getattr(log, name)('m')
            def f():
                pass
            f()
    elif form == 'block':
        def use():
            with getattr(log, name)('m'):
                pass
    else:
        def use():
            getattr(c.get('polog:handle_log'), name)('m')
    out = c.run(use)
    c.prove('it can be used', out.ok)
    c.prove('one record', len(rec) == 1)
    c.prove('with that level', c.eq(rec.field(0, 'level'), value))
    c.prove('and the message', rec.field(0, 'message') == 'm')


@contract('C25', LT)
def nothing_is_shadowed(c):
    """whatever was tried, the attributes of log, handle_log and message stay what they were"""
    rec = capture(c)
    config = c.get('polog:config')
    setting(c, level=0)
    path = c.choose('object', ['polog:log', 'polog:handle_log', 'polog:message'])
    obj = c.get(path)
    name = c.choose('attribute', sorted(n for n in dir(type(obj))))
    before = c.run(getattr, obj, name)
    out = c.run(lambda: config.levels(**{name: 5}))
    c.prove('refused', out.raised(NameError))
    after = c.run(getattr, obj, name)
    c.prove('the attribute is still there', after.ok == before.ok and (not before.ok or type(before.value) is type(after.value)))
    got = c.run(c.get('polog.core.stores.levels:Levels').get, name)
    c.prove('no level', not got.ok)


def extractor(item):
    return 'value'


@contract('C25', FT)
def names_of_fields(c):
    """a field is registered exactly when its name is an identifier without a leading underscore that is no built-in field; a refused one leaves the registry as it was"""
    config = c.get('polog:config')
    field = c.get('polog:field')
    engine = c.choose('moment', [False, True])
    add, get, delete = (config.add_engine_fields, config.get_engine_fields, config.delete_engine_fields) if engine else (config.add_fields, config.get_in_place_fields, config.delete_fields)
    other = config.get_in_place_fields if engine else config.get_engine_fields
    first = field(extractor)
    add(first_field=first)
    name = a_name(c)
    f = field(extractor)
    out = c.callkw(add, (), _one(c, name, f))
    c.prove('accepted exactly when nothing is shadowed', c.iff(out.ok, c.and_(good(c, name), c.not_(among(c, name, BUILT_IN)))))
    if not out.ok:
        c.prove('refused with NameError', out.raised(NameError))
        c.prove('nothing of it stays', len(get()) == 1)
    elif c.truth(c.eq(name, 'first_field')):
        c.prove('the last one wins', len(get()) == 1)
    else:
        c.prove('both are registered', len(get()) == 2)
        c.prove('found by its name', [x is f for x in get(name).values()] == [True])
        c.prove('deleted by its name', c.run(delete, name).ok and len(get()) == 1)
        c.prove('deleted only once', c.run(delete, name).raised(KeyError))
    c.prove('the first one is as before', get('first_field')['first_field'] is f if out.ok and c.truth(c.eq(name, 'first_field')) else get('first_field')['first_field'] is first)
    c.prove('fields of the other moment are not touched', len(other()) == 0)


@contract('C25', FT + ['polog.loggers.auto.function_logger:FunctionLogger.log_normal_info', 'polog.loggers.auto.function_logger:FunctionLogger.log_exception_info'])
def built_in_fields(c):
    """every name that polog fills by itself, in any kind of record, is refused as a name of a field"""
    rec = capture(c)
    config = c.get('polog:config')
    log = c.get('polog:log')
    field = c.get('polog:field')
    setting(c, level=0, service_name='lol')

    class C:
        @log('m')
        def good(self, x):
            return x

        @log('m').suppress()
        def bad(self, x):
            raise UserError('x')
    kind = c.choose('record', ['success', 'failure', 'block', 'failed block', 'manual', 'manual failure', 'edited'])

    def use():
        if kind == 'success':
            C().good(1)
        elif kind == 'failure':
            C().bad(1)
        elif kind == 'block':
            with log('m'):
                pass
        elif kind == 'failed block':
            with log('m').suppress():
                raise UserError('x')
        elif kind == 'manual':
            c.get('polog:handle_log')('m', function='f', module='m', vars='v', **{'class': 'C'})
        elif kind == 'manual failure':
            try:
                raise UserError('x')
            except UserError as e:
                c.get('polog:handle_log')('m', e=e)
        else:
            @log
            def f():
                log.message('text', level=5, vars='x', success=False)
            f()
    out = c.run(use)
    c.prove('one record', out.ok and len(rec) == 1)
    if len(rec) != 1:
        return
    for name in sorted(rec.items[0].keys()):
        for add in (config.add_fields, config.add_engine_fields):
            c.prove('the name %s is refused' % name, c.run(lambda: add(**{name: field(extractor)})).raised(NameError))


@contract('C25', FT)
def registries(c):
    """the two registries of fields are maps from names to fields: adding, reading (all, some, both), deleting"""
    config = c.get('polog:config')
    field = c.get('polog:field')
    model = {False: {}, True: {}}
    for i in range(3):
        engine = c.choose('moment %d' % i, [False, True])
        name = c.choose('name %d' % i, ['a', 'b'] if i < 2 else ['a', 'b', 'c'])
        step = c.choose('step %d' % i, ['add', 'delete']) if i else 'add'
        m = model[engine]
        if step == 'add':
            f = field(extractor)
            out = c.run(lambda: (config.add_engine_fields if engine else config.add_fields)(**{name: f}))
            c.prove('added', out.ok)
            m[name] = f
        else:
            out = c.run(config.delete_engine_fields if engine else config.delete_fields, name)
            c.prove('deleted exactly when it is there', out.ok == (name in m))
            if not out.ok:
                c.prove('refused with KeyError', out.raised(KeyError))
            m.pop(name, None)
        for e, get in ((False, config.get_in_place_fields), (True, config.get_engine_fields)):
            c.prove('all of them', same(get(), model[e]))
            c.prove('some of them', same(get('a', 'c'), {k: v for k, v in model[e].items() if k in 'ac'}))
        both = dict(model[False])
        both.update(model[True])
        c.prove('both together', same(config.get_all_fields(), both))
        got = config.get_all_fields()
        got['a'] = got['zzz'] = None
        c.prove('the result is a copy', same(config.get_all_fields(), both))


def same(d, m):
    return set(d.keys()) == set(m) and all(d[k] is m[k] for k in m)
