"""C02 - level threshold and level resolution."""
PYVC_TRUSTED = True
from specs.lib import *

FL = 'polog.loggers.auto.function_logger:FunctionLogger'


def setup(c, by_name=False):
    config = c.get('polog:config')
    d = {}
    d['thr'] = c.int('threshold', lo=0)
    d['dl'] = c.int('default_level', lo=0)
    d['de'] = c.int('default_error_level', lo=0)
    if c.choose('settings by name', [False, True]):
        config.levels(thr=d['thr'], dl=d['dl'], de=d['de'])
        setting(c, level='thr', default_level='dl', default_error_level='de')
    else:
        setting(c, level=d['thr'], default_level=d['dl'], default_error_level=d['de'])
    return d


def check(c, d, rec, L, success):
    delivered_iff(c, rec, L >= d['thr'])
    if len(rec):
        c.prove('the record carries the resolved level', c.eq(rec.field(0, 'level'), L))
        if success is not None:
            c.prove('the record carries the outcome', c.same(rec.field(0, 'success'), success))


def run(c, g, kind):
    return c.run_coro(g()) if kind == 'async' else c.run(g)


@contract('C02', [FL + '.log_normal_info', FL + '.resolve_normal_level', 'polog.core.stores.levels:Levels.get'])
def decorator_success(c):
    """successful decorated call: explicit level, else default_level; delivered iff >= threshold"""
    d = setup(c)
    rec = capture(c)
    kind = c.choose('kind', ['sync', 'async'])
    f, calls = user_function(c, kind=kind, raises=False, result=1)
    level, n = a_level(c, 'lvl', ('none', 'int', 'name', 'renamed'))
    el, en = a_level(c, 'elvl', ('none', 'int'))
    g = c.get('polog:log')(**given(level=level, errors_level=el))(f)
    run(c, g, kind)
    check(c, d, rec, n if level is not None else d['dl'], True)


@contract('C02', [FL + '.log_exception_info', 'polog.core.utils.get_errors_level:get_errors_level'])
def decorator_error(c):
    """failed decorated call: errors_level, else the maximum of default_level, default_error_level and the level of the decorator"""
    d = setup(c)
    rec = capture(c)
    kind = c.choose('kind', ['sync', 'async'])
    f, calls = user_function(c, kind=kind, raises=UserError)
    level, n = a_level(c, 'lvl', ('none', 'int', 'name', 'unknown', 'negative'))
    el, en = a_level(c, 'elvl', ('none', 'int', 'name', 'unknown', 'negative'))
    g = c.get('polog:log')(**given(level=level, errors_level=el))(f)
    run(c, g, kind)
    if en is not None:
        L = en
    else:
        L = c.max(d['dl'], d['de'])
        if n is not None:
            L = c.max(L, n)
    check(c, d, rec, L, False)


@contract('C02', ['polog.loggers.handle.handle_log:BaseLogger._push', 'polog.loggers.handle.handle_log:BaseLogger._defaults_to_dict'])
def manual(c):
    """log(...): explicit level; else default_error_level for an exception or success=False, else default_level"""
    d = setup(c)
    rec = capture(c)
    level, n = a_level(c, 'lvl', ('none', 'int', 'name', 'renamed'))
    kw = given(level=level)
    case = c.choose('case', ['plain', 'success', 'failure', 'exception', 'exception name', 'attribute'])
    bad = case in ('failure', 'exception', 'exception name')
    if case == 'success':
        kw['success'] = True
    elif case == 'failure':
        kw['success'] = False
    elif case == 'exception':
        kw['exception'] = ValueError('x')
    elif case == 'exception name':
        kw['exception'] = 'ValueError'
    if case == 'attribute':
        if not isinstance(level, str):
            return
        log = getattr(c.get('polog:log'), level)
        c.run(log, 'message')
        if c.symbolic:
            c.c.chk()
    else:
        plain(c, 'message', **kw)
    L = n if level is not None else (d['de'] if bad else d['dl'])
    check(c, d, rec, L, None)


@contract('C02', ['polog.loggers.finalizer:LoggerRouteFinalizer.__exit__', 'polog.loggers.router:Router.__enter__', 'polog.loggers.partial:RouterPartial.__enter__'])
def context_manager(c):
    """with log(...): explicit level; else default_error_level if the block failed, else default_level"""
    d = setup(c)
    rec = capture(c)
    log = c.get('polog:log')
    level, n = a_level(c, 'lvl', ('none', 'int', 'name'))
    form = c.choose('form', ['call', 'bare', 'attribute', 'late'])
    fails = c.choose('block fails', [False, True])

    def use():
        if form == 'call':
            cm = log('message', **given(level=level))
        elif form == 'bare':
            if level is not None:
                c.assume(False)
            cm = log
        elif form == 'attribute':
            if not isinstance(level, str):
                c.assume(False)
            cm = getattr(log, level)
        else:
            if level is None:
                c.assume(False)
            cm = log('message', level=7)
        with cm as context:
            if form == 'late':
                context(level=level)
            if fails:
                raise UserError('in the block')
    out = c.run(use)
    c.prove('an exception of the block is not swallowed by default', out.ok == (not fails))
    L = n if level is not None else (d['de'] if fails else d['dl'])
    check(c, d, rec, L, not fails)


@contract('C02', ['polog.loggers.auto.class_logger:ClassLogger.__call__'])
def decorated_class(c):
    """methods of a decorated class follow the same rule"""
    d = setup(c)
    rec = capture(c)
    level, n = a_level(c, 'lvl', ('none', 'int', 'name'))
    el, en = a_level(c, 'elvl', ('none', 'int', 'name'))
    fails = c.choose('fails', [False, True])

    class A:
        def method(self):
            if fails:
                raise UserError('x')
    c.get('polog:log')(**given(level=level, errors_level=el))(A)
    c.run(A().method)
    if fails:
        L = en if en is not None else c.max(d['dl'], d['de'], *([n] if n is not None else []))
    else:
        L = n if n is not None else d['dl']
    check(c, d, rec, L, not fails)


@contract('C02', ['polog.config:config.standard_levels', 'polog.core.stores.levels:Levels.set', 'polog.core.stores.levels:Levels.get_level_name'])
def level_registry(c):
    """the registry maps every registered name to its last number and every number to its last name; standard levels have the numbers of logging"""
    import logging as std
    config = c.get('polog:config')
    L = c.get('polog.core.stores.levels:Levels')
    if c.choose('standard', [False, True]):
        config.standard_levels()
        for n in ('NOTSET', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'):
            c.prove('standard level %s' % n, L.get(n) == getattr(std, n) and L.get(n.lower()) == getattr(std, n))
        return
    a, b = c.int('a', lo=0), c.int('b', lo=0)
    config.levels(lol=a)
    config.levels(kek=b)
    c.prove('name to number', c.and_(c.eq(L.get('lol'), a), c.eq(L.get('kek'), b)))
    c.prove('number to the last name', c.eq(L.get_level_name(b), 'kek'))
    c.prove('number to its name', c.eq(L.get_level_name(a), c.ite(c.eq(a, b), 'kek', 'lol')))
    x = c.int('x', lo=0)
    c.assume(c.and_(c.not_(c.eq(x, a)), c.not_(c.eq(x, b))))
    c.prove('an unnamed number is its own level', c.eq(L.get(x), x))
    c.prove('an unnamed number is shown as itself', c.eq(L.get_level_name(x), c.strof(x)))
    out = c.run(L.get, 'cheburek')
    c.prove('an unknown name is rejected', out.raised(KeyError))
    m = c.int('m')
    c.assume(m < 0)
    c.prove('a negative level is rejected', c.run(L.get, m).raised(KeyError))
    c.prove('a negative level cannot be registered', c.run(config.levels, perekek=m).raised(ValueError) and c.run(L.get, 'perekek').raised(KeyError))
