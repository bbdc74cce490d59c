"""C06 - settings: only valid values, atomically, compatible pairs, one-way start."""
PYVC_TRUSTED = True
from specs.lib import *

SP = 'polog.core.stores.settings.setting_point:SettingPoint'
T = [SP + '.set', SP + '.prove_value', SP + '.prove_conflicts', 'polog.config:config.set', 'polog.core.stores.settings.settings_store:SettingsStore.__setitem__']
BOOLS = ['silent_internal_exceptions', 'fields_intersection', 'unknown_fields_in_handle_logs', 'deduplicate_errors', 'full_unlog', 'suppress_by_default',
         'suppress_exception_subclasses', 'traceback_cutting', 'debug_mode']
NAMES = ['pool_size', 'max_queue_size', 'started', 'level', 'default_level', 'default_error_level', 'service_name', 'max_delay_before_exit',
         'delay_on_exit_loop_iteration_in_quants', 'time_quant', 'json_module', 'smart_assert_politic', 'integration_with_logging', 'logging_off', 'log_is_built_in', 'engine'] + BOOLS


def store(c):
    return c.get('polog.core.stores.settings.settings_store:SettingsStore')()


def snapshot(c):
    s = store(c)
    return {n: s[n] for n in NAMES}


def unchanged(c, before, but=()):
    s = store(c)
    return c.and_(*[same_value(c, s[n], before[n]) for n in NAMES if n not in but])


def same_value(c, a, b):
    return c.same(a, b)


def attempt(c, name, v, valid):
    """config.set(name=v): accepted exactly when valid; a refusal leaves every setting as it was."""
    config = c.get('polog:config')
    before = snapshot(c)
    out = c.run(config.set, **{name: v})
    c.prove('a value is accepted exactly when it is valid', c.iff(out.ok, valid))
    if out.ok:
        c.prove('the accepted value is in force', same_value(c, store(c)[name], v))
        c.prove('other settings are not touched', unchanged(c, before, (name,)))
    else:
        c.prove('a refused change leaves all settings as they were', unchanged(c, before))
    return out


@contract('C06', T)
def boolean_settings(c):
    """a boolean setting accepts booleans only"""
    name = c.choose('name', BOOLS)
    v = c.any('value')
    attempt(c, name, v, c.isinstance(v, bool))


@contract('C06', T)
def numeric_settings(c):
    """a numeric setting accepts only numbers of its range"""
    name = c.choose('name', ['max_delay_before_exit', 'delay_on_exit_loop_iteration_in_quants', 'time_quant'])
    v = c.any('value', ('none', 'int', 'float', 'str', 'strsub', 'list', 'tuple', 'dict', 'class', 'func', 'other'))
    if name == 'delay_on_exit_loop_iteration_in_quants':
        valid = c.isinstance(v, int) and c.truth(v > 0)
    elif name == 'time_quant':
        valid = (c.isinstance(v, int) or c.isinstance(v, float)) and c.truth(v > 0)
    else:
        valid = (c.isinstance(v, int) or c.isinstance(v, float)) and c.truth(v >= 0)
    attempt(c, name, v, valid)


@contract('C06', T + ['polog.core.stores.levels:Levels.get'])
def level_settings(c):
    """a level setting accepts a number >= 0 or a registered name, and holds the number"""
    config = c.get('polog:config')
    name = c.choose('name', ['level', 'default_level', 'default_error_level'])
    n = c.int('registered', lo=0)
    config.levels(lol=n)
    how = c.choose('how', ['any', 'registered', 'other name'])
    if how == 'registered':
        before = snapshot(c)
        out = c.run(config.set, **{name: 'lol'})
        c.prove('a registered name is accepted', out.ok)
        c.prove('the number of the level is in force', c.eq(store(c)[name], n))
        c.prove('other settings are not touched', unchanged(c, before, (name,)))
        return
    if how == 'other name':
        attempt(c, name, 'kek', False)
        return
    v = c.any('value', ('none', 'int', 'float', 'list', 'tuple', 'dict', 'class', 'func', 'other'))
    attempt(c, name, v, c.isinstance(v, int) and c.truth(v >= 0))


def an_engine(settings):
    pass


class AnEngine:
    def __call__(self, settings):
        pass


@contract('C06', T)
def other_settings(c):
    """service_name: None or an identifier; json_module: a module with loads and dumps; smart_assert_politic: one of two names; engine: a callable"""
    import types
    name = c.choose('name', ['service_name', 'json_module', 'smart_assert_politic', 'engine', 'unknown'])
    config = c.get('polog:config')
    if name == 'service_name':
        v = c.choose('v', [None, 'lol', 'lol_kek', '_x', '', '1a', 'a b', 'a.b', 'a-b', 5, True, b'lol', ['lol'], object()])
        attempt(c, name, v, v is None or isinstance(v, str) and v.isidentifier())
    elif name == 'json_module':
        m = types.ModuleType('m')
        l, d = c.choose('loads', ['no', 'bad', 'ok']), c.choose('dumps', ['no', 'bad', 'ok'])
        for k, x in (('loads', l), ('dumps', d)):
            if x != 'no':
                setattr(m, k, (lambda y: y) if x == 'ok' else 5)
        kind = c.choose('kind', ['module', 'object', 'str', 'none'])
        if kind == 'object':
            class O:
                pass
            o = O()
            o.loads = o.dumps = lambda y: y
            m = o
        elif kind == 'str':
            m = 'json'
        elif kind == 'none':
            m = None
        attempt(c, name, m, kind == 'module' and l == d == 'ok')
    elif name == 'engine':
        v = c.choose('v', [None, 5, 'lol', [], an_engine, AnEngine, AnEngine(), lambda settings: None])
        attempt(c, name, v, callable(v))
    elif name == 'smart_assert_politic':
        v = c.choose('v', ['all', 'if_debug', 'al', 'if_debugs', '', 'ALL', None, 5, ('all',), ['all'], True])
        before = snapshot(c)
        out = c.run(config.set, smart_assert_politic=v)
        ok = isinstance(v, str) and v in ('all', 'if_debug')
        c.prove('accepted exactly when it is a name of a politic', out.ok == ok)
        if not ok:
            c.prove('a refused change leaves all settings as they were', unchanged(c, before))
        else:
            p = store(c)['smart_assert_politic']
            for debug in (False, True):
                for res in (False, True):
                    c.prove('the politic decides as documented', bool(p(debug, res)) == (not res and (v == 'all' or not debug)))
    else:
        before = snapshot(c)
        v = c.any('value')
        out = c.run(config.set, **{c.choose('unknown name', ['levl', 'Level', 'pool', 'settings', 'points', 'lock', '_level']): v})
        c.prove('an unknown name of a setting is an error', out.raised(KeyError))
        c.prove('a refused change leaves all settings as they were', unchanged(c, before))


def queue_ok(c, p, q):
    return c.or_(c.not_(c.eq(p, 0)), c.eq(q, 0))


@contract('C06', T)
def pool_and_queue(c):
    """from every reachable pair, every attempt to set pool_size or max_queue_size: accepted exactly when it is a number >= 0 and the new pair is compatible"""
    config = c.get('polog:config')
    p, q = c.int('pool', lo=0), c.int('queue', lo=0)
    c.assume(queue_ok(c, p, q))
    # any compatible pair is reached: pool first, then queue
    c.prove('pool_size is accepted', c.run(config.set, pool_size=p).ok)
    c.prove('max_queue_size is accepted', c.run(config.set, max_queue_size=q).ok)
    name = c.choose('name', ['pool_size', 'max_queue_size'])
    kind = c.choose('kind', ['int', 'any'])
    if kind == 'any':
        v = c.any('value', ('none', 'float', 'str', 'strsub', 'list', 'tuple', 'dict', 'class', 'func', 'other'))
        attempt(c, name, v, False)
        return
    v = c.int('value')
    new = (v, q) if name == 'pool_size' else (p, v)
    attempt(c, name, v, c.and_(v >= 0, queue_ok(c, *new)))
    s = store(c)
    c.prove('a queue limit never coexists with an empty pool', queue_ok(c, s['pool_size'], s['max_queue_size']))


@contract('C06', T)
def logging_pair(c):
    """logging_off=True never coexists with integration_with_logging=False"""
    config = c.get('polog:config')
    i, o = c.bool('integration'), c.bool('off')
    c.assume(c.or_(i, c.not_(o)))
    c.prove('logging_off can be switched off', c.run(config.set, logging_off=False).ok)
    c.prove('integration is accepted', c.run(config.set, integration_with_logging=i).ok)
    c.prove('logging_off is accepted', c.run(config.set, logging_off=o).ok)
    name = c.choose('name', ['integration_with_logging', 'logging_off'])
    if c.choose('kind', ['bool', 'any']) == 'any':
        v = c.any('value', ('none', 'int', 'float', 'str', 'list', 'dict', 'func', 'other'))
        attempt(c, name, v, False)
        return
    v = c.bool('value')
    new = (v, o) if name == 'integration_with_logging' else (i, v)
    attempt(c, name, v, c.or_(new[0], c.not_(new[1])))
    s = store(c)
    c.prove('the pair stays compatible', c.or_(s['integration_with_logging'], c.not_(s['logging_off'])))


@contract('C06', T + ['polog.core.engine.engine:Engine.write'])
def started_is_one_way(c):
    """the flag of the first record is set by the first record and can never be unset"""
    config = c.get('polog:config')
    capture(c, fresh=True)
    s = store(c)
    early = c.choose('before the first record', [False, True])
    v = c.any('value')
    if not early:
        plain(c, 'first')
        c.prove('set by the first record', s['started'] is True)
        out = c.run(config.set, started=v)
        c.prove('it cannot be set twice', not out.ok)
        c.prove('it stays set', s['started'] is True)
        plain(c, 'second')
        c.prove('it stays set', s['started'] is True)
        return
    c.prove('not set before the first record', s['started'] is False)
    out = c.run(config.set, started=v)
    if out.ok:
        c.prove('only True is accepted', c.truth(c.isinstance(v, bool)) and c.truth(v))
    else:
        c.prove('a refused change does nothing', s['started'] is False)


@contract('C06', T)
def several_at_once(c):
    """config.set with several settings applies them in the order given: those before the first refused one are in force, later ones are not"""
    config = c.get('polog:config')
    a, b, d = c.bool('a'), c.any('b'), c.bool('d')
    before = snapshot(c)
    out = c.run(config.set, deduplicate_errors=a, full_unlog=b, suppress_by_default=d)
    s = store(c)
    ok = c.isinstance(b, bool)
    c.prove('the call fails exactly when a value is refused', c.iff(out.ok, ok))
    c.prove('the first is in force', c.same(s['deduplicate_errors'], a))
    c.prove('the second is in force or untouched', c.same(s['full_unlog'], b) if out.ok else c.same(s['full_unlog'], before['full_unlog']))
    c.prove('others are not touched', unchanged(c, before, ('deduplicate_errors', 'full_unlog', 'suppress_by_default')))


@contract('C06', T + [SP + '.share_lock_object'], mode='concrete', cases=250)
def concurrent_pairs(c):
    """BOUNDED (two threads, one preemption at any executed line): two threads set the members of a pair; the pair stays compatible and nothing hangs"""
    config = c.get('polog:config')
    which = c.choose('pair', ['queue', 'logging'])
    swap = c.choose('swap', [False, True])
    if which == 'queue':
        config.set(pool_size=2)
        ops = [lambda: config.set(pool_size=0), lambda: config.set(max_queue_size=5)]
    else:
        config.set(logging_off=False)
        ops = [lambda: config.set(integration_with_logging=False), lambda: config.set(logging_off=True)]
    if swap:
        ops.reverse()
    a, b = c.interleave('set', ops[0], ops[1], points=70)
    c.prove('both calls end', a is not None and b is not None)
    s = store(c)
    c.prove('the pair stays compatible', not (s['pool_size'] == 0 and s['max_queue_size'] != 0) and (s['integration_with_logging'] or not s['logging_off']))
    c.prove('exactly one of the incompatible changes is refused', a is None or b is None or a.ok != b.ok)
