"""C19 - smart asserts."""
PYVC_TRUSTED = True
from specs.lib import *

SA = 'polog.loggers.handle.smart_assert:SmartAssert'
T = [SA + '.__call__', SA + '.get_message']


class Flag:
    """An object with a truth value of its own."""
    def __init__(self, value):
        self.value = value

    def __bool__(self):
        return self.value

    def __str__(self):
        return 'a flag'


class Sized:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __str__(self):
        return 'a sized object'


class Unprintable:
    def __str__(self):
        raise UserError('str failed')

    def __bool__(self):
        return False


def prepare(c):
    level = c.int('default_error_level', lo=0)
    setting(c, level=0, default_error_level=level)
    debug = symbolic_bools(c, 'debug_mode')['debug_mode']
    politic = c.choose('politic', ['all', 'if_debug'])
    setting(c, smart_assert_politic=politic)
    return debug, politic == 'all', capture(c), level


def condition(c):
    """(the object, its truth value)"""
    kind = c.choose('condition', ['unknown', 'flag', 'sized', 'list', 'none'])
    if kind == 'unknown':
        x = c.any('x', ('bool', 'int', 'float', 'str'))
        return x, c.truth(x)
    if kind == 'flag':
        v = c.choose('flag', [False, True])
        return Flag(v), v
    if kind == 'sized':
        n = c.choose('size', [0, 1])
        return Sized(n), n > 0
    if kind == 'list':
        v = c.choose('items', [[], [0]])
        return v, bool(v)
    return None, False


def verdict(c, debug, everything, rec, level, out, holds, text):
    recorded = c.and_(not holds, c.or_(everything, c.not_(debug)))
    c.prove('raises exactly when the condition is false in the debug mode', c.iff(out.ok, c.or_(holds, c.not_(debug))))
    if out.ok:
        c.prove('returns None', out.value is None)
    else:
        c.prove('raises AssertionError', type(out.exc) is AssertionError)
        c.prove('with the message', len(out.exc.args) == 1 and c.truth(c.eq(out.exc.args[0], text)))
    c.prove('recorded exactly when the condition is false and the politic says so', c.iff(len(rec) == 1, recorded))
    c.prove('at most one record', len(rec) <= 1)
    if len(rec) == 1:
        c.prove('the message', c.eq(rec.field(0, 'message'), text))
        c.prove('a failure', rec.field(0, 'success') is False)
        c.prove('the type', rec.field(0, 'exception_type') == 'AssertionError')
        c.prove('the message of the exception', c.eq(rec.field(0, 'exception_message'), text))
        c.prove('the level of errors', c.eq(rec.field(0, 'level'), level))


@contract('C19', T)
def with_message(c):
    """ass(condition, message) for any condition and any message"""
    debug, everything, rec, level = prepare(c)
    x, holds = condition(c)
    m = c.any('m', ('none', 'bool', 'int', 'float', 'str'))
    out = c.run(c.get('polog:ass'), x, m)
    verdict(c, debug, everything, rec, level, out, holds, c.strof(m))


@contract('C19', T)
def without_message(c):
    """ass(condition): the message is the condition itself"""
    debug, everything, rec, level = prepare(c)
    x, holds = condition(c)
    out = c.run(c.get('polog:ass'), x)
    verdict(c, debug, everything, rec, level, out, holds, c.strof(x))


@contract('C19', T)
def unprintable(c):
    """objects which cannot be turned into text do not change the verdict"""
    debug, everything, rec, level = prepare(c)
    bad = Unprintable()
    how = c.choose('how', ['message', 'condition', 'both', 'message of a true condition'])
    a = {'message': (0, bad), 'condition': (bad,), 'both': (bad, bad), 'message of a true condition': (1, bad)}[how]
    out = c.run(c.get('polog:ass'), *a)
    text = '0' if how == 'message' else '1' if how == 'message of a true condition' else None
    if text is None:
        got = [t for t in ([rec.field(0, 'message')] if len(rec) else []) + ([out.exc.args[0]] if out.exc is not None else [])]
        c.prove('some text', all(isinstance(t, str) and t for t in got))
        text = got[0] if got else ''
    verdict(c, debug, everything, rec, level, out, how == 'message of a true condition', text)


@contract('C19', T)
def extra_arguments(c):
    """more than one message is refused, or, when errors are silent, the first one is used"""
    debug, everything, rec, level = prepare(c)
    silent = symbolic_bools(c, 'silent_internal_exceptions')['silent_internal_exceptions']
    holds = c.choose('holds', [False, True])
    out = c.run(c.get('polog:ass'), holds, 'one', 'two')
    if c.truth(silent):
        verdict(c, debug, everything, rec, level, out, holds, 'one')
    else:
        c.prove('refused', type(out.exc) is TypeError)
        c.prove('nothing is recorded', len(rec) == 0)


@contract('C19', T)
def repeated(c):
    """a sequence of asserts with the settings changed in between: each one follows the settings of its moment"""
    debug, everything, rec, level = prepare(c)
    want = 0
    for i in range(2):
        holds = c.choose('holds %d' % i, [False, True])
        d = c.choose('debug %d' % i, [False, True])
        p = c.choose('politic %d' % i, ['all', 'if_debug'])
        setting(c, debug_mode=d, smart_assert_politic=p)
        out = c.run(c.get('polog:ass'), holds, 'm%d' % i)
        c.prove('raises exactly when false in the debug mode', out.ok is not (d and not holds))
        if not holds and (p == 'all' or not d):
            want += 1
        c.prove('recorded as the politic says', len(rec) == want)
        if len(rec):
            c.prove('its message', not (not holds and (p == 'all' or not d)) or rec.field(want - 1, 'message') == 'm%d' % i)
