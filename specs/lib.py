"""Helpers shared by the contracts."""
PYVC_TRUSTED = True
from pyvc.common import *


MISSING = 'no such record'


class Rec:
    """Everything the handlers have received."""
    pv_ghost = True

    def __init__(self):
        self.items = []
        self.warming = False

    def __len__(self):
        return len(self.items)

    def field(self, i, name, default=None):
        if i >= len(self.items):
            return MISSING
        return self.items[i].get(name, default)


def polog(c):
    return c.mod('polog')


def capture(c, raising=False, name='capture', fresh=False):
    """Registers a global handler through the public API; returns the list of what it receives."""
    rec = Rec()
    config = c.get('polog:config')

    def handler(item):
        rec.items.append(item)
        if raising and not rec.warming and c.choose('%s raises %d' % (name, len(rec.items)), [False, True]):
            if raising == 'simple':
                raise UserError('handler failed')
            if raising == 'base':
                raise c.choose('%s class' % name, [UserError, UserBase, KeyboardInterrupt, SystemExit])('handler failed')
            raise c.exception('%s exc %d' % (name, len(rec.items)), exotic=False)
    config.add_handlers(handler)
    if not fresh:
        used(c, rec)
    return rec


def used(c, rec=None):
    """The program has or has not worked before; by the lemmas of specs/frame.py (records leave no trace) one earlier operation of each kind stands for any number of them."""
    if c.choose('history', ['nothing before', 'records before']) == 'records before':
        if rec is not None:
            rec.warming = True
        earlier_operations(c)
        if rec is not None:
            rec.warming = False
            del rec.items[:]


def earlier_operations(c):
    """One operation of every kind: a decorated call that edits its record, a failing one, an unlogged one, blocks, a manual record."""
    log, message, unlog = c.get('polog:log'), c.get('polog:message'), c.get('polog:unlog')

    def edits():
        message('earlier')

    def fails():
        raise UserError('earlier')

    def blocks():
        with log:
            with log('earlier'):
                pass
    for f in (log(edits), log(fails), unlog(edits), blocks):
        c.run(f)
    plain(c, 'earlier')


def setting(c, **kw):
    config = c.get('polog:config')
    for k, v in kw.items():
        out = c.run(config.set, **{k: v})
        if not out.ok:
            if c.symbolic:
                c.c.unsupported('config.set(%s) failed in the set-up of a contract: %r' % (k, out.exc))
            raise RuntimeError('config.set(%s): %r' % (k, out.exc))


def symbolic_bools(c, *names):
    d = {}
    for n in names:
        d[n] = c.bool(n)
        setting(c, **{n: d[n]})
    return d


def user_function(c, name='f', kind='sync', raises='any', base=True, exotic=True, body=None, result=None):
    """A user function with an arbitrary outcome.  Returns (function, calls); calls: list of dicts args/kwargs/outcome."""
    calls = []

    def outcome(args, kwargs):
        call = {'args': args, 'kwargs': kwargs}
        calls.append(call)
        if body is not None:
            body(len(calls) - 1)
        n = '%s#%d' % (name, len(calls))
        if isinstance(raises, type):
            call['exc'] = raises('raised by %s' % n)
            raise call['exc']
        if raises == 'any' and c.choose(n + ' raises', [False, True]) or raises is True:
            call['exc'] = c.exception(n + ' exc', base=base, exotic=exotic, coro=kind == 'async')
            raise call['exc']
        call['ret'] = result if result is not None else c.any(n + ' ret')
        return call['ret']

    if kind == 'async':
        async def f(*args, **kwargs):
            return outcome(args, kwargs)
    else:
        def f(*args, **kwargs):
            return outcome(args, kwargs)
    f.__name__ = name
    f.__qualname__ = name
    return f, calls


def plain(c, *a, **k):
    """log(...) as a plain call: the returned object is dropped at once."""
    log = c.get('polog:log')
    out = c.run(log, *a, **k)
    r = Outcome(out.ok, None, out.exc)
    del out
    if c.symbolic:
        c.c.chk()
    return r


def a_level(c, name, kinds=('none', 'int', 'name')):
    """A level argument: (what is passed or None, its number or None)."""
    config = c.get('polog:config')
    how = c.choose(name + ' given as', list(kinds))
    if how == 'none':
        return None, None
    v = c.int(name, lo=0)
    if how == 'int':
        return v, v
    if how == 'name':
        config.levels(**{name: v})
        return name, v
    if how == 'renamed':
        config.levels(**{name: c.int(name + ' old', lo=0)})
        config.levels(**{name: v})
        return name, v
    if how == 'unknown':
        return 'unknown_level_name', None
    if how == 'negative':
        n = c.int(name + ' negative')
        c.assume(n < 0)
        return n, None
    raise AssertionError(how)


def given(**kw):
    return {k: v for k, v in kw.items() if v is not None}


def delivered_iff(c, rec, cond):
    c.prove('delivered exactly when its level reaches the threshold', c.iff(len(rec) == 1, cond))
    c.prove('at most one record', len(rec) <= 1)
