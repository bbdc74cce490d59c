"""C03 - handler delivery and isolation."""
PYVC_TRUSTED = True
from pyvc.common import *


@contract('C03', ['polog.core.log_item:LogItem.__call__', 'polog.core.log_item:LogItem.call_handlers', 'polog.core.log_item:LogItem.call_one_handler'])
def every_handler_once_in_order(c):
    """for any number of handlers, any of which may raise: each is called exactly once, in order, with the item; nothing escapes"""
    LogItem = c.get('polog.core.log_item:LogItem')
    item = LogItem()
    g = Counter(c)
    def make(i):
        def handler(log):
            g.step(i)
            c.prove('handler receives the item itself', log is item)
            if c.symbolic:
                if c.c.choose(2, 'handler raises') == 1:
                    raise c.exception('exc', exotic=False)
                return c.any('ret')
            if c.choose('raises%s' % i, [False, True]):
                raise c.exception('exc%s' % i, exotic=False)
        return handler
    hs = c.seq('handlers', make, inv=lambda i: [('handlers called so far', g.at(i))], havoc=g.havoc, sym_elem=make)
    item.set_data(c.dict(time=None))
    item.set_handlers(hs)
    out = c.run(item)
    c.prove('delivery never raises', out.ok)
    c.prove('every handler called exactly once, in order', c.eq(g.n, c.seqlen(hs)))


class Counter:
    """ghost: how many handlers have been called; each call must be to the next one"""
    pv_ghost = True
    def __init__(self, c):
        self.c, self.n = c, 0
    def step(self, i):
        c = self.c
        if c.symbolic:
            import z3
            from pyvc.vals import SymInt
            i = SymInt(i) if not isinstance(i, int) else i
        c.prove('handlers are called in registration order, once each', c.eq(self.n, i))
        self.n = self.n + 1
    def at(self, i):
        from pyvc.vals import _numterm
        return _numterm(self.n)[0] == i
    def havoc(self):
        import z3
        from pyvc.vals import SymInt
        self.n = SymInt(z3.Int(self.c.c.fresh('called')))
        return [self]


# ---------------------------------------------------------------------------------------------- through the public API
from specs.lib import setting, plain, user_function

REG = ['polog.config:config.add_handlers', 'polog.config:config.set_handler', 'polog.config:config.delete_handlers', 'polog.core.log_item:LogItem.call_handlers',
       'polog.core.log_item:LogItem.call_one_handler', 'polog.core.engine.engine:Engine.write']


class Receiver:
    """A handler that counts; may raise on any call (every exception class is covered by every_handler_once_in_order)."""
    pv_ghost = True

    def __init__(self, c, name, raises=True):
        self.items = []

        def handler(item):
            self.items.append(item)
            if raises and c.choose('%s raises %d' % (name, len(self.items)), [False, True]):
                raise UserError('handler failed')
        self.h = handler


def write(c, how, **kw):
    """One record, through each of the ways to write it."""
    log = c.get('polog:log')
    if how == 'plain':
        out = plain(c, 'message', **kw)
    elif how == 'decorator':
        f, calls = user_function(c, raises=False, result=1)
        out = c.run(log(**kw)(f))
    elif how == 'error':
        def f():
            raise UserError('x')
        out = c.run(log(**kw)(f))
        out = Outcome(isinstance(out.exc, UserError), None, out.exc)
    else:
        def use():
            with log('message', **kw):
                pass
        out = c.run(use)
    c.prove('writing a record never raises because of handlers', out.ok)


WAYS = ['plain', 'decorator', 'error', 'with']


@contract('C03', REG)
def every_registered_handler(c):
    """handlers registered in every form (positional, named, by a mapping, under dotted names): each record reaches each of them exactly once, as one object, whoever raises"""
    config = c.get('polog:config')
    rs = [Receiver(c, 'h%d' % i) for i in range(3)]
    forms = ['positional', 'named', 'dict', 'dotted', 'deep', 'child and parent', 'parent and child']
    form = c.choose('form', forms)
    a, b, d = (r.h for r in rs)
    if form == 'positional':
        config.add_handlers(a, b, d)
    elif form == 'named':
        config.add_handlers(a, lol=b, kek=d)
    elif form == 'dict':
        config.add_handlers({'lol': a, 'kek': b}, d)
    elif form == 'dotted':
        config.add_handlers({'lol.a': a, 'lol.b': b, 'kek': d})
    elif form == 'deep':
        config.add_handlers({'x.y.z': a})
        config.add_handlers({'x.y.w': b}, {'x.q': d})
    elif form == 'child and parent':
        config.add_handlers({'x.y': a})
        config.add_handlers({'x': b, 'x.y.z': d})
    else:
        config.add_handlers({'x': a, 'x.y': b, 'x.y.z': d})
    n = c.choose('records', [1, 2])
    for i in range(n):
        write(c, c.choose('way %d' % i, ['plain', 'decorator'] if n == 2 else WAYS))
    c.prove('each handler receives each record exactly once', all(len(r.items) == n for r in rs))
    c.prove('all handlers receive the same record', all(r.items[i] is rs[0].items[i] for r in rs for i in range(n)))


@contract('C03', REG)
def deleted_handlers(c):
    """a deleted handler (by name or by object) receives nothing more; the others still receive everything"""
    config = c.get('polog:config')
    rs = [Receiver(c, 'h%d' % i, raises=False) for i in range(5)]
    config.add_handlers(rs[0].h, {'x.y': rs[1].h, 'x.y.z': rs[2].h, 'q': rs[3].h, 'q.w.e': lambda item: None}, lol=rs[4].h)
    how = c.choose('delete', ['object', 'name', 'leaf', 'parent', 'two', 'none', 'unknown', 'no such name', 'empty node'])
    gone = {'object': [0], 'name': [4], 'leaf': [1], 'parent': [3], 'two': [4, 0], 'none': [], 'unknown': [], 'no such name': [], 'empty node': []}[how]
    if c.choose('record before', [False, True]):
        write(c, 'plain')
        c.prove('all receive the record written before the deletion', all(len(r.items) == 1 for r in rs))
    before = [len(r.items) for r in rs]
    args = {'object': [rs[0].h], 'name': ['lol'], 'leaf': ['x.y'], 'parent': ['q'], 'two': ['lol', rs[0].h], 'none': [], 'unknown': [lambda item: None], 'no such name': ['kek'], 'empty node': ['x']}[how]
    out = c.run(config.delete_handlers, *args)
    c.prove('an unknown handler cannot be deleted, a known one can', out.ok == (how not in ('unknown', 'no such name', 'empty node')))
    write(c, c.choose('way', WAYS))
    for i, r in enumerate(rs):
        if i in gone:
            c.prove('a deleted handler receives nothing more', len(r.items) == before[i])
        else:
            c.prove('a handler that stays receives the record exactly once', len(r.items) == before[i] + 1)


@contract('C03', ['polog.loggers.auto.function_logger:FunctionLogger.get_handlers', 'polog.data_structures.trees.named_tree.projector:TreeProjector.on'] + REG)
def local_handlers(c):
    """handlers=[...] of a decorator: the record goes to the listed handlers and the named subtrees only, to each exactly once"""
    config = c.get('polog:config')
    log = c.get('polog:log')
    g = [Receiver(c, 'g%d' % i) for i in range(4)]
    l = [Receiver(c, 'l%d' % i) for i in range(2)]
    config.add_handlers(g[0].h, {'x.y': g[1].h, 'x.z': g[2].h}, lol=g[3].h)
    lists = {
        'empty': ([], [], []),
        'own': ([l[0].h], [l[0]], []),
        'two': ((l[0].h, l[1].h), [l[0], l[1]], []),
        'named': (['lol'], [g[3]], []),
        'own and named': ([l[0].h, 'lol'], [l[0], g[3]], []),
        'named and own': (('lol', l[0].h, 'x.y'), [g[3], l[0], g[1]], []),
        'subtree': (['x'], [g[1], g[2]], []),
        'subtree and leaf': (['x.z', l[1].h], [g[2], l[1]], []),
    }
    which = c.choose('handlers', sorted(lists))
    arg, want, _ = lists[which]
    fails = c.choose('fails', [False, True])

    def f():
        if fails:
            raise UserError('x')
    d = log(handlers=arg)(f)
    n = c.choose('records', [1, 2])
    for i in range(n):
        out = c.run(d)
        c.prove('the call ends as without handlers', out.ok == (not fails))
    for r in g + l:
        c.prove('exactly the chosen handlers receive the record, once each', len(r.items) == (n if r in want else 0))


@contract('C03', ['polog.loggers.auto.function_logger:FunctionLogger.get_handlers'])
def wrong_local_handlers(c):
    """handlers= that is not a list or a tuple of handlers and names is refused at decoration time"""
    log = c.get('polog:log')
    arg = c.choose('arg', [5, 'lol', {'a': lambda item: None}, [5], [lambda: None], [lambda a, b: None], (None,), [lambda item: None, lambda a, b: None]])
    def f():
        return 1
    out = c.run(lambda: log(handlers=arg)(f))
    c.prove('wrong handlers are refused', not out.ok)


class Plain:
    """A handler that is an object; or handles by its bound method."""
    def __init__(self, kind):
        self.kind, self.items = kind, []

    def __call__(self, item):
        self.items.append(item)

    def method(self, item):
        self.items.append(item)


class Falsy(Plain):
    def __bool__(self):
        return False


class Empty(Plain):
    def __len__(self):
        return 0


class Equal(Plain):
    def __eq__(self, other):
        return isinstance(other, Plain)

    def __hash__(self):
        return 1


UNUSUAL = {'false': Falsy, 'empty': Empty, 'equal': Equal, 'method': Plain}


@contract('C03', REG + ['polog.data_structures.trees.named_tree.walker:TreeWalker.bfs_values', 'polog.config:config.delete_handlers'])
def unusual_handlers(c):
    """handlers that are objects which are false, empty or equal to each other, and bound methods: the same rules hold"""
    config = c.get('polog:config')
    log = c.get('polog:log')
    kinds = ['false', 'empty', 'equal', 'method']
    rs = [UNUSUAL[k](k) for k in (c.choose('first', kinds), c.choose('second', kinds), 'equal')]
    hs = [r.method if r.kind == 'method' else r for r in rs]
    form = c.choose('form', ['positional', 'named', 'dotted', 'local'])
    if form == 'positional':
        config.add_handlers(*hs)
    elif form == 'named':
        config.add_handlers(a=hs[0], b=hs[1], c=hs[2])
    elif form == 'dotted':
        config.add_handlers({'x': hs[0], 'x.y': hs[1], 'x.y.z': hs[2]})
    else:
        d = log(handlers=hs)(lambda: None)
        c.run(d)
        c.prove('each of the local handlers receives the record once', all(len(r.items) == 1 for r in rs))
        return
    write(c, c.choose('way', ['plain', 'decorator']))
    c.prove('each handler receives the record exactly once', all(len(r.items) == 1 for r in rs))
    gone = c.choose('deleted', [0, 1, 2])
    if form == 'named':
        config.delete_handlers('abc'[gone])
    elif form == 'dotted':
        config.delete_handlers(['x', 'x.y', 'x.y.z'][gone])
    else:
        config.delete_handlers(hs[gone])
    write(c, 'plain')
    for i, r in enumerate(rs):
        c.prove('only the deleted one receives nothing more', len(r.items) == (1 if i == gone else 2))


@contract('C03', ['polog.data_structures.trees.named_tree.walker:TreeWalker.bfs', 'polog.data_structures.trees.named_tree.walker:TreeWalker.bfs_values'] + REG, mode='concrete', cases=600)
def concurrent_registering(c):
    """BOUNDED (two threads, one preemption at any executed line): while one thread writes a record another adds or deletes a handler; the handlers registered throughout get the record exactly once"""
    config = c.get('polog:config')
    log = c.get('polog:log')
    rs = [Receiver(c, 'h%d' % i, raises=False) for i in range(3)]
    other = Receiver(c, 'other', raises=False)
    config.add_handlers({'x.y': rs[0].h, 'x.z': rs[1].h}, rs[2].h)
    act = c.choose('act', ['add', 'add nested', 'delete'])
    if act == 'delete':
        config.add_handlers({'x.q': other.h})
    acts = {'add': lambda: config.add_handlers(other.h), 'add nested': lambda: config.add_handlers({'x.w': other.h}), 'delete': lambda: config.delete_handlers('x.q')}
    how = c.choose('how', ['plain', 'decorator'])

    @log
    def f():
        pass
    a, b = c.interleave('write', (lambda: log('m') and None) if how == 'plain' else f, acts[act], points=90, only=('named_tree', 'log_item'))
    c.prove('both end', a is not None and b is not None and a.ok and b.ok)
    c.prove('each handler registered throughout gets the record exactly once', all(len(r.items) == 1 for r in rs))
    c.prove('the other one gets it at most once', len(other.items) <= 1)
