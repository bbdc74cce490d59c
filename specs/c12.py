"""C12 - the registry of handlers is a map of dotted names, and local scopes are live views of it."""
PYVC_TRUSTED = True
from specs.lib import *

NT = 'polog.data_structures.trees.named_tree.tree:NamedTree'
T = [NT + '.__setitem__', NT + '.__getitem__', NT + '.__delitem__', NT + '.get', NT + '.search_node', NT + '.search_or_create_node', NT + '.create_child', NT + '.cut_empty_branch',
     NT + '.get_converted_keys', NT + '.put_node', 'polog.config:config.add_handlers', 'polog.config:config.set_handler', 'polog.config:config.delete_handlers', 'polog.config:config.get_handlers',
     'polog.data_structures.trees.named_tree.projector:TreeProjector.on', 'polog.data_structures.trees.named_tree.walker:TreeWalker.bfs_values']
NAMES = ['a', 'a.b', 'a.b.c', 'd']
STATES = ['absent', 'registered', 'projected', 'registered, projected, deleted', 'projected, then registered', 'registered, then projected']
ASSUMPTIONS = ['histories are decided over a universe of four names (a chain of three nested names and one separate name): every state of every name x one further operation; names are treated uniformly by the code']


class World:
    """The oracle: a plain dictionary name -> handler, and the local scopes."""
    pv_ghost = True

    def __init__(self, c):
        self.c = c
        self.map = {}
        self.scopes = []
        self.handlers = {}
        self.got = {}

    def handler(self, name, again=0):
        k = (name, again)
        if k not in self.handlers:
            def handler(item):
                self.got.setdefault(k, []).append(item)
            self.handlers[k] = handler
        return self.handlers[k]

    def scope(self, names):
        log = self.c.get('polog:log')

        def f():
            pass
        self.scopes.append((names, log(handlers=list(names))(f)))

    def under(self, names):
        return {k for k in self.map.values() if any(self.name_of(k) == n or self.name_of(k).startswith(n + '.') for n in names)}

    def name_of(self, k):
        return k[0]


def check(c, w):
    config = c.get('polog:config')
    tree = config.get_handlers()
    c.prove('the number of handlers', len(tree) == len(w.map))
    for n in NAMES:
        if n in w.map:
            out = c.run(lambda: tree[n])
            c.prove('a registered handler is found under its name', out.ok and out.value is w.handlers[w.map[n]])
        else:
            c.prove('a name without a handler finds nothing', c.run(lambda: tree[n]).raised(KeyError))
    c.prove('iteration gives exactly the registered handlers', sorted(id(h) for h in tree) == sorted(id(w.handlers[k]) for k in w.map.values()))
    # delivery: the global scope and every local one
    log = c.get('polog:log')
    w.got.clear()
    plain(c, 'message')
    c.prove('a record of the global scope goes to every handler once', {k: len(v) for k, v in w.got.items()} == {k: 1 for k in w.map.values()})
    for names, f in w.scopes:
        w.got.clear()
        out = c.run(f)
        c.prove('a record of a local scope goes exactly to the handlers now registered under its names, once each', out.ok and {k: len(v) for k, v in w.got.items()} == {k: 1 for k in w.under(names)})
    w.got.clear()


def operation(c, w, tag='', ops=('add', 'delete', 'scope', 'two at once')):
    config = c.get('polog:config')
    op = c.choose('operation' + tag, list(ops))
    name = c.choose('name' + tag, NAMES)
    if op == 'add':
        k = (name, 1)
        form = 'dict' if '.' in name else c.choose('form' + tag, ['dict', 'named'])
        h = w.handler(*k)
        out = c.run(config.add_handlers, {name: h}) if form == 'dict' else c.run(config.add_handlers, **{name: h})
        c.prove('a name that is taken is refused, a free one is accepted', out.raised(NameError) if name in w.map else out.ok)
        if name not in w.map:
            w.map[name] = k
    elif op == 'delete':
        out = c.run(config.delete_handlers, name)
        c.prove('only a registered handler can be deleted', out.ok == (name in w.map))
        w.map.pop(name, None)
    elif op == 'two at once':
        second = c.choose('second' + tag, ['d', 'a.b'])
        if second != name:
            a, b = w.handler(name, 2), w.handler(second, 2)
            out = c.run(config.add_handlers, {name: a, second: b})
            if name not in w.map and second not in w.map:
                c.prove('two free names are accepted', out.ok)
                w.map[name], w.map[second] = (name, 2), (second, 2)
            else:
                c.prove('a name that is taken is refused', out.raised(NameError))
                if name not in w.map:
                    w.map[name] = (name, 2)
    else:
        w.scope([name])


@contract('C12', T)
def any_state_one_step(c):
    """from every state of four names (each absent, registered, projected into a local scope, or both, in either order), one operation: the registry and every local scope agree with the map"""
    config = c.get('polog:config')
    w = World(c)
    for n in NAMES:
        state = c.choose('state of ' + n, STATES if n in ('a', 'a.b') else STATES[:4])
        if state in ('projected', 'projected, then registered'):
            w.scope([n])
        if 'registered' in state:
            config.add_handlers({n: w.handler(n)})
            w.map[n] = (n, 0)
        if state in ('registered, then projected', 'registered, projected, deleted'):
            w.scope([n])
        if state == 'registered, projected, deleted':
            config.delete_handlers(n)
            del w.map[n]
    operation(c, w, ops=('add', 'delete', 'scope'))
    check(c, w)


@contract('C12', T)
def order_of_registering(c):
    """the same handlers registered in any order give the same registry; deleting all of them in any order empties it"""
    config = c.get('polog:config')
    w = World(c)
    left = list(NAMES)
    while left:
        n = left.pop(c.choose('next %d' % len(left), list(range(len(left)))))
        config.add_handlers({n: w.handler(n)})
        w.map[n] = (n, 0)
    check(c, w)
    left = list(NAMES)
    while len(left) > 1:
        n = left.pop(c.choose('next deleted %d' % len(left), list(range(len(left)))))
        out = c.run(config.delete_handlers, n)
        c.prove('deleted', out.ok)
        del w.map[n]
    check(c, w)


@contract('C12', T)
def scopes(c):
    """local scopes with several names, nested names and own handlers; then any one change of the registry"""
    config = c.get('polog:config')
    log = c.get('polog:log')
    w = World(c)
    for n in ('a.b', 'd') if c.choose('registered before', [False, True]) else ():
        config.add_handlers({n: w.handler(n)})
        w.map[n] = (n, 0)
    w.scope(c.choose('names', [['a', 'd'], ['a.b', 'a'], ['a', 'a.b'], ['a.b', 'a.b.c'], ['d', 'd'], ['a.b.c', 'd']]))
    operation(c, w)
    operation(c, w, ' 2', ops=('add', 'delete'))
    check(c, w)


@contract('C12', [NT + '.__setitem__', NT + '.get_converted_keys', 'polog.config:config.add_handlers'])
def wrong_names_and_values(c):
    """a wrong name or a value that is not a handler is refused, and the registry does not change"""
    config = c.get('polog:config')
    w = World(c)
    config.add_handlers({'a.b': w.handler('a.b')})
    w.map['a.b'] = ('a.b', 0)
    h = w.handler('d')
    case = c.choose('case', ['name', 'value', 'not a string', 'same object'])
    if case == 'name':
        n = c.choose('wrong name', ['', 'a b', '1', 'a.', '.a', 'a..b', 'a-b', 'a.1', '..', 'a.b.', ' a'])
        out = c.run(config.add_handlers, {n: h})
    elif case == 'value':
        v = c.choose('wrong value', [None, 5, 'lol', lambda: None, lambda a, b: None, object()])
        out = c.run(config.add_handlers, {c.choose('under', ['d', 'a', 'a.b.c']): v})
    elif case == 'not a string':
        out = c.run(config.add_handlers, {c.choose('key', [5, None, ('a',)]): h})
    else:
        config.add_handlers(d=h)
        w.map['d'] = ('d', 0)
        out = c.run(config.add_handlers, h)
    c.prove('refused', not out.ok)
    check(c, w)


@contract('C12', T + ['polog.core.utils.pony_names_generator:PonyNamesGenerator.get_next_pony'])
def unnamed_handlers(c):
    """handlers registered without names: all of them are kept, each can be deleted by itself, the same object cannot be registered twice"""
    config = c.get('polog:config')
    n = c.choose('number', [1, 2, 5, 40] if c.symbolic else [1, 2, 5, 40, 100, 200])
    hs = []
    for i in range(n):
        def h(item, i=i):
            pass

        def h1(item):
            pass
        hs.append(h1)
    at_once = c.choose('at once', [False, True])
    if at_once:
        out = c.run(config.add_handlers, *hs)
        c.prove('accepted', out.ok)
    else:
        for h in hs:
            c.prove('accepted', c.run(config.add_handlers, h).ok)
    tree = config.get_handlers()
    c.prove('all of them are kept', sorted(map(id, tree)) == sorted(map(id, hs)))
    c.prove('the same object is refused', c.run(config.add_handlers, hs[0]).raised(ValueError))
    c.prove('nothing changed', len(tree) == n)
    gone = hs.pop(c.choose('gone', [0, n // 2, n - 1]))
    c.prove('deleted', c.run(config.delete_handlers, gone).ok)
    c.prove('the others are kept', sorted(map(id, tree)) == sorted(map(id, hs)))
    c.prove('it cannot be deleted twice', not c.run(config.delete_handlers, gone).ok)


@contract('C12', T)
def deleting_by_object(c):
    """a handler at the top level can be deleted by the object itself; a nested or unknown one is refused, and nothing else is touched"""
    config = c.get('polog:config')
    w = World(c)
    for n in NAMES + ['b']:
        if c.choose('registered ' + n, [False, True]):
            config.add_handlers({n: w.handler(n)})
            w.map[n] = (n, 0)
    which = c.choose('deleted', NAMES + ['b', 'another'])
    out = c.run(config.delete_handlers, w.handler(which))
    if which in w.map and '.' not in which:
        c.prove('deleted', out.ok)
        del w.map[which]
    else:
        c.prove('refused', out.raised(ValueError))
    check(c, w)


@contract('C12', T)
def several_at_once(c):
    """several handlers are added and deleted by one call: each of them, in the order given"""
    config = c.get('polog:config')
    w = World(c)
    names = c.choose('names', [('d', 'a'), ('a', 'a.b'), ('a.b', 'a'), ('a.b.c', 'd', 'a')])
    form = c.choose('form', ['dict', 'dicts', 'named and dict'])
    if form == 'dict':
        out = c.run(config.add_handlers, {n: w.handler(n) for n in names})
    elif form == 'dicts':
        out = c.run(config.add_handlers, *[{n: w.handler(n)} for n in names])
    else:
        out = c.run(lambda: config.add_handlers({n: w.handler(n) for n in names if '.' in n}, **{n: w.handler(n) for n in names if '.' not in n}))
    c.prove('accepted', out.ok)
    for n in names:
        w.map[n] = (n, 0)
    check(c, w)
    gone = c.choose('gone', [names, names[:2], names[1:], names[::-1]])
    how = c.choose('how', ['names', 'objects where possible'])
    out = c.run(config.delete_handlers, *[w.handlers[w.map[n]] if how != 'names' and '.' not in n else n for n in gone])
    c.prove('deleted', out.ok)
    for n in gone:
        del w.map[n]
    check(c, w)


def is_prefix(c, a, b):
    return len(a) <= len(b) and c.truth(c.and_(*[c.eq(x, y) for x, y in zip(a, b)]))


@contract('C12', T)
def any_names(c):
    """for all identifiers, equal or not, in names of up to three parts: two handlers, one local scope, one deleted handler agree with the map"""
    config = c.get('polog:config')
    log = c.get('polog:log')
    x, y, z = c.ident('x'), c.ident('y'), c.ident('z')
    shapes = {'x': [x], 'y': [y], 'x.y': [x, y], 'x.z': [x, z], 'y.x': [y, x], 'x.y.z': [x, y, z], 'z.y.x': [z, y, x]}
    reg = []
    got = []
    scope = shapes[c.choose('scope', ['x', 'x.y', 'x.y.z'])]
    early = c.choose('scope first', [False, True])

    def f():
        pass
    fs = []

    def add(i):
        parts = shapes[c.choose('name %d' % i, ['x', 'x.y', 'x.y.z'] if i == 0 else ['y', 'x.z', 'y.x', 'z.y.x', 'x.y.z'])]

        def handler(item):
            got.append(i)
        d = c.dict()
        d[c.dotted(parts)] = handler
        taken = any(is_prefix(c, parts, p) and len(parts) == len(p) for p, _, _ in reg)
        out = c.run(config.add_handlers, d)
        c.prove('a name that is taken is refused, a free one is accepted', out.raised(NameError) if taken else out.ok)
        if not taken:
            reg.append((parts, i, handler))

    def look():
        tree = config.get_handlers()
        c.prove('the number of handlers', len(tree) == len(reg))
        for p, i, h in reg:
            out = c.run(lambda: tree[c.dotted(p)])
            c.prove('a registered handler is found under its name', out.ok and out.value is h)
        got.clear()
        plain(c, 'message')
        c.prove('a record of the global scope goes to every handler once', sorted(got) == sorted(i for _, i, _ in reg))
        for g in fs:
            got.clear()
            out = c.run(g)
            c.prove('a record of the local scope goes exactly to the handlers under its name, once each', out.ok and sorted(got) == sorted(i for p, i, _ in reg if is_prefix(c, scope, p)))
    if early:
        fs.append(log(handlers=[c.dotted(scope)])(f))
    add(0)
    if not early:
        fs.append(log(handlers=[c.dotted(scope)])(f))
    add(1)
    look()
    gone = c.choose('gone', [0, 1, 'another'])
    if gone == 'another':
        parts = shapes[c.choose('another name', ['y', 'x.z', 'z.y.x'])]
    elif len(reg) > gone:
        parts = reg[gone][0]
    else:
        return
    there = [r for r in reg if is_prefix(c, parts, r[0]) and len(parts) == len(r[0])]
    out = c.run(config.delete_handlers, c.dotted(parts))
    c.prove('only a registered handler can be deleted', out.ok if there else out.raised(KeyError))
    for r in there:
        reg.remove(r)
    look()
