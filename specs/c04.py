"""C04 - extraction of extra fields."""
PYVC_TRUSTED = True
from specs.lib import *

LI = 'polog.core.log_item:LogItem'


class FieldObj:
    pv_ghost = True

    def __init__(self, fn):
        self.fn = fn

    def get_data(self, item):
        return self.fn(item)


class Val:
    def __init__(self, label):
        self.label = label


def make_fields(c, item_box, watch):
    """A mapping with an arbitrary number of fields; field number `watch.k` has the watched name."""
    if not c.symbolic:
        n = c.choose('n', list(range(8)))
        k = watch.k = c.choose('k', [0, 1, 2, 3])
        d = {}
        for i in range(n):
            raises = watch.raises if i == k else c.choose('raises%d' % i, [False, True])
            value = watch.new if i == k else Val('v%d' % i)
            d['field%d' % i] = FieldObj(make_extractor(c, item_box, raises, value, i))
        watch.n = n
        watch.name = 'field%d' % k
        return d
    import z3
    from pyvc.vals import SymStr, SymSeq, SymInt
    fname = z3.Function('fname', z3.IntSort(), z3.StringSort())
    k = z3.Int('k')
    watch.kt = k
    c.c.add(k >= 0)
    watch.name = SymStr(fname(k))

    def elem(i, nm=None):
        t = i if not isinstance(i, int) else z3.IntVal(i)
        c.c.add(z3.Implies(t != k, fname(t) != fname(k)))
        is_k = c.truth(SymInt(t) == SymInt(k))
        if is_k:
            return (watch.name, FieldObj(make_extractor(c, item_box, watch.raises, watch.new, i)))
        raises = c.c.choose(2, 'another extractor raises') == 1
        return (SymStr(fname(t)), FieldObj(make_extractor(c, item_box, raises, Val('other'), i)))
    seq = SymSeq('fields', elem, inv=watch.inv, havoc=watch.havoc)
    seq.sym_elem = elem
    seq.frame = None
    watch.n = SymInt(seq.n)

    class Fields:
        pv_ghost = True

        def items(self):
            return seq
    return Fields()


def make_extractor(c, item_box, raises, value, i):
    def extractor(item):
        c.prove('the extractor receives the item', item is item_box[0])
        if raises:
            raise c.exception('extractor exc', exotic=False) if not c.symbolic else UserError('extractor')
        return value
    return extractor


class Watch:
    """Ghost: the content of the record under one arbitrary field name.  0: the old value, 1: the extracted value, 2: absent."""
    pv_ghost = True

    def __init__(self, c):
        self.c = c
        self.old, self.new = Val('old'), Val('new')
        self.present = c.choose('field is already there', [False, True])
        self.raises = c.choose('watched extractor raises', [False, True])
        self.inter = c.bool('fields_intersection')
        setting(c, fields_intersection=self.inter)
        self.init = 0 if self.present else 2
        self.data = None

    def code(self):
        d = self.data
        if self.name not in d:
            return 2
        v = d[self.name]
        return 0 if v is self.old else 1 if v is self.new else 3

    def expected(self):
        c = self.c
        if self.raises:
            return self.init
        if not self.present:
            return 1
        return c.ite(self.inter, 1, 0)

    def inv(self, i):
        import z3
        from pyvc.vals import zint_or_const
        e = zint_or_const(self.expected())
        return [('content under the watched name', z3.IntVal(self.code()) == z3.If(i <= self.kt, z3.IntVal(self.init), e))]

    def havoc(self):
        c = self.c
        from pyvc import vals

        def base(key):
            if c.truth(c.eq(key, self.name)):
                j = c.c.choose(3, 'watched content')
                return [self.old, self.new, vals.ABSENT][j]
            return vals.ABSENT if c.c.choose(2, 'other name present') else Val('other content')
        self.data._a = []
        self.data._base = base
        return [self.data]


def extraction(c, via):
    LogItem = c.get(LI)
    item = LogItem()
    w = Watch(c)
    fields = make_fields(c, [item], w)
    w.data = c.dict()
    if w.present:
        w.data[w.name] = w.old
    item.set_data(w.data)
    seen = []
    if via == 'engine':
        item.set_extra_fields(fields)
        item.set_handlers([lambda it: seen.append(it)])
        out = c.run(item)
        c.prove('handlers run after the extraction', len(seen) == 1)
    else:
        out = c.run(item.extract_extra_fields_from, fields)
    c.prove('extraction never raises', out.ok)
    inside = w.n > (w.k if not c.symbolic else _si(w.kt))
    c.prove('the field holds the extracted value, unless the name was taken or the extractor failed',
            c.eq(w.code(), c.ite(inside, w.expected(), w.init)))


def _si(t):
    from pyvc.vals import SymInt
    return SymInt(t)


@contract('C04', [LI + '.extract_extra_fields_from'])
def any_number_of_fields(c):
    """any number of fields, any of which fail: every field is extracted or left exactly as the rule says, nothing escapes"""
    extraction(c, 'direct')


@contract('C04', [LI + '.extract_extra_fields', LI + '.__call__'])
def engine_fields_before_handlers(c):
    """the same for the fields extracted by the engine, before the handlers are called"""
    extraction(c, 'engine')


@contract('C04', ['polog.config:config.add_fields', 'polog.config:config.add_engine_fields', 'polog.loggers.auto.function_logger:FunctionLogger.create_log_item', 'polog.loggers.handle.handle_log:BaseLogger._push'])
def registered_fields(c):
    """registered in-place and engine fields reach the handlers, for records of decorators and manual ones; explicit values win"""
    config, field = c.get('polog:config'), c.get('polog:field')
    inter = c.bool('fields_intersection')
    setting(c, fields_intersection=inter)
    rec = capture(c)
    r1, r2 = c.choose('r1', [False, True]), c.choose('r2', [False, True])
    same = c.choose('same name', [False, True])
    v1, v2, own = Val('in place'), Val('engine'), 'own value'
    n1, n2 = 'lol', 'lol' if same else 'kek'
    items = []

    def mk(v, raises):
        def extractor(item):
            items.append(item)
            if raises:
                raise UserError('x')
            return v
        return extractor
    config.add_fields(**{n1: field(mk(v1, r1))})
    config.add_engine_fields(**{n2: field(mk(v2, r2))})
    manual = c.choose('manual', [False, True])
    if manual:
        explicit = c.choose('explicit', [False, True])
        plain(c, 'message', **({n1: own} if explicit else {}))
    else:
        f, calls = user_function(c, raises=False, result=1)
        c.run(c.get('polog:log')(f))
        explicit = False
    c.prove('one record', len(rec) == 1)
    item = rec.items[0]
    absent = object()
    first = own if explicit else absent
    if not r1:
        first = c.ite(inter, v1, first) if explicit else v1
    if same:
        got = item.get(n1, absent)
        exp = first if r2 else (v2 if first is absent else c.ite(inter, v2, first))
        c.prove('an engine field overwrites an in-place one only under fields_intersection', c.same(got, exp))
    else:
        c.prove('in-place field', c.same(item.get(n1, absent), first))
        c.prove('engine field', item.get(n2, absent) is (absent if r2 else v2))
    c.prove('extractors receive the record itself', all(x is item for x in items))


@contract('C04', ['polog.loggers.auto.function_logger:FunctionLogger.get_extra_fields', 'polog.data_structures.wrappers.fields_container.container:FieldsContainer.items'])
def decorator_fields(c):
    """extra_fields / extra_engine_fields of a decorator replace the registered ones, or extend and override them with an ellipsis"""
    config, field = c.get('polog:config'), c.get('polog:field')
    rec = capture(c)
    engine = c.choose('engine', [False, True])
    (config.add_engine_fields if engine else config.add_fields)(glob=field(lambda item: 'glob'), both=field(lambda item: 'both glob'))
    form = c.choose('form', ['none', 'dict', 'list', 'tuple', 'list2', 'list...', 'tuple...', '...list', 'list2...'])
    d1, d2 = {'own': field(lambda item: 'own'), 'both': field(lambda item: 'both own')}, {'own2': field(lambda item: 'own2')}
    arg = {'none': None, 'dict': d1, 'list': [d1], 'tuple': (d1,), 'list2': [d1, d2], 'list...': [d1, ...], 'tuple...': (d1, ...), '...list': [..., d1], 'list2...': [d1, ..., d2]}[form]
    before = list(arg) if isinstance(arg, list) else None
    f, calls = user_function(c, raises=False, result=1)
    out = c.run(c.get('polog:log'), **given(**{'extra_engine_fields' if engine else 'extra_fields': arg}))
    c.prove('accepted', out.ok)
    out = c.run(out.value, f)
    c.prove('decorates', out.ok)
    g = out.value
    c.run(g)
    c.prove('one record', len(rec) == 1)
    item = rec.items[0]
    has_glob = form == 'none' or '...' in form
    has_own = form != 'none'
    c.prove('registered field', item.get('glob') == ('glob' if has_glob else None))
    c.prove('own field', item.get('own') == ('own' if has_own else None))
    c.prove('own field of the second dictionary', item.get('own2') == ('own2' if '2' in form else None))
    c.prove('an own field overrides the registered one', item.get('both') == ('both own' if has_own else 'both glob'))
    c.prove('the passed collection is not changed', before is None or arg == before)


@contract('C04', ['polog.field:field.get_data', 'polog.field:field.__init__'])
def field_object(c):
    """a field returns converter(extractor(item)); only callables of one argument are accepted"""
    field = c.get('polog:field')
    x, y, it = c.any('x'), c.any('y'), Val('item')
    conv = c.choose('converter', [False, True])
    seen = []

    def extractor(item):
        seen.append(item)
        return x

    def converter(value):
        seen.append(value)
        return y
    out = c.run(field, extractor, **({'converter': converter} if conv else {}))
    c.prove('accepted', out.ok)
    got = c.run(out.value.get_data, it)
    c.prove('value', c.same(got.value, y if conv else x))
    c.prove('called with the item, then with the extracted value', len(seen) == 1 + conv and seen[0] is it and (not conv or c.same(seen[1], x)))
    bad = c.choose('bad', [1, 'str', None, lambda: 1, lambda a, b: 1])
    c.prove('a wrong extractor is rejected', c.run(field, bad).raised(ValueError))
    if bad is not None:
        c.prove('a wrong converter is rejected', c.run(field, extractor, converter=bad).raised(ValueError))


@contract('C04', [LI + '.extract_extra_fields_from', 'polog.data_structures.wrappers.fields_container.container:FieldsContainer.items'])
def registry_changes_during_extraction(c):
    """fields added or deleted while a record is being composed (by an extractor, or by another thread while an extractor runs): the record is still delivered, with the other fields"""
    from specs.lib import capture, plain
    config, field, log = c.get('polog:config'), c.get('polog:field'), c.get('polog:log')
    rec = capture(c)
    which = c.choose('which', ['in place', 'engine', 'decorator'])
    act = c.choose('act', ['add', 'delete'])
    add, delete = (config.add_engine_fields, config.delete_engine_fields) if which == 'engine' else (config.add_fields, config.delete_fields)
    done = []

    def changing(item):
        if not done:
            done.append(1)
            if act == 'add':
                add(extra=field(lambda item: 1))
            else:
                delete('old')
        return 'changing'
    add(first=field(changing))
    add(old=field(lambda item: 'old'))
    add(last=field(lambda item: 'last'))

    def f():
        return 1
    way = c.choose('way', ['plain', 'function']) if which == 'in place' else 'function'
    if way == 'plain':
        plain(c, 'message')
    elif which == 'decorator':
        c.run(log(extra_fields=({'own': field(lambda item: 'own')}, ...))(f))
    else:
        c.run(log(f))
    c.prove('the record is delivered', len(rec) == 1)
    c.prove('with the fields that stay', rec.field(0, 'first') == 'changing' and rec.field(0, 'last') == 'last')
    if which == 'decorator':
        c.prove('and its own field', rec.field(0, 'own') == 'own')
