"""C05 - a record is a read-only mapping ordered by time."""
PYVC_TRUSTED = True
from specs.lib import *

LI = 'polog.core.log_item:LogItem'


def an_item(c, data=None):
    item = c.get(LI)()
    if data is not None:
        item.set_data(data)
    return item


@contract('C05', [LI + '.__setitem__', LI + '.__delitem__'])
def read_only(c):
    """no key can be set or deleted through the record: an error is raised and the content does not change"""
    err = c.get('polog.errors:RewritingLogError')
    k, k2, v, v2 = c.str('k'), c.str('k2'), c.any('v'), c.any('v2')
    empty = c.choose('empty', [False, True])
    data = None if empty else c.dict()
    if not empty:
        data[k2] = v2
    item = an_item(c, data)
    n = len(item)

    def put():
        item[k] = v

    def rem():
        del item[k]
    c.prove('setting a key is refused', c.run(put).raised(err))
    c.prove('deleting a key is refused', c.run(rem).raised(err))
    c.prove('the content did not change', len(item) == n and (empty or c.same(item[k2], v2)))


@contract('C05', [LI + '.__getitem__', LI + '.get', LI + '.__contains__', LI + '.__len__', LI + '.__iter__', LI + '.keys', LI + '.values', LI + '.items'])
def mapping(c):
    """reading is reading the fields: item[k], get, in, len, iteration, keys, values and items agree with the data, for any keys and values"""
    k1, k2, q = c.str('k1'), c.str('k2'), c.str('q')
    c.assume(c.not_(c.eq(k1, k2)))
    v1, v2, dflt = c.any('v1'), c.any('v2'), c.any('default')
    data = c.dict()
    data[k1] = v1
    data[k2] = v2
    item = an_item(c, data)
    has = c.or_(c.eq(q, k1), c.eq(q, k2))
    got = c.run(lambda: item[q])
    if c.truth(has):
        exp = v1 if c.truth(c.eq(q, k1)) else v2
        c.prove('item[key]', got.ok and c.same(got.value, exp))
        c.prove('get(key)', c.same(item.get(q), exp) and c.same(item.get(q, dflt), exp))
        c.prove('key in item', q in item)
    else:
        c.prove('item[key] of an absent key', got.raised(KeyError))
        c.prove('get(key) of an absent key', item.get(q) is None and c.same(item.get(q, dflt), dflt))
        c.prove('key not in item', not (q in item))
    c.prove('len', len(item) == 2)
    ks, vs, its, it = list(item.keys()), list(item.values()), list(item.items()), list(item)
    c.prove('keys', len(ks) == 2 and c.truth(c.eq(ks[0], k1)) and c.truth(c.eq(ks[1], k2)))
    c.prove('iteration', len(it) == 2 and c.truth(c.eq(it[0], k1)) and c.truth(c.eq(it[1], k2)))
    c.prove('values', len(vs) == 2 and c.same(vs[0], v1) and c.same(vs[1], v2))
    c.prove('items', len(its) == 2 and c.truth(c.eq(its[0][0], k1)) and c.same(its[0][1], v1) and c.truth(c.eq(its[1][0], k2)) and c.same(its[1][1], v2))


@contract('C05', [LI + '.__getitem__', LI + '.get', LI + '.__contains__', LI + '.__len__', LI + '.__iter__', LI + '.keys'])
def empty_record(c):
    """a record without data behaves as an empty mapping"""
    item = an_item(c)
    q, d = c.str('q'), c.any('d')
    c.prove('item[key]', c.run(lambda: item[q]).raised(KeyError))
    c.prove('get', item.get(q) is None and c.same(item.get(q, d), d))
    c.prove('in', not (q in item))
    c.prove('len and iteration', len(item) == 0 and list(item) == [] and list(item.keys()) == [] and list(item.values()) == [] and list(item.items()) == [])


def a_time(c, name):
    how = c.choose(name, ['time', 'none', 'absent', 'no data'])
    if how == 'time':
        t = c.time(name + ' t')
        return t, c.dict(time=t, message=c.any(name + ' message'))
    if how == 'none':
        return None, c.dict(time=None)
    if how == 'absent':
        return None, c.dict(message='m')
    return None, None


@contract('C05', [LI + '.__eq__', LI + '.__ne__', LI + '.__lt__', LI + '.__gt__', LI + '.__le__', LI + '.__ge__', LI + '.__hash__', LI + '.compare', LI + '.compare_or_raise'])
def order(c):
    """records are equal and ordered exactly as their times; equal records have equal hashes; without a time they are not comparable"""
    t1, d1 = a_time(c, 'a')
    t2, d2 = a_time(c, 'b')
    a, b = an_item(c, d1), an_item(c, d2)
    eq, ne = a == b, a != b
    if t1 is not None and t2 is not None:
        c.prove('==', c.iff(eq, c.eq(t1, t2)))
        c.prove('!=', c.iff(ne, c.not_(c.eq(t1, t2))))
        c.prove('<', c.iff(a < b, t1 < t2))
        c.prove('>', c.iff(a > b, t1 > t2))
        c.prove('<=', c.iff(a <= b, t1 <= t2))
        c.prove('>=', c.iff(a >= b, t1 >= t2))
        c.prove('equal records have equal hashes', c.implies(eq, c.eq(hash_of(c, a), hash_of(c, b))))
    else:
        c.prove('records without a time are not equal', c.and_(c.not_(eq), ne))
        for op in (lambda: a < b, lambda: a > b, lambda: a <= b, lambda: a >= b):
            c.prove('records without a time cannot be ordered', c.run(op).raised(TypeError))
        c.prove('still hashable', c.run(hash_of, c, a).ok)
    other = c.choose('other', [1, 'str', None, {'time': 1}])
    c.prove('not equal to anything else', c.and_(c.not_(a == other), a != other))
    for op in (lambda: a < other, lambda: a > other, lambda: a <= other, lambda: a >= other):
        c.prove('not ordered with anything else', c.run(op).raised(TypeError))


def hash_of(c, x):
    return x.__hash__() if c.symbolic else hash(x)


@contract('C05', [LI + '.function_input_data', LI + '.set_function_input_data'])
def input_data(c):
    """the record exposes the very arguments of the decorated call; for other records they are absent"""
    rec = capture(c)
    a, b = c.any('a'), c.any('b')
    if c.choose('auto', [True, False]):
        f, calls = user_function(c, raises='any', exotic=False, base=False)
        g = c.get('polog:log')(f)
        if c.symbolic:
            c.use_contract('polog.utils.json_vars:json_vars', lambda *a, **k: 'json')
            c.use_contract('polog.utils.json_vars:json_one_variable', lambda *a, **k: 'json')
        else:
            c.assume(not hasattr(a, 'bad') or not a.bad)
            c.assume(not hasattr(b, 'bad') or not b.bad)
            c.assume('ret' not in calls or not getattr(calls[0]['ret'], 'bad', False))
        c.run(g, a, k=b)
        if not c.symbolic and 'ret' in calls[0] and getattr(calls[0]['ret'], 'bad', False):
            c.assume(False)
        c.prove('one record', len(rec) == 1)
        d = rec.items[0].function_input_data
        c.prove('arguments', len(d.args) == 1 and c.same(d.args[0], a) and list(d.kwargs) == ['k'] and c.same(d.kwargs['k'], b))
    else:
        plain(c, 'm')
        c.prove('one record', len(rec) == 1)
        d = rec.items[0].function_input_data
        c.prove('no arguments', d.args is None and d.kwargs is None)
