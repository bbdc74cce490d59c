"""Frame conditions over the whole state of the program: everything reachable from the modules of polog (globals, classes,
instances, closures, containers, context variables) is remembered and compared after an operation.  Two states are the same
when they are bisimilar (the same shape and values; objects may be new ones)."""
import enum
import functools
import re
import sys
import types
import weakref

from . import core, stubs, vals

LEAF = (type(None), bool, int, float, complex, str, bytes, range, type(Ellipsis), type(NotImplemented), types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType,
        types.MethodWrapperType, types.GetSetDescriptorType, types.MemberDescriptorType, types.ClassMethodDescriptorType, types.CodeType, re.Pattern, types.GenericAlias, types.UnionType, enum.Enum, object().__reduce__.__class__)
SKIP = {'__builtins__', '__spec__', '__loader__', '__cached__', '__path__', '__file__', '__name__', '__doc__', '__package__', '_pv_', '__dict__', '__weakref__', '__module__', '_abc_impl', '__annotations__', '__qualname__', '__static_attributes__', '__firstlineno__'}
EMPTY = object()


class Unknown(Exception):
    pass


def own(name):
    return isinstance(name, str) and (name == 'polog' or name.startswith('polog.'))


def value(cell):
    try:
        return cell.cell_contents
    except ValueError:
        return EMPTY


def parts(x):
    """None for a leaf, otherwise (kind, [(label, child)])."""
    t = type(x)
    if isinstance(x, vals.Sym) or getattr(t, 'pv_ghost', False) or x is EMPTY:
        return None
    if isinstance(x, vals.EDict):
        if x._base is not None:
            return None
        items = [(k, v) for k, v in x._a] if x._a is not None else [(k, dict.__getitem__(x, k)) for k in dict.__iter__(x)]
        return 'dict', [(i, y) for i, kv in enumerate(items) for y in kv]
    if isinstance(x, (dict, types.MappingProxyType)):
        return 'dict', [(i, y) for i, kv in enumerate(x.items()) for y in kv]
    if isinstance(x, list):
        return 'list', list(enumerate(list.__iter__(x)))
    if isinstance(x, tuple):
        return 'tuple', list(enumerate(tuple.__iter__(x)))
    if isinstance(x, vals.ESet):
        return 'set', [(0, x.native), (1, x.symbolic)]
    if isinstance(x, (set, frozenset)):
        return 'set', list(enumerate(sorted(x, key=lambda y: (str(type(y)), repr(y) if isinstance(y, LEAF) else id(y)))))
    if t.__name__ == 'deque':
        return 'deque', list(enumerate(x))
    if isinstance(x, types.ModuleType):
        return None
    if isinstance(x, type):
        if not own(x.__module__):
            return None
        return 'class', [(k, v) for k, v in vars(x).items() if k not in SKIP]
    if isinstance(x, types.FunctionType):
        if not own(x.__module__) and not own(x.__globals__.get('__name__')):
            return 'function', [('dict', dict(vars(x)))]
        out = [('cell %d' % i, value(y)) for i, y in enumerate(x.__closure__ or ())]
        return 'function', out + [('defaults', x.__defaults__), ('kwdefaults', x.__kwdefaults__), ('dict', dict(vars(x)))]
    if isinstance(x, types.MethodType):
        return 'method', [('self', x.__self__), ('function', x.__func__)]
    if isinstance(x, (staticmethod, classmethod)):
        return 'static', [('function', x.__func__)]
    if isinstance(x, property):
        return 'property', [('get', x.fget), ('set', x.fset)]
    if isinstance(x, functools.partial):
        return 'partial', [('function', x.func), ('args', x.args), ('keywords', x.keywords)]
    if isinstance(x, stubs.ContextVar):
        return 'contextvar', [('value', x._v.get(EMPTY))]
    if isinstance(x, types.GeneratorType):
        fr = x.gi_frame
        return 'generator', [('code', x.gi_code)] + ([] if fr is None else [('position', fr.f_lasti)] + sorted(fr.f_locals.items()))
    if t.__name__ in ('list_iterator', 'tuple_iterator', 'range_iterator'):
        return 'iterator', [('rest', x.__reduce__()[1:])]
    if isinstance(x, weakref.finalize):
        return None
    if isinstance(x, weakref.ref):
        return 'reference', [('target', x())]
    if isinstance(x, LEAF):
        return None
    if t.__module__ and t.__module__.startswith('specs'):
        return None
    if isinstance(x, BaseException):
        return 'exception', [('args', x.args), ('dict', dict(vars(x)))]
    if (hasattr(x, '__dict__') or hasattr(t, '__slots__')) and (own(t.__module__) or t.__module__.startswith('pyvc')):
        slots = [(s, getattr(x, s, EMPTY)) for k in t.__mro__ for s in ([k.__dict__['__slots__']] if isinstance(k.__dict__.get('__slots__'), str) else k.__dict__.get('__slots__', ())) if isinstance(s, str)]
        return 'object', [('class', t)] + slots + sorted(getattr(x, '__dict__', {}).items())
    if t.__module__ == 'dataclasses':
        return 'object', [(k, getattr(x, k, EMPTY)) for k in ('name', 'type', 'default', 'default_factory', 'init', 'repr', 'compare', 'kw_only', 'frozen', 'eq', 'order') if hasattr(x, k)]
    if isinstance(x, weakref.WeakKeyDictionary):
        return 'dict', [(i, y) for i, kv in enumerate(sorted(x.items(), key=lambda kv: id(kv[0]))) for y in kv]
    if isinstance(x, weakref.WeakSet):
        return 'set', list(enumerate(sorted(x, key=id)))
    if t.__name__ in ('object', '_tuplegetter') or t.__module__ == 'typing' or t.__name__ in ('getset_descriptor', '_Feature'):
        return None
    raise Unknown('an object of the type %s.%s' % (t.__module__, t.__name__))


def leaf_same(a, b):
    if a is b:
        return True
    if isinstance(a, vals.Sym) and isinstance(b, vals.Sym):
        ta, tb = getattr(a, 't', None), getattr(b, 't', None)
        return type(a) is type(b) and ta is not None and tb is not None and ta.eq(tb)
    if isinstance(a, vals.Sym) or isinstance(b, vals.Sym):
        return False
    if type(a) is type(b) and isinstance(a, (bool, int, float, complex, str, bytes, range)):
        return a == b or a != a and b != b
    if isinstance(a, types.BuiltinFunctionType) and isinstance(b, types.BuiltinFunctionType):
        return a == b
    return False


class Snapshot:
    def __init__(self, extra=()):
        self.roots = [(n, vars(m)) for n, m in sorted(sys.modules.items()) if own(n) and m is not None]
        self.roots = [(n, {k: v for k, v in d.items() if k not in SKIP}) for n, d in self.roots]
        self.roots.append(('extra', tuple(extra)))
        self.frozen = {}
        self.where = {id(d): n for n, d in self.roots}
        self.keep = []
        todo = [d for n, d in self.roots]
        while todo:
            x = todo.pop()
            if id(x) in self.frozen:
                continue
            try:
                p = parts(x)
            except Unknown as e:
                raise Unknown('%s at %s' % (e, self.where.get(id(x))))
            self.frozen[id(x)] = p
            self.keep.append(x)
            if p is not None:
                for k, y in p[1]:
                    if id(y) not in self.frozen:
                        self.where[id(y)] = '%s/%s' % (self.where.get(id(x), '')[-150:], k)
                        todo.append(y)

    def difference(self, extra=()):
        """None, or where the state differs now."""
        now = Snapshot(extra)
        pair = {}
        names = [n for n, d in self.roots]
        if names != [n for n, d in now.roots]:
            new = [n for n in [n for n, d in now.roots] if n not in names]
            now.roots = [r for r in now.roots if r[0] not in new]      # modules loaded meanwhile
            if names != [n for n, d in now.roots]:
                return 'the modules'
        todo = [(n, a, b) for (n, a), (m, b) in zip(self.roots, now.roots)]
        while todo:
            path, a, b = todo.pop()
            fa, fb = self.frozen[id(a)], now.frozen[id(b)]
            if fa is None or fb is None:
                if fa is None and fb is None and leaf_same(a, b):
                    continue
                return path
            if id(a) in pair:
                if pair[id(a)] != id(b) and fa[0] not in ('tuple', 'method', 'static', 'property'):
                    return path + ' (identity)'
                continue
            pair[id(a)] = id(b)
            if fa[0] != fb[0] or [k for k, x in fa[1]] != [k for k, x in fb[1]]:
                return path
            if fa[0] in ('class', 'function') and a is not b:
                return path
            for (k, x), (l, y) in zip(fa[1], fb[1]):
                todo.append(('%s/%s' % (path, k), x, y))
        return None


def snapshot(extra=()):
    try:
        return Snapshot(extra)
    except Unknown as e:
        core.ctx().unsupported('the state of the program cannot be compared: %s' % e)


def difference(s, extra=()):
    try:
        return s.difference(extra)
    except Unknown as e:
        core.ctx().unsupported('the state of the program cannot be compared: %s' % e)
