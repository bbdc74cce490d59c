"""C01 - a logging decorator is transparent."""
PYVC_TRUSTED = True
import functools

from specs.lib import *

FL = 'polog.loggers.auto.function_logger:FunctionLogger'
T = [FL + '.__call__', FL + '.log_normal_info', FL + '.log_exception_info', 'polog.loggers.router:Router.__call__']

TRUSTED = ['modular step: in wrapper_* the two record-composing methods are replaced by their contract "returns None and never raises", which normal_*/error_* discharge on the real bodies']
ASSUMPTIONS = ['the user function does not itself depend on Polog state']


def decorate(c, f, hows=('plain', 'call', 'message', 'level', 'elevel', 'badlevel', 'attr', 'handlers', 'fields')):
    log = c.get('polog:log')
    how = c.choose('how', list(hows))
    if how == 'plain':
        return log(f)
    if how == 'call':
        return log()(f)
    if how == 'message':
        return log('some message')(f)
    if how == 'level':
        return log(level=c.int('level'))(f)
    if how == 'elevel':
        return log(errors_level=c.int('errors_level'))(f)
    if how == 'badlevel':
        return log(level=c.str('level name'))(f)
    if how == 'handlers':
        return log(handlers=[lambda item: None])(f)
    if how == 'fields':
        return log(extra_fields={'x': c.get('polog:field')(lambda item: 1)})(f)
    return log.lol('msg')(f)


def check(c, out, calls, args, kwargs):
    c.prove('the function is called exactly once', len(calls) == 1)
    call = calls[0]
    c.prove('positional arguments are passed unchanged', len(call['args']) == len(args) and all(c.same(x, y) for x, y in zip(call['args'], args)))
    c.prove('named arguments are passed unchanged', set(call['kwargs']) == set(kwargs) and all(c.same(call['kwargs'][k], kwargs[k]) for k in kwargs))
    if 'exc' in call:
        c.prove('the same exception object propagates', not out.ok and out.exc is call['exc'])
    else:
        c.prove('the call returns', out.ok)
        c.prove('the very object returned by the function is returned', c.same(out.value, call['ret']))


def call(c, g, kind, *a, **k):
    if kind == 'async':
        return c.run_coro(g(*a, **k))
    return c.run(g, *a, **k)


def no_logging(c):
    if c.symbolic:
        c.use_contract(FL + '.log_normal_info', lambda self, *a, **k: None)
        c.use_contract(FL + '.log_exception_info', lambda self, *a, **k: None)


def abstract_json(c):
    """json_vars and json_one_variable: any string, or any failure."""
    if c.symbolic:
        def stub(*a, **k):
            if c.c.choose(2, 'serialisation fails'):
                raise UserError('serialisation')
            return c.str(c.c.fresh('json'))
        for path in ('polog.utils.json_vars:json_vars', 'polog.utils.json_vars:json_one_variable'):
            c.mod('polog')
            c.use_contract(path, stub)


def wrapper(c, kind):
    capture(c)
    no_logging(c)
    f, calls = user_function(c, kind=kind)
    g = decorate(c, f)
    a, b = c.any('a'), c.any('b')
    out = call(c, g, kind, a, k=b)
    check(c, out, calls, (a,), {'k': b})


@contract('C01', T)
def wrapper_sync(c):
    """decorated function, every form of decoration, every outcome: called once, same arguments, same result or exception"""
    wrapper(c, 'sync')


@contract('C01', T)
def wrapper_async(c):
    """the same for a coroutine function"""
    wrapper(c, 'async')


def logged(c, kind, raises):
    capture(c, raising='base')
    setting(c, level=c.int('threshold', lo=0))
    symbolic_bools(c, 'deduplicate_errors')
    abstract_json(c)
    f, calls = user_function(c, kind=kind, raises=raises)
    g = decorate(c, f, ['level', 'badlevel'])
    a, b = c.any('a'), c.any('b')
    out = call(c, g, kind, a, k=b)
    check(c, out, calls, (a,), {'k': b})


@contract('C01', T)
def normal_sync(c):
    """composing the record of a successful call never changes the call, whatever the values, levels and handlers"""
    logged(c, 'sync', False)


@contract('C01', T)
def normal_async(c):
    """the same for a coroutine function"""
    logged(c, 'async', False)


@contract('C01', T)
def error_sync(c):
    """composing the record of a failed call never changes the call, whatever the exception, values, levels and handlers"""
    logged(c, 'sync', True)


@contract('C01', T)
def error_async(c):
    """the same for a coroutine function"""
    logged(c, 'async', True)


@contract('C01', ['polog.utils.json_vars:json_vars', 'polog.utils.json_vars:json_one_variable', 'polog.utils.json_vars:get_item'])
def unprintable_values(c):
    """arguments and results of any type, including those that cannot be printed or serialised"""
    capture(c)
    if c.symbolic:
        c.data['json'] = 'may_fail'
    f, calls = user_function(c, raises=False)
    which = c.choose('which', ['arg', 'kwarg', 'result'])
    log = c.get('polog:log')
    g = log(f)
    a = c.any('a') if which == 'arg' else 1
    b = c.any('b') if which == 'kwarg' else 2
    out = c.run(g, a, k=b)
    check(c, out, calls, (a,), {'k': b})


@contract('C01', ['polog.loggers.auto.class_logger:ClassLogger.__call__'])
def decorated_class(c):
    """every method of a decorated class: called once with the same self and arguments, same outcome; other methods are not touched"""
    f, calls = user_function(c, name='method', exotic=False)
    h, hcalls = user_function(c, name='other', exotic=False)

    class A:
        method = f
        other = h

        def __call__(self):
            return 'dunder'
    log = c.get('polog:log')
    how = c.choose('how', ['plain', 'call', 'methods'])
    if how == 'plain':
        B = log(A)
    elif how == 'call':
        B = log(level=c.int('level', lo=0))(A)
    else:
        B = log(methods=('method',))(A)
    c.prove('the class itself is returned', B is A)
    x = B()
    a = c.any('a')
    out = c.run(x.method, a)
    check(c, out, calls, (x, a), {})
    c.prove('dunder methods are not touched', x() == 'dunder')
    if how == 'methods':
        c.prove('a method that is not listed is not touched', A.__dict__['other'] is h)


@contract('C01', ['polog.loggers.auto.class_logger:ClassLogger.__call__', 'polog.core.utils.replace_method:replace_method'])
def special_members(c):
    """static methods, class methods, nested classes, properties and attributes of a decorated class work as before, through the class, an instance and a subclass"""
    got = []

    class A:
        class Nested:
            pass
        attribute = 7

        @staticmethod
        def s(*args, **kwargs):
            got.append((args, kwargs))
            return 's'

        @classmethod
        def k(cls, *args, **kwargs):
            got.append(((cls,) + args, kwargs))
            return 'k'

        @property
        def p(self):
            return 'p'

        def m(self, *args, **kwargs):
            got.append(((self,) + args, kwargs))
            return 'm'
    nested = A.Nested
    log = c.get('polog:log')
    how = c.choose('how', ['plain', 'call', 'methods', 'method above', 'twice'])
    if how == 'plain':
        log(A)
    elif how == 'call':
        log('message', level=c.int('level', lo=0))(A)
    elif how == 'methods':
        log(methods=('s', 'k'))(A)
    elif how == 'method above':
        A.m = log(A.m)
        log(A)
    else:
        log(log(level=5)(A))

    class B(A):
        pass
    if c.choose('subclass decorated', [False, True]):
        log(B)
    owner = c.choose('owner', [A, B])
    by = c.choose('by', ['class', 'instance'])
    obj = owner() if by == 'instance' else owner
    name = c.choose('name', ['s', 'k', 'm'])
    a, b = c.any('a', ('int', 'other')), c.any('b', ('str', 'list'))
    if name == 'm':
        x = obj if by == 'instance' else owner()
        out = c.run(obj.m, a, q=b) if by == 'instance' else c.run(owner.m, x, a, q=b)
        first = (x,)
    else:
        out = c.run(getattr(obj, name), a, q=b)
        first = (owner,) if name == 'k' else ()
    c.prove('the method returns its result', out.ok and out.value == name)
    c.prove('the method is called once', len(got) == 1)
    args, kwargs = got[0]
    c.prove('with the same arguments', len(args) == len(first) + 1 and all(x is y for x, y in zip(args, first)) and c.same(args[-1], a) and list(kwargs) == ['q'] and c.same(kwargs['q'], b))
    c.prove('other members are untouched', owner.Nested is nested and owner.attribute == 7 and owner().p == 'p')


class Eager:
    """An object with its own access to attributes, which fails in its own way."""
    def __init__(self, exc):
        self.__dict__['exc'] = exc

    def __getattr__(self, name):
        raise self.__dict__['exc'](name)

    def method(self, *args, **kwargs):
        return self.__dict__['body'](*args, **kwargs)


class CallableObject:
    def __init__(self, f):
        self.f = f

    def __call__(self, *args, **kwargs):
        return self.f(*args, **kwargs)


@contract('C01', T + [FL + '.get_base_args_dict', FL + '.get_class_name', FL + '.get_arg'])
def unusual_callables(c):
    """bound methods, objects with __call__, partial objects, functions with unusual metadata: the call is the same"""
    setting(c, level=0)
    capture(c)
    f, calls = user_function(c, raises='any', exotic=False, base=False)
    kind = c.choose('kind', ['bound', 'eager', 'object', 'partial', 'no module', 'strange name', 'class method', 'no name'])
    g = f
    if kind == 'bound':
        class A:
            def method(self, *args, **kwargs):
                return f(*args, **kwargs)
        g = A().method
    elif kind == 'eager':
        e = Eager(c.choose('error', [KeyError, ValueError, AttributeError]))
        e.__dict__['body'] = f
        g = e.method
    elif kind == 'object':
        g = CallableObject(f)
    elif kind == 'partial':
        g = functools.partial(f)
    elif kind == 'no module':
        f.__module__ = None
    elif kind == 'strange name':
        f.__qualname__ = c.choose('name', ['', '.', 'a.', '.b', 'a.<locals>.b', '1.2', 'a b.c'])
    elif kind == 'class method':
        class B:
            @classmethod
            def method(cls, *args, **kwargs):
                return f(*args, **kwargs)
        g = B.method
    a, b = c.any('a', ('none', 'int', 'str', 'other')), c.any('b', ('int', 'dict'))
    out = c.run(c.get('polog:log')(g), a, k=b)
    check(c, out, calls, (a,), {'k': b})
