"""C22 - which callables are accepted as handlers, filters, formatters, extractors, ..."""
PYVC_TRUSTED = True
import functools
import itertools

from specs.lib import *

SM = 'polog.core.utils.signature_matcher:SignatureMatcher'
T = [SM + '.is_handler', SM + '.match', SM + '.__init__']

# ------------------------------------------------------------ all signatures of up to 4 parameters
# p: positional only, q: positional or keyword, Q: the same with a default, *: *args, k/K: keyword only without / with a default, **: **kwargs
# (positional only with a default is outside of what the property speaks about)


def signatures(n):
    out = []
    for a, b, d, star, k, K, kw in itertools.product(range(n + 1), range(n + 1), range(n + 1), (0, 1), range(n + 1), range(n + 1), (0, 1)):
        if a + b + d + star + k + K + kw <= n:
            out.append((a, b, d, star, k, K, kw))
    return out


def parameters(sig):
    a, b, d, star, k, K, kw = sig
    ps = ['p%d' % i for i in range(a)] + (['/'] if a else []) + ['q%d' % i for i in range(b)] + ['d%d=0' % i for i in range(d)]
    if star:
        ps.append('*args')
    elif k + K:
        ps.append('*')
    ps += ['k%d' % i for i in range(k)] + ['K%d=0' % i for i in range(K)]
    if kw:
        ps.append('**kwargs')
    return ', '.join(ps)


def right(sig):
    a, b, d, star, k, K, kw = sig
    return a + b == 1 and not (d or star or k or K or kw)


SIGS = signatures(4)


def build(sig, kind):
    """A callable of the kind which, called, takes the parameters of the signature."""
    ps = parameters(sig)
    ns = {'functools': functools}
    own = 'self' + (', ' + ps if ps else '')
    if ps and '/' in ps.split(', '):
        own = 'self, ' + ps
    src = {
        'function': 'def f(%s): pass' % ps,
        'lambda': 'f = lambda %s: None' % ps,
        'coroutine': 'async def f(%s): pass' % ps,
        'method': 'class A:\n    def m(%s): pass\nf = A().m' % own,
        'static': 'class A:\n    @staticmethod\n    def m(%s): pass\nf = A.m' % ps,
        'class method': 'class A:\n    @classmethod\n    def m(%s): pass\nf = A.m' % own.replace('self', 'cls', 1),
        'object': 'class A:\n    def __call__(%s): pass\nf = A()' % own,
        'class': 'class A:\n    def __init__(%s): pass\nf = A' % own,
        'partial': 'def g(%s): pass\nf = functools.partial(g, 1)' % ('first, ' + ps if ps else 'first'),
        'wrapper': 'def g(%s): pass\n@functools.wraps(g)\ndef f(*args, **kwargs): return g(*args, **kwargs)' % ps,
        'defaults equal to everything': 'class E:\n    def __eq__(self, o): return True\n    def __ne__(self, o): return False\nE = E()\ndef f(%s): pass' % ps.replace('=0', '=E'),
    }
    for name in NAMES:
        src['a parameter named ' + name] = 'def f(%s): pass' % ps.replace('p0' if 'p0' in ps else 'q0' if 'q0' in ps else 'k0', name)
    src = src[kind]
    if kind == 'partial' and '/' in ps.split(', '):
        src = 'def g(first, %s): pass\nf = functools.partial(g, 1)' % ps
    exec(src, ns)
    return ns['f']


NAMES = ['self', 'cls', '_', 'log', 'kw']
KINDS = ['a parameter named ' + name for name in NAMES] + ['function', 'lambda', 'coroutine', 'method', 'static', 'class method', 'object', 'class', 'partial', 'wrapper', 'defaults equal to everything']


@contract('C22', T, budget=120, cases=400)
def signatures_of_functions(c):
    """BOUNDED every signature of up to 4 parameters: accepted exactly when it has one positional parameter without a default and no other parameter"""
    sig = c.choose('signature', SIGS)
    f = build(sig, 'function')
    out = c.run(c.get(SM).is_handler, f)
    c.prove('decided without an error', out.ok)
    c.prove('accepted exactly when it takes one positional argument', out.value is right(sig))
    out = c.run(c.get(SM).is_handler, f, raise_exception=False)
    c.prove('the same without raising', out.ok and out.value is right(sig))


SMALL = signatures(2)


@contract('C22', T, budget=120, cases=400)
def kinds_of_callables(c):
    """BOUNDED functions, lambdas, methods, static and class methods, objects with __call__, classes, partial objects, wrappers: judged by how they are called, for every signature of up to 2 parameters"""
    kind = c.choose('kind', KINDS)
    sig = c.choose('signature', SMALL)
    f = build(sig, kind)
    out = c.run(c.get(SM).is_handler, f)
    c.prove('decided without an error', out.ok)
    c.prove('accepted exactly when it takes one positional argument', out.value is right(sig))


@contract('C22', T)
def not_callable(c):
    """what is not callable is refused, by an error or, on demand, by False; so are built-ins without a signature"""
    x = c.choose('what', ['any', 'object', 'built-in'])
    x = {'any': lambda: c.any('x', ('none', 'bool', 'int', 'float', 'str', 'list', 'tuple', 'dict')), 'object': object, 'built-in': lambda: dict.fromkeys if False else type}[x]()
    out = c.run(c.get(SM).is_handler, x)
    c.prove('refused', not out.ok or out.value is False)
    if not out.ok:
        c.prove('by ValueError', isinstance(out.exc, ValueError))
    out = c.run(c.get(SM).is_handler, x, raise_exception=False)
    c.prove('or by False', out.ok and out.value is False)


def places(c):
    """Everything a callable is registered by: name -> (action, has it been registered?)."""
    config, log = c.get('polog:config'), c.get('polog:log')
    handlers = c.get('polog.core.stores.handlers:global_handlers')
    Base = c.get('polog.handlers.abstract.base:BaseHandler')

    class H(Base):
        def do(self, content):
            pass

        def get_content(self, log):
            pass

    def deco(f):
        return log(handlers=[f])(lambda: None)
    return {
        'handler': (lambda f: config.add_handlers(f), lambda f: any(n.value is f for n in handlers.childs.values())),
        'named handler': (lambda f: config.add_handlers(some=f), lambda f: handlers.get('some') is f),
        'handlers in a dict': (lambda f: config.add_handlers({'some': f}), lambda f: handlers.get('some') is f),
        'handler of a decorator': (deco, None),
        'filter': (lambda f: H(filter=f), None),
        'alternative': (lambda f: H(alt=f), None),
        'formatter': (lambda f: c.get('polog:file_writer')(formatter=f), None),
        'text': (lambda f: c.get('polog:SMTP_sender')('a', 'b', 'c', 'd', text_assembler=f), None),
        'subject': (lambda f: c.get('polog:SMTP_sender')('a', 'b', 'c', 'd', subject_assembler=f), None),
        'extractor': (lambda f: c.get('polog:field')(f), None),
        'converter': (lambda f: c.get('polog:field')(lambda item: 1, converter=f), None),
    }


PLACES = ['handler', 'named handler', 'handlers in a dict', 'handler of a decorator', 'filter', 'alternative', 'formatter', 'text', 'subject', 'extractor', 'converter']


@contract('C22', T + ['polog.config:config.add_handlers', 'polog.config:config.set_handler', 'polog.loggers.auto.function_logger:FunctionLogger.get_handlers',
                      'polog.handlers.abstract.base:BaseHandler.do_input_proves', 'polog.field:field.get_extractor', 'polog.field:field.get_converter'], budget=120, cases=400)
def at_registration(c):
    """BOUNDED a wrong callable is refused where it is registered, and nothing of it stays; a right one is registered: every place, every signature of up to 2 parameters"""
    c.fs()
    place = c.choose('place', PLACES)
    sig = c.choose('signature', SMALL)
    f = build(sig, c.choose('kind', ['function', 'object']))
    act, registered = places(c)[place]
    out = c.run(act, f)
    c.prove('accepted exactly when it takes one positional argument', out.ok is right(sig))
    if registered is not None:
        c.prove('registered exactly when it is accepted', registered(f) is right(sig))


@contract('C22', T + ['polog.config:config.add_handlers', 'polog.loggers.auto.function_logger:FunctionLogger.get_handlers'])
def wrong_objects_at_registration(c):
    """what is not callable is refused where it is registered"""
    c.fs()
    place = c.choose('place', PLACES)
    kinds = ['bool', 'int', 'float', 'list', 'tuple', 'str', 'dict', 'none']
    if place in ('filter', 'alternative', 'formatter', 'text', 'subject', 'converter'):
        kinds.remove('none')
    if place == 'handler':
        kinds.remove('dict')
    if place == 'handler of a decorator':
        kinds.remove('str')
    x = c.any('x', tuple(kinds))
    act, registered = places(c)[place]
    out = c.run(act, x)
    c.prove('refused', not out.ok)
