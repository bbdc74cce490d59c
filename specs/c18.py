"""C18 - the fields of manual records: what is given appears, what is wrong is refused."""
PYVC_TRUSTED = True
from specs.lib import *

A = 'polog.loggers.handle.abstract:AbstractHandleLogger'
B = 'polog.loggers.handle.handle_log:BaseLogger'
FIN = 'polog.loggers.finalizer:LoggerRouteFinalizer'
T = [A + '.__call__', A + '._prepare_data', A + '._kwargs_to_dict', A + '._position_args_to_dict', A + '._extract_exception', A + '._maybe_raise',
     B + '._specific_processing', B + '._defaults_to_dict', B + '._extract_function_data', B + '._push']


class K:
    pass


class WithName:
    """A callable without a name of its own."""
    def __call__(self):
        pass

    def __str__(self):
        return 'a callable object'


def named():
    pass


SILENT = 'silent_internal_exceptions'


def prepare(c):
    setting(c, level=0, default_level=c.int('default_level', lo=0), default_error_level=c.int('default_error_level', lo=0))
    lol = c.int('lol', lo=0)
    c.get('polog:config').levels(lol=lol)
    silent = symbolic_bools(c, SILENT)[SILENT]
    return lol, silent, capture(c)


def default(c, name):
    return c.get('polog.core.stores.settings.settings_store:SettingsStore')()[name]


def make(c, how, args, kwargs):
    """One manual record by one of the ways; the outcome the caller sees."""
    if how == 'handle_log':
        return c.run(lambda: c.get('polog:handle_log')(*args, **kwargs))
    log = c.get('polog:log')
    if how == 'plain':
        return plain(c, *args, **kwargs)

    def use():
        if how == 'block':
            with log(*args, **kwargs):
                pass
        else:
            with log as l:
                l(*args, **kwargs)
    return c.run(use)


WAYS = ['handle_log', 'plain', 'block', 'rewritten']


def outcome(c, how, out, rec, right, silent):
    """Common part: refused exactly when something is wrong and errors are not silent; a refused record is not written."""
    fine = c.or_(right, silent)
    if how != 'plain':     # the errors of a plain call are reported by the interpreter: the object is being dropped
        c.prove('the caller sees an error exactly when something is wrong and errors are not silent', c.iff(out.ok, fine))
        if not out.ok:
            c.prove('the error says that a name or a value is wrong', out.raised((KeyError, ValueError)))
    c.prove('one record unless it is refused', c.iff(len(rec) == 1, fine))
    c.prove('never two records', len(rec) <= 1)
    return len(rec) == 1


@contract('C18', T)
def strings(c):
    """message, module, vars, locals, local_variables: exactly strings are accepted and recorded as they are, next to the other fields"""
    lol, silent, rec = prepare(c)
    key, field = c.choose('key', [('message', 'message'), ('module', 'module'), ('vars', 'local_variables'), ('locals', 'local_variables'), ('local_variables', 'local_variables')])
    x = c.any('x')
    how = c.choose('how', WAYS)
    kwargs = {key: x}
    n = c.int('n', lo=0)
    kwargs['level'] = n
    mark = c.any('mark', ('int', 'str'))
    out = make(c, how, (), dict(mark=mark, **kwargs))
    right = c.exactly(x, str)
    if outcome(c, how, out, rec, right, silent):
        c.prove('the value is recorded, or dropped when it is wrong', c.same(rec.field(0, field), x) if right else rec.field(0, field) is None)
        c.prove('the other fields are kept', c.same(rec.field(0, 'mark'), mark) and c.truth(c.eq(rec.field(0, 'level'), n)))
        c.prove('auto is False', rec.field(0, 'auto') is False)
        c.prove('the time is there', rec.field(0, 'time') is not None)


@contract('C18', T)
def success(c):
    """success: exactly True and False are accepted; without a level the record has the default level, of errors for False"""
    lol, silent, rec = prepare(c)
    x = c.any('x')
    how = c.choose('how', WAYS[:2])
    mark = c.any('mark', ('int', 'str'))
    out = make(c, how, ('m',), dict(success=x, mark=mark))
    right = c.isinstance(x, bool)
    if outcome(c, how, out, rec, right, silent):
        if right:
            c.prove('the value is recorded', c.eq(rec.field(0, 'success'), x))
            c.prove('the level', c.eq(rec.field(0, 'level'), c.ite(x, default(c, 'default_level'), default(c, 'default_error_level'))))
        else:
            c.prove('the wrong value is dropped', rec.field(0, 'success') is None)
            c.prove('the level', c.eq(rec.field(0, 'level'), default(c, 'default_level')))
        c.prove('the other fields are kept', rec.field(0, 'message') == 'm' and c.same(rec.field(0, 'mark'), mark))


@contract('C18', T + ['polog.core.stores.levels:Levels.get'])
def levels(c):
    """level: numbers not below zero and known names are accepted, names become numbers; a wrong one is refused"""
    lol, silent, rec = prepare(c)
    kind = c.choose('kind', ['number', 'known', 'unknown', 'other'])
    how = c.choose('how', WAYS)
    if kind == 'number':
        x = c.int('x')
        right, want = x >= 0, x
    elif kind == 'known':
        x, right, want = 'lol', True, lol
    elif kind == 'unknown':
        x, right, want = 'there is no such level', False, None
    else:
        x = c.any('x', ('none', 'bool', 'float', 'list', 'tuple', 'dict', 'class', 'func', 'other'))
        right, want = False, None
    mark = c.any('mark', ('int', 'str'))
    out = make(c, how, ('m',), dict(level=x, mark=mark))
    if outcome(c, how, out, rec, right, silent):
        if c.truth(right):
            c.prove('the number of the level', c.eq(rec.field(0, 'level'), want))
        else:
            c.prove('the default level instead of a wrong one', c.eq(rec.field(0, 'level'), default(c, 'default_level')))
        c.prove('the other fields are kept', rec.field(0, 'message') == 'm' and c.same(rec.field(0, 'mark'), mark))


@contract('C18', T + ['polog.core.utils.exception_to_dict:exception_to_dict'])
def exceptions(c):
    """exception (or e): an instance of Exception gives its type, message, success False and the level of errors unless given; a string gives the type; anything else is refused"""
    lol, silent, rec = prepare(c)
    key = c.choose('key', ['exception', 'e'])
    kind = c.choose('kind', ['instance', 'caught', 'string', 'base', 'class', 'other'])
    how = c.choose('how', WAYS)
    text = c.str('text')
    right = kind in ('instance', 'caught', 'string')
    x = {'instance': lambda: ValueError(text), 'caught': lambda: ValueError(text), 'string': lambda: 'SomeError', 'base': lambda: UserBase('x'), 'class': lambda: ValueError,
         'other': lambda: c.any('x', ('none', 'bool', 'int', 'float', 'list', 'tuple', 'dict', 'func', 'other'))}[kind]()
    kw = {key: x, 'mark': 1}
    level = c.maybe('level')
    if level:
        kw['level'] = n = c.int('n', lo=0)
    if c.maybe('success'):
        kw['success'] = False
    if kind == 'caught':
        try:
            raise x
        except ValueError:
            out = make(c, how, ('m',), kw)
    else:
        out = make(c, how, ('m',), kw)
    if outcome(c, how, out, rec, right, silent):
        c.prove('the other fields are kept', rec.field(0, 'message') == 'm' and rec.field(0, 'mark') == 1)
        c.prove('the object itself is not recorded', rec.field(0, key) is None and rec.field(0, 'exception') is None)
        if right:
            c.prove('the type', rec.field(0, 'exception_type') == ('SomeError' if kind == 'string' else 'ValueError'))
            c.prove('a failure', rec.field(0, 'success') is False)
            if kind != 'string':
                c.prove('the message', c.eq(rec.field(0, 'exception_message'), text))
                c.prove('the traceback is there', rec.field(0, 'traceback') is not None)
            else:
                c.prove('no message', rec.field(0, 'exception_message') is None)
            c.prove('the level', c.eq(rec.field(0, 'level'), n if level else default(c, 'default_error_level')))
        else:
            c.prove('nothing of a wrong one', rec.field(0, 'exception_type') is None and rec.field(0, 'exception_message') is None)


@contract('C18', T)
def functions_and_classes(c):
    """function: a callable gives its name and module, a string is recorded as it is; class_: a class gives its name, a string as it is; anything else is refused"""
    lol, silent, rec = prepare(c)
    how = c.choose('how', WAYS)
    key = c.choose('key', ['function', 'class_'])
    x = c.choose('x', [named, K, WithName(), 'text', 42, None, ['f'], b'f', len])
    out = make(c, how, ('m',), {key: x, 'mark': 1})
    right = x == 'text' or (callable(x) if key == 'function' else x is K)
    field = 'class' if key == 'class_' else 'function'
    if outcome(c, how, out, rec, right, silent):
        c.prove('the other fields are kept', rec.field(0, 'message') == 'm' and rec.field(0, 'mark') == 1)
        c.prove('the alias is no field', rec.field(0, 'class_') is None)
        if not right:
            c.prove('a wrong one is dropped', rec.field(0, field) is None)
        elif x == 'text':
            c.prove('the text', rec.field(0, field) == 'text')
            c.prove('no module', rec.field(0, 'module') is None)
        else:
            c.prove('the name', rec.field(0, field) == getattr(x, '__name__', 'a callable object'))
            if key == 'function':
                c.prove('the module', rec.field(0, 'module') == x.__module__)


@contract('C18', T)
def aliases(c):
    """one field given under two names: equal values are one field, different ones are refused; silently, the first is kept"""
    lol, silent, rec = prepare(c)
    how = c.choose('how', WAYS)
    first, second = c.choose('names', [('vars', 'locals'), ('locals', 'vars'), ('vars', 'local_variables'), ('local_variables', 'vars'), ('local_variables', 'locals'), ('locals', 'local_variables'),
                                       ('class_', 'class'), ('class', 'class_'), ('e', 'exception'), ('exception', 'e')])
    a, b = c.str('a'), c.str('b')
    out = make(c, how, ('m',), {first: a, second: b, 'mark': 1})
    if outcome(c, how, out, rec, c.eq(a, b), silent):
        field = {'e': 'exception_type', 'exception': 'exception_type', 'class': 'class', 'class_': 'class'}.get(first, 'local_variables')
        c.prove('the first value', c.eq(rec.field(0, field), a))
        c.prove('the other fields are kept', rec.field(0, 'message') == 'm' and rec.field(0, 'mark') == 1)
        for k in ('e', 'vars', 'locals', 'class_', 'exception'):
            c.prove('an alias is no field', rec.field(0, k) is None)


@contract('C18', T + [FIN + '.convert_arguments_to_dict', FIN + '.rewrite_fields'])
def message_twice(c):
    """a message given both by position and by name: equal ones are one message, different ones are refused; silently, the positional one is kept"""
    lol, silent, rec = prepare(c)
    how = c.choose('how', WAYS)
    a, b = c.str('a'), c.str('b')
    out = make(c, how, (a,), {'message': b, 'mark': 1})
    fine = c.or_(c.eq(a, b), silent)
    c.prove('the caller sees an error exactly when they differ and errors are not silent', c.iff(out.ok, fine))
    if how == 'rewritten':
        c.prove('one record in any case: the block was entered', len(rec) == 1)
        c.prove('telling the outcome', c.iff(rec.field(0, 'success') is True, fine))
        if c.truth(fine):
            c.prove('the message', c.eq(rec.field(0, 'message'), a))
        return
    c.prove('one record unless it is refused', c.iff(len(rec) == 1, fine))
    if len(rec):
        c.prove('the message', c.eq(rec.field(0, 'message'), a))
        c.prove('the other fields are kept', rec.field(0, 'mark') == 1)


@contract('C18', T)
def unknown_fields(c):
    """fields polog does not know are recorded as they are; with unknown_fields_in_handle_logs off handle_log refuses them"""
    lol, silent, rec = prepare(c)
    allowed = symbolic_bools(c, 'unknown_fields_in_handle_logs')['unknown_fields_in_handle_logs']
    how = c.choose('how', WAYS)
    x, y = c.any('x'), c.any('y', ('int', 'str', 'none'))
    registered = c.maybe('an extracted field is overridden')
    if registered:
        c.get('polog:config').add_fields(extracted=c.get('polog:field')(lambda item: 'extracted'))
    kw = {'unknown': x}
    if registered:
        kw['extracted'] = y
    out = make(c, how, ('m',), kw)
    if outcome(c, how, out, rec, allowed if how == 'handle_log' else True, silent):
        c.prove('the message is kept', rec.field(0, 'message') == 'm')
        if how != 'handle_log' or c.truth(allowed):
            c.prove('the value', c.same(rec.field(0, 'unknown'), x))
        else:
            c.prove('a refused field is not there', rec.field(0, 'unknown') is None)


@contract('C18', T)
def automatic_fields(c):
    """auto is False whatever is given; service_name comes from the setting when it is set; a time given by the caller is kept, otherwise it is now"""
    lol, silent, rec = prepare(c)
    how = c.choose('how', WAYS[:2])
    service = c.choose('service', [None, 'the_service'])
    if service is not None:
        setting(c, service_name=service)
    kw = {}
    if c.maybe('auto'):
        kw['auto'] = c.any('auto value', ('bool', 'int', 'str'))
    given_time = c.maybe('time')
    if given_time:
        kw['time'] = t = c.any('time value', ('int', 'str', 'other'))
    out = make(c, how, ('m',), kw)
    c.prove('accepted', out.ok)
    c.prove('one record', len(rec) == 1)
    c.prove('auto', rec.field(0, 'auto') is False)
    c.prove('the_service', rec.field(0, 'service_name') == service)
    c.prove('the time', c.same(rec.field(0, 'time'), t) if given_time else rec.field(0, 'time') is not None)
    c.prove('the default level', c.eq(rec.field(0, 'level'), default(c, 'default_level')))
