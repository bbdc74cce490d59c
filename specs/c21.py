"""C21 - recorded variables and formatted lines."""
PYVC_TRUSTED = True
import datetime
import json

from specs.lib import *

JV = 'polog.utils.json_vars:'
FMT = 'polog.handlers.file.base_formatter:BaseFormatter'
EX = 'polog.handlers.file.base_formatter_fields_extractors:BaseFormatterFieldsExtractors'
FL = 'polog.loggers.auto.function_logger:FunctionLogger'


class Printable:
    def __str__(self):
        return 'as text'


class Told:
    """An object with any text."""
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Unprintable:
    def __str__(self):
        raise UserError('str failed')
    __repr__ = __str__


class IntSub(int):
    pass


OBJECTS = [None, [1, 'a'], (), {'k': 1}, Printable(), ValueError('x'), int, b'bytes', 2 + 1j]


def value(c, name, rich=True):
    """An arbitrary value and what has to be recorded about it: (value, text or number, name of the type)."""
    kind = c.choose(name + ' kind', ['bool', 'int', 'float', 'str', 'object', 'any text', 'subclass', 'unprintable'] if rich else ['str', 'unprintable'])
    if kind == 'bool':
        x = c.bool(name + ' bool')
    elif kind == 'int':
        x = c.int(name + ' int')
    elif kind == 'float':
        x = c.real(name + ' real')
    elif kind == 'str':
        x = c.str(name + ' str')
    elif kind == 'object':
        x = c.choose(name + ' object', OBJECTS)
        return x, str(x), type(x).__name__
    elif kind == 'any text':
        text = c.str(name + ' text') if c.symbolic else c.choose(name + ' text', ['', 'x' * 5000, '\u20ac\n"\x00'])
        return Told(text), text, 'Told'
    elif kind == 'subclass':
        return IntSub(7), 7, 'int'
    else:
        return Unprintable(), None, 'Unprintable'
    return x, x, kind


def tells(c, what, item, v):
    """item: what json gives back for the value v."""
    x, want, tp = v
    c.prove(what + ' has a value and a type', set(item.keys()) == {'value', 'type'})
    c.prove(what + ': the type', item['type'] == tp)
    if want is None:
        c.prove(what + ': some text about an unprintable value', isinstance(item['value'], str) and len(item['value']) > 0)
    else:
        c.prove(what + ': the value', c.eq(item['value'], want) if type(x) is IntSub else c.same(item['value'], want))


def decode(c, text):
    return c.get('polog.core.stores.settings.settings_store:SettingsStore')()['json_module'].loads(text)


@contract('C21', [JV + 'json_vars', JV + 'get_item'])
def variables(c):
    """json_vars(*args, **kwargs): every argument, in order, every keyword under its name, with its value and type; None without arguments.
    One of the values is of any kind, the others are any texts or unprintable."""
    n, m = c.choose('args', [0, 1, 2]), c.choose('kwargs', [0, 1, 2])
    if n + m == 4:
        m = 1
    rich = c.choose('arbitrary', list(range(max(1, n + m))))
    a = [value(c, 'a%d' % i, i == rich) for i in range(n)]
    k = {'k%d' % i: value(c, 'k%d' % i, n + i == rich) for i in range(m)}
    out = c.run(lambda: c.get('polog:json_vars')(*[v[0] for v in a], **{key: v[0] for key, v in k.items()}))
    c.prove('it never fails', out.ok)
    if not out.ok:
        return
    if n + m == 0:
        c.prove('None without arguments', out.value is None)
        return
    d = decode(c, out.value)
    c.prove('nothing else', set(d.keys()) == {x for x, y in (('args', n), ('kwargs', m)) if y})
    if n:
        c.prove('as many arguments', len(d['args']) == n)
        for i in range(n):
            tells(c, 'argument', d['args'][i], a[i])
    if m:
        c.prove('the same names in the same order', list(d['kwargs'].keys()) == list(k))
        for key in k:
            tells(c, 'keyword', d['kwargs'][key], k[key])


@contract('C21', [FL + '.log_normal_info', FL + '.log_exception_info', JV + 'json_vars', JV + 'json_one_variable', JV + 'get_item'])
def decorated_call(c):
    """the record of a decorated call tells its arguments, its result or its exception, whatever they are"""
    setting(c, level=0)
    rec = capture(c)
    log = c.get('polog:log')
    kind = c.choose('kind', ['sync', 'async'])
    fails = c.choose('fails', [False, True])
    rich = c.choose('arbitrary', ['a', 'k', 'r'])
    a, k, r = [value(c, x, x == rich) for x in ('a', 'k', 'r')]
    exc = c.choose('exception', [ValueError('reason'), UserError(), BadStrError('x')]) if fails else None

    def outcome():
        if fails:
            raise exc
        return r[0]
    if kind == 'sync':
        @log
        def f(*args, **kwargs):
            return outcome()
        out = c.run(lambda: f(a[0], key=k[0]))
    else:
        @log
        async def f(*args, **kwargs):
            return outcome()
        out = c.run_coro(f(a[0], key=k[0]))
    c.prove('one record', len(rec) == 1)
    if not len(rec):
        return
    d = decode(c, rec.field(0, 'input_variables'))
    c.prove('one argument and one keyword', len(d['args']) == 1 and list(d['kwargs'].keys()) == ['key'])
    tells(c, 'argument', d['args'][0], a)
    tells(c, 'keyword', d['kwargs']['key'], k)
    if fails:
        c.prove('the type of the exception', rec.field(0, 'exception_type') == type(exc).__name__)
        c.prove('its message', rec.field(0, 'exception_message') == (None if type(exc) is BadStrError else str(exc)))
        c.prove('a traceback', rec.field(0, 'traceback') is not None)
        c.prove('no result', rec.field(0, 'result') is None)
    else:
        tells(c, 'result', decode(c, rec.field(0, 'result')), r)
        c.prove('no exception', rec.field(0, 'exception_type') is None and rec.field(0, 'traceback') is None)


@contract('C21', [FL + '.log_exception_info', 'polog.core.utils.get_traceback:get_traceback', 'polog.core.utils.get_traceback:get_locals_from_traceback'], mode='concrete', cases=200)
def local_variables(c):
    """BOUNDED the record of a failed decorated call tells the local variables of the function that failed, and the lines of the traceback"""
    setting(c, level=0)
    rec = capture(c)
    log = c.get('polog:log')
    a, b = value(c, 'a'), value(c, 'b')
    depth = c.choose('depth', [0, 1, 3])
    kind = c.choose('kind', ['sync', 'async', 'manual'])

    def deeper(n):
        if n:
            return deeper(n - 1)
        raise ValueError('reason')
    if kind == 'sync':
        @log
        def f(x):
            y = b[0]
            deeper(depth)
        c.run(f, a[0])
    elif kind == 'async':
        @log
        async def f(x):
            y = b[0]
            deeper(depth)
        c.run_coro(f(a[0]))
    else:
        def f(x):
            y = b[0]
            deeper(depth)

        def g():
            try:
                f(a[0])
            except ValueError as e:
                log('m', exception=e)
        g()
    c.prove('one record', len(rec) == 1)
    d = decode(c, rec.field(0, 'local_variables'))
    c.prove('the variables of the function', {'x', 'y'} <= set(d['kwargs']))
    tells(c, 'x', d['kwargs']['x'], a)
    tells(c, 'y', d['kwargs']['y'], b)
    lines = decode(c, rec.field(0, 'traceback'))
    c.prove('as many lines as there are calls', len(lines) == depth + 2 + (kind == 'manual'))
    c.prove('the last line is where it was raised', 'in deeper' in lines[-1] and "raise ValueError('reason')" in lines[-1])


# ------------------------------------------------------------ the default formatter
def item(c, fields):
    i = c.get('polog.core.log_item:LogItem')()
    i.set_data(fields)
    return i


TIMES = [None, datetime.datetime(2021, 3, 4, 5, 6, 7, 89), 'tomorrow', 5]
LEVELS = [(None, 'UNKNOWN'), (0, '0'), (7, 'lol'), (123456789, '123456789'), ('text', 'text')]
SUCCESS = [(None, 'UNKNOWN'), (True, 'SUCCESS'), (False, 'ERROR')]
AUTO = [(None, 'MANUAL'), (True, 'AUTO'), (False, 'MANUAL')]


def center(text, width):
    left = max(0, width - len(text)) // 2
    return ' ' * left + text + ' ' * (max(0, width - len(text)) - left)


def line_is(c, out, parts, separator):
    c.prove('formatting never fails', out.ok)
    if out.ok:
        want = parts[0]
        for p in parts[1:]:
            want = want + ' | ' + p
        c.prove('exactly the fields, in order, then the separator', c.eq(out.value, want + separator))


def a_formatter(c, sep):
    """Before its first line or after it (specs/frame.py: further lines leave no trace)."""
    f = c.get(FMT)(sep)
    if c.choose('lines before', [False, True]):
        c.run(f.get_formatted_string, item(c, {'message': 'earlier', 'other': 'x'}))
    return f


@contract('C21', [FMT + '.get_formatted_string', FMT + '.add_base_fields', FMT + '.width_and_align', FMT + '.format', EX + '.time', EX + '.level', EX + '.success', EX + '.auto', EX + '.message'])
def heads_of_lines(c):
    """time, level, success, auto, message: present, absent or unusual"""
    c.get('polog:config').levels(lol=7)
    fields, parts = {}, []
    t = c.choose('time', TIMES)
    if t is not None:
        fields['time'] = t
    parts.append('[----time not specified----]' if t is None else '[%s]' % t)
    level, text = c.choose('level', LEVELS)
    if level is not None:
        fields['level'] = level
    parts.append(center(text, 7))
    success, text = c.choose('success', SUCCESS)
    if success is not None:
        fields['success'] = success
    parts.append(center(text, 7))
    auto, text = c.choose('auto', AUTO)
    if auto is not None:
        fields['auto'] = auto
    parts.append(center(text, 6))
    if c.maybe('message'):
        fields['message'] = m = c.str('message text')
        parts.append('"' + m + '"')
    parts.append('where: ?')
    separator = c.str('separator')
    f = c.get(FMT)(separator)
    twice = c.maybe('not the first line')
    if twice:
        f.get_formatted_string(item(c, {}))
    line_is(c, c.run(f.get_formatted_string, item(c, fields)), parts, separator)


HEAD = ['[----time not specified----]', 'UNKNOWN', 'UNKNOWN', 'MANUAL']


@contract('C21', [FMT + '._get_formatted_string', EX + '.function', EX + '.exception', EX + '.time_of_work', EX + '.traceback'])
def places_and_exceptions(c):
    """service, module, class and function in every combination; the exception with and without a message; the time of work; the traceback"""
    fields, parts = {}, list(HEAD)
    names = []
    service = c.choose('service', ['none', 'set', 'own', 'own and set'])
    if service in ('set', 'own and set'):
        setting(c, service_name='the_service')
    if service.startswith('own'):
        fields['service_name'] = 'its_own'
    if service != 'none':
        names.append('the_service' if service == 'set' else 'its_own')
    for key in ('module', 'class', 'function'):
        if c.maybe(key):
            fields[key] = c.str(key + ' name')
            if key != 'function':
                c.assume(c.not_(c.eq(fields[key], '')))
                names.append(fields[key])
    where = 'where: '
    for i, n in enumerate(names):
        where = where + ('.' if i else '') + n
    if 'function' in fields:
        where = where + ('.' if names else '') + fields['function'] + '()'
    else:
        where = where + ('.?' if names else '?')
    parts.append(where)
    work = c.choose('time of work', [None, (0, '0'), (0.0, '0'), (1.5, '1.5'), (100, '100'), (0.00000001, '0.00000001'), (1200.25, '1200.25')])
    if work is not None:
        fields['time_of_work'] = work[0]
        parts.append('time of work: %s sec.' % work[1])
    exc = c.choose('exception', ['no', 'type', 'both'])
    if exc != 'no':
        fields['exception_type'] = 'SomeError'
        text = 'exception: SomeError('
        if exc == 'both':
            fields['exception_message'] = m = c.str('exception text')
            text = text + '"' + m + '"'
        parts.append(text + ')')
    tb = c.choose('traceback', [None, [], ['  File "/a b/c, d.py", line 3, in f\n    x = 1   + 2\n'], ['  File "/a.py", line 3, in <lambda>\n    g()\n', '  File "<stdin>", line 40, in g\n']])
    if tb is not None:
        fields['traceback'] = json.dumps(tb)
        parts.append('no traceback' if not tb else 'traceback: x = 1 + 2 ("/a b/c, d.py", line 3, in f)' if len(tb) == 1 else
                     'traceback: g() ("/a.py", line 3, in <lambda>);  ("<stdin>", line 40, in g)')
    f = a_formatter(c, '\n')
    parts[1:4] = [center(p, w) for p, w in zip(parts[1:4], (7, 7, 6))]
    line_is(c, c.run(f.get_formatted_string, item(c, fields)), parts, '\n')


def shown(v):
    x, want, tp = v
    if tp == 'str':
        return '"' + x + '"' + ' (str)'
    return str(want) + ' (%s)' % tp


@contract('C21', [EX + '.input_variables', EX + '.local_variables', EX + '.result', EX + '.json_variables_to_text', EX + '.json_variable_to_human_readable_text', JV + 'json_vars'])
def variables_in_lines(c):
    """input variables, local variables and the result are shown by value and type, in order"""
    def val(name):
        kind = c.choose(name, ['str', 'bool', 'number', 'none', 'list'])
        if kind == 'str':
            x = c.str(name + ' text')
            return x, x, 'str'
        x = {'bool': True, 'number': 12.5, 'none': None, 'list': [1]}[kind]
        return x, (x if kind in ('bool', 'number') else str(x)), type(x).__name__
    fields, parts = {}, list(HEAD) + ['where: ?']
    which = c.choose('which', ['input_variables', 'local_variables', 'result'])
    if which == 'result':
        v = val('r')
        fields['result'] = c.get(JV + 'json_one_variable')(v[0])
        parts.append('result: ' + shown(v))
    else:
        n, m = c.choose('args', [0, 1, 2]), c.choose('kwargs', [0, 1])
        a = [val('a%d' % i) for i in range(n)]
        k = [('k%d' % i, val('k%d' % i)) for i in range(m)]
        text = c.get('polog:json_vars')(*[v[0] for v in a], **{key: v[0] for key, v in k})
        if text is not None:
            fields[which] = text
            line = None
            for s in [shown(v) for v in a] + [key + ' = ' + shown(v) for key, v in k]:
                line = s if line is None else line + ', ' + s
            parts.append(which.replace('_', ' ') + ': ' + line)
    f = a_formatter(c, '\n')
    parts[1:4] = [center(p, w) for p, w in zip(parts[1:4], (7, 7, 6))]
    line_is(c, c.run(f.get_formatted_string, item(c, fields)), parts, '\n')


@contract('C21', [FMT + '.add_extra_fields', FMT + '._get_formatted_string'])
def user_fields(c):
    """every other field is shown under its name, text in quotes; an unprintable value does not break the line"""
    fields, parts = {}, list(HEAD) + ['where: ?']
    unprintable = False
    for i in range(c.choose('fields', [0, 1, 2, 3])):
        name = 'field_%d' % i
        kind = c.choose(name, ['str', 'int', 'none', 'object', 'any text', 'unprintable'])
        if kind == 'str':
            fields[name] = x = c.str(name + ' text')
            parts.append(name + ': "' + x + '"')
        elif kind == 'int':
            fields[name] = x = c.int(name + ' number')
            parts.append(name + ': ' + c.strof(x))
        elif kind == 'none':
            fields[name] = None
        elif kind == 'object':
            fields[name] = x = c.choose(name + ' object', OBJECTS[1:])
            parts.append('%s: %s' % (name, x))
        elif kind == 'any text':
            x = c.str(name + ' object text') if c.symbolic else c.choose(name + ' object text', ['', 'x' * 5000, '\u20ac\n"\x00'])
            fields[name] = Told(x)
            parts.append(name + ': ' + x)
        else:
            fields[name] = Unprintable()
            unprintable = True
            parts.append(name)
    f = a_formatter(c, '\n')
    parts[1:4] = [center(p, w) for p, w in zip(parts[1:4], (7, 7, 6))]
    out = c.run(f.get_formatted_string, item(c, fields))
    if not unprintable:
        line_is(c, out, parts, '\n')
        return
    c.prove('formatting never fails', out.ok)
    if out.ok and not c.symbolic:
        for p in parts:
            c.prove('the other fields are there', p in out.value)
