"""C20 - the bridge from the standard logging."""
PYVC_TRUSTED = True
import json
import logging
import types

from specs.lib import *

FILTER = 'polog.core.stores.settings.actions.integration_with_logging:from_logging_filter_to_polog'
ACTION = 'polog.core.stores.settings.actions.integration_with_logging:integration_with_logging'


class Root:
    """The part of logging.Logger the bridge works with: filters in order, a refusal stops the record, the handlers get the rest."""
    pv_ghost = True

    def __init__(self):
        self.filters = []
        self.handled = []

    def addFilter(self, f):
        if not any(x is f for x in self.filters):
            self.filters.append(f)

    def removeFilter(self, f):
        self.filters = [x for x in self.filters if x is not f]

    def handle(self, record):
        for f in list(self.filters):
            if not f(record):
                return
        self.handled.append(record)


class Capturing(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.handled = []

    def emit(self, record):
        self.handled.append(record)


class Std:
    """The standard logging: a stand-in in the proof, the real one at run time."""
    pv_ghost = True

    def __init__(self, c):
        if c.symbolic:
            self.root = Root()
            m = types.ModuleType('logging')
            m.root, m.getLogger = self.root, lambda *a: self.root
            c.setup_stub('logging', m)
            self.out = self.root
        else:
            self.root = logging.root
            self.out = Capturing()
            self.root.handlers[:] = [self.out]

    @property
    def handled(self):
        return self.out.handled


class Record:
    """An arbitrary record of logging."""
    pv_ghost = True

    def __init__(self, c, name, exc=True):
        self.c = c
        self.created = c.real(name + ' created', lo=0)
        self.levelno = c.int(name + ' levelno', lo=0)
        self.text = c.str(name + ' text')
        self.broken = c.choose(name + ' formatting', ['works', 'fails', 'msg is a number', 'no truth value'])
        self.msg = {'msg is a number': 0, 'no truth value': NoTruth()}.get(self.broken, self.text)
        self.args = ('wrong',) if self.broken == 'fails' else ()
        self.module = c.str(name + ' module')
        self.lineno = c.int(name + ' lineno')
        self.funckind = c.choose(name + ' funcName', ['unknown', '<module>', '<lambda>', 'f', None])
        self.funcName = c.str(name + ' function') if self.funckind == 'unknown' else self.funckind
        self.pathname = c.str(name + ' pathname')
        self.threadName, self.thread = 'MainThread', 1
        self.processName, self.process = 'MainProcess', 2
        self.filters = self.exc_info = None
        self.exc = None
        if exc:
            kind = c.choose(name + ' exc_info', ['no', 'empty', 'exception', 'unprintable'])
            if kind == 'empty':
                self.exc_info = (None, None, None)
            elif kind != 'no':
                self.exc = ValueError(c.str(name + ' exception text')) if kind == 'exception' else BadStrError('x')
                try:
                    raise self.exc
                except Exception as e:
                    self.exc_info = (type(e), e, e.__traceback__)
        self.exc_text = self.stack_info = None
        self.name, self.levelname = 'root', 'LEVEL'

    def getMessage(self):
        if self.broken == 'fails':
            raise TypeError('not all arguments converted during string formatting')
        if self.broken == 'msg is a number':
            return '0'
        if self.broken == 'no truth value':
            return 'an array'
        return self.text

    def message(self):
        return self.text if self.broken == 'fails' else self.getMessage()


class NoTruth:
    """Like an array of numpy."""
    def __bool__(self):
        raise ValueError('the truth value is ambiguous')

    def __str__(self):
        return 'an array'


def equal_record(c, rec, i, r):
    text = r.message()
    c.prove('the message', c.ite(c.eq(text, ''), rec.field(i, 'message') is None, c.eq(rec.field(i, 'message'), text)) if rec.field(i, 'message') is not None else c.eq(text, ''))
    c.prove('the level', c.eq(rec.field(i, 'level'), r.levelno))
    c.prove('a failure from WARNING on', c.iff(rec.field(i, 'success') is False, r.levelno >= 30))
    c.prove('a success below', c.iff(rec.field(i, 'success') is True, r.levelno < 30))
    c.prove('the module', c.eq(rec.field(i, 'module'), r.module))
    c.prove('the line', c.eq(rec.field(i, 'line_number'), r.lineno))
    c.prove('the path', c.eq(rec.field(i, 'path_to_code'), r.pathname))
    f = rec.field(i, 'function')
    if r.funckind in (None, '<module>', '<lambda>'):
        c.prove('no function', f is None)
    else:
        c.prove('the function if it has a name', c.iff(f is not None, r.funcName.isidentifier()))
        if f is not None:
            c.prove('the function', c.eq(f, r.funcName))
    if r.exc is None:
        c.prove('no exception', rec.field(i, 'exception_type') is None and rec.field(i, 'exception_message') is None and rec.field(i, 'traceback') is None)
    else:
        c.prove('the type of the exception', rec.field(i, 'exception_type') == type(r.exc).__name__)
        if type(r.exc) is ValueError:
            c.prove('the message of the exception', c.eq(rec.field(i, 'exception_message'), r.exc.args[0]))
        c.prove('its traceback', len(json.loads(rec.field(i, 'traceback'))) == 1)
    c.prove('the thread and the process', rec.field(i, 'thread') == 'MainThread (1)' and rec.field(i, 'process') == 'MainProcess (2)')
    c.prove('marked', rec.field(i, 'from_logging') is True and rec.field(i, 'auto') is False)
    if c.symbolic:
        c.prove('the time', rec.field(i, 'time').t == r.created.t)
    else:
        import datetime
        c.prove('the time', rec.field(i, 'time') == datetime.datetime.fromtimestamp(r.created))


@contract('C20', [FILTER])
def one_record(c):
    """an arbitrary record of logging: nothing is raised, exactly one equal record is written if its level reaches the threshold, and it is handed on exactly when logging_off is off"""
    std = Std(c)
    level = c.int('threshold', lo=0)
    setting(c, level=level)
    off = symbolic_bools(c, 'logging_off')['logging_off']
    rec = capture(c)
    r = Record(c, 'r')
    out = c.run(std.root.handle, r)
    c.prove('nothing is raised in the code that logs', out.ok)
    c.prove('one record exactly when the level reaches the threshold', c.iff(len(rec) == 1, r.levelno >= level))
    c.prove('never two', len(rec) <= 1)
    c.prove('handed on exactly when logging_off is off', c.iff(len(std.handled) == 1, c.not_(off)))
    if len(rec):
        equal_record(c, rec, 0, r)


@contract('C20', [ACTION, FILTER, 'polog.core.stores.settings.setting_point:SettingPoint.set'])
def switching(c):
    """every sequence of switching: a record becomes one polog record exactly when the integration is on at that moment, however often it was switched on, and is handed on unless both settings are on"""
    std = Std(c)
    setting(c, level=0)
    rec = capture(c)
    on, off = True, True
    config = c.get('polog:config')
    for i in range(3):
        act = c.choose('act %d' % i, ['on', 'off', 'logging_off', 'logging_on', 'nothing'])
        if act == 'on':
            setting(c, integration_with_logging=True)
            on = True
        elif act == 'logging_on':
            setting(c, logging_off=False)
            off = False
        elif act == 'off':
            out = c.run(lambda: config.set(integration_with_logging=False))
            c.prove('cannot be switched off while logging is', out.ok is not off)
            on = on and off
        elif act == 'logging_off':
            out = c.run(lambda: config.set(logging_off=True))
            c.prove('logging cannot be switched off without the integration', out.ok is on)
            off = off or on
        r = Plain('message %d' % i)
        before, handled = len(rec), len(std.handled)
        out = c.run(std.root.handle, r)
        c.prove('nothing is raised', out.ok)
        c.prove('one record while the integration is on, none otherwise', len(rec) == before + on)
        if on:
            c.prove('its message', rec.field(len(rec) - 1, 'message') == 'message %d' % i)
        c.prove('handed on unless logging_off', len(std.handled) == handled + (not off))


class Plain:
    levelno, created, module, lineno, funcName, pathname = 30, 5.0, 'm', 1, 'f', 'p.py'
    threadName, thread, processName, process, exc_info, args, exc_text, stack_info, name, levelname = 't', 1, 'p', 2, None, (), None, None, 'root', 'WARNING'

    def __init__(self, msg):
        self.msg = msg

    def getMessage(self):
        return self.msg


@contract('C20', [FILTER], mode='concrete')
def real_logging(c):
    """BOUNDED the functions of the real logging module, root and other loggers, with arguments, exceptions and extra levels"""
    std = Std(c)
    setting(c, level=0, logging_off=c.choose('off', [False, True]))
    off = c.get('polog.core.stores.settings.settings_store:SettingsStore')()['logging_off']
    rec = capture(c)
    logging.root.setLevel(c.choose('root level', [0, 20, 40]))
    name, level = c.choose('function', [('debug', 10), ('info', 20), ('warning', 30), ('error', 40), ('critical', 50), ('exception', 40), ('log', 25)])
    fmt, args, text = c.choose('message', [('m', (), 'm'), ('%s and %d', ('a', 1), 'a and 1'), ('%(x)s', ({'x': 1},), '1'), ('100%', (), '100%'), ('%d', ('no number',), '%d'), (5, (), '5'), ('', (), None)])
    inside = c.choose('inside except', [False, True])
    logger = c.choose('logger', ['root', 'named'])
    if logger == 'named':
        target = logging.getLogger('verif.named')
        target.filters[:] = [c.get(FILTER)]
        target.setLevel(logging.root.level)
    else:
        target = logging.root

    def use():
        f = getattr(target, name)
        f(*((level,) if name == 'log' else ()), fmt, *args)
    if inside:
        try:
            raise ValueError('reason')
        except ValueError:
            out = c.run(use)
    else:
        out = c.run(use)
    c.prove('nothing is raised', out.ok)
    passes = level >= logging.root.level and not (logging.root.level == 0 and False)
    c.prove('one record exactly when logging lets it through', len(rec) == (1 if passes else 0))
    c.prove('handed on exactly when logging_off is off', len(std.handled) == (1 if passes and not off else 0))
    if passes:
        c.prove('the message', rec.field(0, 'message') == text)
        c.prove('the level', rec.field(0, 'level') == level)
        c.prove('the outcome', rec.field(0, 'success') is (level < 30))
        c.prove('the place', rec.field(0, 'function') == 'use' and rec.field(0, 'module') == 'c20' and rec.field(0, 'path_to_code').endswith('c20.py'))
        if name == 'exception' and inside:
            c.prove('the exception', rec.field(0, 'exception_type') == 'ValueError' and rec.field(0, 'exception_message') == 'reason')
        else:
            c.prove('no exception', rec.field(0, 'exception_type') is None)
