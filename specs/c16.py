"""C16 - a handler acts on a record exactly when its filters let it; the alternative; refused arguments; the memory handler."""
PYVC_TRUSTED = True
from specs.lib import *

B = 'polog.handlers.abstract.base:BaseHandler'
T = [B + '.__init__', B + '.__call__', B + '.to_do_or_not_to_do', B + '.run_alt', B + '.do_input_proves', 'polog.core.utils.signature_matcher:SignatureMatcher.is_handler']
MEM = 'polog.handlers.memory.saver:memory_saver'


def a_handler(c, did, content_fails, do_fails, content, **kw):
    Base = c.get(B)

    class handler(Base):
        def get_content(self, log):
            did.append(('content', log))
            if content_fails:
                raise content_fails
            return content

        def do(self, x):
            did.append(('do', x))
            if do_fails:
                raise do_fails
    return c.run(handler, **kw)


def a_record(c):
    LogItem = c.get('polog.core.log_item:LogItem')
    item = LogItem()
    data = {'message': 'm'}
    has = c.choose('success in the record', ['no', 'yes'])
    value = True
    if has == 'yes':
        value = c.any('success', ('none', 'bool', 'int'))
        data['success'] = value
    item.set_data(data)
    return item, value


def failure(c, name):
    return c.exception(name, base=False) if c.choose(name + ' fails', [False, True]) else None


@contract('C16', T)
def decision(c):
    """the whole table: only_errors, success of the record, the filter (none, True, False, anything else, failing), failures of the content and of the action, the alternative (none, fine, failing)"""
    did = []
    only = c.bool('only errors')
    fkind = c.choose('filter', ['none', 'bool', 'other', 'fails'])
    akind = c.choose('alternative', ['none', 'fine', 'fails'])
    fres = c.bool('filter result') if fkind == 'bool' else c.any('filter result', ('none', 'int', 'str', 'list', 'other')) if fkind == 'other' else None
    item, success = a_record(c)
    fail = c.choose('failure', [None, 'content', 'do'])
    exc = c.exception('failure', base=False) if fail else None

    def filter(log):
        did.append(('filter', log))
        if fkind == 'fails':
            raise UserError('filter')
        return fres

    def alt(log):
        did.append(('alt', log))
        if akind == 'fails':
            raise UserError('alt')
        return 'result of alt'
    content = c.any('content')
    h = a_handler(c, did, exc if fail == 'content' else None, exc if fail == 'do' else None, content, only_errors=only, filter=None if fkind == 'none' else filter, alt=None if akind == 'none' else alt)
    c.prove('accepted', h.ok)
    out = c.run(h.value, item)
    names = [n for n, x in did]
    skipped = c.and_(only, success)
    filtered = c.truth(skipped)
    asked = fkind != 'none' and not filtered
    c.prove('the filter is asked once exactly for records only_errors lets through', names.count('filter') == (1 if asked else 0))
    if asked and fkind == 'fails':
        c.prove('a failing filter: nothing is done, the failure goes to the engine', names == ['filter'] and out.raised(UserError))
        return
    acts = not filtered and (fkind != 'bool' or c.truth(fres))
    c.prove('acts exactly when the filters let it', names.count('content') == (1 if acts else 0))
    c.prove('acts once on the content it made', names.count('do') == (1 if acts and fail != 'content' else 0) and all(c.same(x, content) for n, x in did if n == 'do'))
    need = not acts or fail is not None
    c.prove('the alternative is called exactly for records not acted on or failed, once', names.count('alt') == (1 if need and akind != 'none' else 0))
    c.prove('everybody gets the record itself', all(x is item for n, x in did if n != 'do'))
    if akind == 'fails' and need:
        c.prove('only a failure of the alternative goes to the engine', out.raised(UserError) and str(out.exc) == 'alt')
    else:
        c.prove('never raises', out.ok)
    c.prove('in order', names == [n for n in ['filter'] if asked] + ([n for n in ['content'] + (['do'] if fail != 'content' else [])] if acts else []) + (['alt'] if need and akind != 'none' else []))


@contract('C16', T)
def interrupts_pass(c):
    """KeyboardInterrupt and the like out of a handler are not swallowed and not handed to the alternative"""
    did, alts = [], []
    where = c.choose('where', ['content', 'do'])
    exc = c.choose('exception', [KeyboardInterrupt, SystemExit, GeneratorExit])()
    h = a_handler(c, did, exc if where == 'content' else None, exc if where == 'do' else None, 'x', alt=lambda log: alts.append(log))
    LogItem = c.get('polog.core.log_item:LogItem')
    out = c.run(h.value, LogItem())
    c.prove('passes', out.exc is exc)
    c.prove('the alternative is not called', not alts)


def f0():
    pass


def f1(a):
    pass


def f1d(a, b=1):
    pass


def f2(a, b):
    pass


def fs(*a):
    pass


def fk(a, *, k):
    pass


class Call1:
    def __call__(self, a):
        pass


class Call2:
    def __call__(self, a, b):
        pass


CALLABLES = [(f0, False), (f1, True), (f2, False), (Call1(), True), (Call2(), False), (lambda x: x, True)]


@contract('C16', T)
def refused_arguments(c):
    """only_errors that is not a bool, a filter or an alternative that is not a function of one argument are refused with ValueError when the handler is made"""
    did = []
    which = c.choose('argument', ['only_errors', 'filter', 'alt'])
    if which == 'only_errors':
        v = c.any('value')
        good = c.isinstance(v, bool)
    elif c.choose('callable', [False, True]):
        v, good = c.choose('function', CALLABLES)
    else:
        v = c.any('value', ('none', 'bool', 'int', 'float', 'str', 'list', 'dict', 'other'))
        good = c.isinstance(v, type(None))
    out = a_handler(c, did, None, None, 'x', **{which: v})
    c.prove('accepted exactly when it is of the right kind', c.iff(out.ok, good))
    if not out.ok:
        c.prove('refused with ValueError', out.raised(ValueError))
    c.prove('nothing is called', not did)


@contract('C16', ['polog.handlers.file.writer:file_writer.__init__', 'polog.handlers.file.file_dependency_wrapper:FileDependencyWrapper.get_file_object', 'polog.handlers.file.file_dependency_wrapper:FileDependencyWrapper.is_file_object', B + '.do_input_proves'])
def file_arguments(c):
    """the same for the arguments of the file handler: forced_flush, separator, formatter; and the file: a name, a file object or nothing"""
    fs_ = c.fs()
    writer = c.get('polog.handlers.file.writer:file_writer')
    which = c.choose('argument', ['only_errors', 'forced_flush', 'separator', 'formatter', 'file', 'two files'])
    if which in ('only_errors', 'forced_flush'):
        v = c.any('value')
        out, good = c.run(writer, 'file.log', **{which: v}), c.isinstance(v, bool)
    elif which == 'separator':
        v = c.any('value')
        out, good = c.run(writer, 'file.log', separator=v), c.isinstance(v, str)
    elif which == 'formatter':
        v, good = c.choose('function', CALLABLES + [(None, True), (5, False), ('x', False)])
        out = c.run(writer, 'file.log', formatter=v)
    elif which == 'file':
        v = c.any('value', ('none', 'bool', 'int', 'float', 'list', 'dict', 'other'))
        out, good = c.run(writer, v), False
    else:
        out, good = c.run(writer, 'a.log', 'b.log'), False
    c.prove('accepted exactly when it is of the right kind', c.iff(out.ok, good))
    if not out.ok:
        c.prove('refused with ValueError', out.raised(ValueError))


@contract('C16', [MEM + '.__call__', MEM + '.clean', MEM + '.__init__'])
def memory(c):
    """the memory handler keeps every record in order, `last` is the newest, clean() forgets them; every memory_saver() is the same object"""
    saver = c.get(MEM)
    config = c.get('polog:config')
    a, b = saver(), saver()
    c.prove('one object', a is b)
    config.add_handlers(a)
    a.clean()
    kept, count = [], 0
    LogItem = c.get('polog.core.log_item:LogItem')
    for i in range(4):
        step = c.choose('step %d' % i, ['record', 'new saver', 'clean'])
        if step == 'record':
            item = LogItem()
            out = c.run(a, item)
            c.prove('never raises', out.ok)
            kept.append(item)
        elif step == 'clean':
            c.run(b.clean)
            kept = []
        else:
            a = saver()
        c.prove('all records in order', len(a.all) == len(kept) and all(x is y for x, y in zip(a.all, kept)))
        c.prove('the last one', a.last is (kept[-1] if kept else None))
        c.prove('no lock is left', not c.held())
    log = c.get('polog:log')
    plain(c, 'through the engine')
    c.prove('also through the engine', len(a.all) == len(kept) + 1 and a.last.get('message') == 'through the engine')


@contract('C16', [MEM + '.__call__', MEM + '.clean'], mode='concrete', cases=60)
def memory_interleaved(c):
    """BOUNDED: two records at once, a record against clean(): one preemption at every executed line"""
    saver = c.get(MEM)()
    saver.clean()
    LogItem = c.get('polog.core.log_item:LogItem')
    i, j = LogItem(), LogItem()
    clean = c.choose('clean', [False, True])
    x, y = c.interleave('record', lambda: saver(i), (lambda: saver.clean()) if clean else (lambda: saver(j)), points=12)
    c.prove('both end', x is not None and y is not None and x.ok and y.ok)
    if clean:
        c.prove('either order', (saver.all == [] and saver.last is None) or (len(saver.all) == 1 and saver.all[0] is i and saver.last is i))
    else:
        c.prove('both are kept', len(saver.all) == 2 and {id(k) for k in saver.all} == {id(i), id(j)} and saver.last is saver.all[-1])
