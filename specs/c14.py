"""C14 - the file handler: every record once and in whole, rotation loses nothing, locks."""
PYVC_TRUSTED = True
from specs.lib import *

FW = 'polog.handlers.file.writer:file_writer'
W = 'polog.handlers.file.file_dependency_wrapper:FileDependencyWrapper'
ROT = 'polog.handlers.file.rotation.rotator:Rotator'
DL = 'polog.handlers.file.locks.double_lock:DoubleLock'
T = [FW + '.__init__', FW + '.do', FW + '.maybe_flush', FW + '.maybe_rotation', W + '.__init__', W + '.get_file_object', W + '.is_file_object', W + '.write', W + '.flush', W + '.get_size', W + '.move_file', W + '.reopen', W + '.open',
     W + '.make_dirs_for_path', ROT + '.maybe_do', ROT + '.do', ROT + '.new_filename', DL + '.__enter__', DL + '.__exit__', DL + '.get_lock_types', 'polog.handlers.abstract.base:BaseHandler.__call__',
     'polog.handlers.file.locks.file_lock:FileLock.acquire', 'polog.handlers.file.locks.file_lock:FileLock.release', 'polog.handlers.file.locks.thread_lock:ThreadLock.acquire', 'polog.handlers.file.locks.thread_lock:ThreadLock.release']
ASSUMPTIONS = ['file system: the model pyvc/fs.py (inodes, buffered files, advisory locks; an injected failure happens before the call has any effect; a partial write is not modelled)',
               'two rotations never get the same name (the name holds the time and the process)']
LOCKS = ['thread', 'file', 'thread+file', ' file + thread', None]


class Sent:
    """The texts the formatter gives, one per record."""
    pv_ghost = True

    def __init__(self, texts):
        self.texts, self.n = list(texts), 0

    def next(self):
        t = self.texts[self.n]
        self.n += 1
        return t


def make(c, fs, sent, alt=None, path='file.log', **kw):
    def formatter(item):
        return sent.next()
    out = c.run(c.get(FW), path, formatter=formatter, alt=alt, **kw)
    c.prove('the handler is made', out.ok)
    return out.value


def types(lock_type):
    return [] if lock_type is None else [x.strip() for x in lock_type.split('+')]


def archives(fs):
    return sorted(p for p in fs.files() if p.startswith('archive/'))


def nothing_held(c, fs, unlocking_failed=False):
    c.prove('all locks are free afterwards', not c.held() and (unlocking_failed or not fs.flocked()))


def locked(c, fs, lock_type, since, main='file.log'):
    """Every access to the log file is under the configured locks."""
    if not c.symbolic:
        return
    ops = [o for o in fs.ops[since:] if o[0] in ('write', 'flush', 'move', 'close', 'open') and not o[1].endswith('.lock')]
    if 'thread' in types(lock_type) and ops:
        common = [l for l in ops[0][3] if all(l in o[3] for o in ops)]
        c.prove('one lock covers all writes, flushes and moves', bool(common))
        locks = [o for o in fs.ops[since:] if o[0] in ('flock', 'funlock')]
        c.prove('the file lock is taken and released inside of it', all(any(l in common for l in o[3]) for o in locks))
    if 'file' in types(lock_type):
        c.prove('the file lock covers all writes, flushes and moves', all(o[4] for o in ops))


@contract('C14', T)
def any_text(c):
    """whatever text the formatter gives is appended to the file as it is, once, after what is there; with forced_flush it is on the disk at once"""
    fs = c.fs()
    lock_type = c.choose('locks', LOCKS)
    flush = c.choose('forced flush', [False, True])
    old = c.str('already there')
    exists = c.choose('file exists', [False, True])
    if exists:
        fs.make('file.log', text=old)
    records = [c.str('record %d' % i) for i in range(2)]
    h = make(c, fs, Sent(records), forced_flush=flush, lock_type=lock_type)
    whole = old if exists else ''
    for r in records:
        start = len(fs.ops)
        out = c.run(h, c.get('polog.core.log_item:LogItem')())
        c.prove('never raises', out.ok)
        whole = whole + r
        if flush:
            c.prove('on the disk at once', c.eq(fs.on_disk('file.log'), whole))
        locked(c, fs, lock_type, start)
        nothing_held(c, fs)
    c.prove('the file holds all records in order', c.eq(fs.text('file.log'), whole))


@contract('C14', T)
def rotation_keeps_everything(c):
    """a rotation moves all that was written before, still buffered or not, on one device or between two, into one new file; the record itself goes to the new file"""
    fs = c.fs()
    lock_type = c.choose('locks', LOCKS)
    flush = c.choose('forced flush', [False, True])
    fs.cross_device = c.choose('cross device', [False, True])
    if c.choose('directory exists', [False, True]):
        fs.mkdir_now('archive')
    old = c.str('already there')
    fs.make('file.log', text=old)
    records = [c.str('record %d' % i) for i in range(3)]
    limit = c.int('limit', lo=1, hi=60)
    h = make(c, fs, Sent(records), forced_flush=flush, lock_type=lock_type, rotation=c.text(limit, ' bytes >> archive'))
    whole, count = old, 0
    for i, r in enumerate(records):
        start = len(fs.ops)
        before = [fs.text(p) for p in archives(fs)]
        on_disk, with_buffers = fs.disk_size('file.log'), fs.whole_size('file.log')
        out = c.run(h, c.get('polog.core.log_item:LogItem')())
        c.prove('never raises', out.ok)
        locked(c, fs, lock_type, start)
        nothing_held(c, fs)
        whole = whole + r
        after = archives(fs)
        c.prove('at most one rotation per record', len(after) - len(before) in (0, 1))
        c.prove('earlier archives are not changed', c.and_(*[c.eq(fs.text(p), t) for p, t in zip(after, before)]))
        everything = ''
        for p in after:
            everything = everything + fs.text(p)
        c.prove('the archives and the file hold everything in order', c.eq(everything + fs.text('file.log'), whole))
        if len(after) > len(before):
            c.prove('the record is in the new file', c.eq(fs.text('file.log'), r))
            c.prove('rotated because the file is large enough', with_buffers >= limit)
        else:
            c.prove('not rotated because the file is not large enough', c.not_(on_disk >= limit))


OPS = ['open', 'stat', 'write', 'flush', 'move', 'mkdir', 'close', 'flock', 'funlock']


def failing(c, op, first, how):
    error = {'OSError': OSError(28, 'No space left on device'), 'missing': FileNotFoundError(2, 'No such file'), 'permission': PermissionError(13, 'Permission denied'), 'value': ValueError('I/O operation'),
             'interrupt': KeyboardInterrupt()}[how]

    def fault(o, path, n):
        if o == op and n == first[0]:
            return error
    return fault


def step_with_faults(c, fs, h, sent, n, lock_type, ops, errors, alts, clean=0):
    """n records, in each of them at most one failure, at any call of the operating system."""
    item = c.get('polog.core.log_item:LogItem')()
    stale = False
    for i in range(n):
        op = c.choose('failing call %d' % i, [None] + ops) if i < n - clean else None
        if op is not None:
            if op in ('flush', 'flock', 'funlock'):
                k = c.choose('which call %d' % i, [0, 1, 2])
            elif op == 'move':
                k = c.choose('which call %d' % i, [0, 1])
            else:
                k = 0
            fs.fault = failing(c, op, [fs.count.get(op, 0) + k], c.choose('error %d' % i, errors))
        start = len(fs.ops)
        out = c.run(h, item)
        fs.fault = None
        c.prove('never raises', out.ok)
        locked(c, fs, lock_type, start)
        stale = op == 'funlock' or stale and op == 'flock'
        nothing_held(c, fs, stale)
        everything = ''.join(fs.files().values())
        c.prove('no record is doubled', all(everything.count('<%d>' % j) <= 1 for j in range(n)))
        c.prove('no record is lost: it is in a file or was handed to the alternative', all(everything.count('<%d>' % j) == 1 or j in alts for j in range(i + 1)))
        if op not in ('write', 'flush', 'flock', 'funlock'):
            c.prove('a failure of the rotation does not touch the record', i not in alts and everything.count('<%d>' % i) == 1)
        if op is None:
            c.prove('old records are kept', everything.count('[old]') == 1)
    c.prove('what was there is kept', ''.join(fs.files().values()).count('[old]') == 1)


def faults(c, n, ops, errors, lock_types, clean=0):
    fs = c.fs()
    lock_type = c.choose('locks', lock_types)
    flush = c.choose('forced flush', [False, True])
    fs.cross_device = c.choose('cross device', [False, True])
    fs.make('file.log', text='[old]')
    sent = Sent(['<%d>' % i for i in range(n)])
    alts = []

    def alt(item):
        alts.append(sent.n - 1)
    h = make(c, fs, sent, alt=alt, forced_flush=flush, lock_type=lock_type, rotation='1 byte >> a/b')
    step_with_faults(c, fs, h, sent, n, lock_type, ops, errors, alts, clean)
    return fs, alts


@contract('C14', T)
def any_failure(c):
    """a failure of the operating system at any call made for a record: nothing is lost or doubled, the locks are released"""
    fs, alts = faults(c, 1, OPS, ['OSError', 'missing', 'permission', 'value'], LOCKS)


@contract('C14', T)
def failures_in_history(c):
    """failures in two records, then one without"""
    faults(c, 3, OPS, ['OSError'], ['thread+file'], clean=1)


@contract('C14', T)
def missing_errors_in_history(c):
    """the same with failures of the kind the code itself looks for"""
    faults(c, 2, OPS, ['missing'], ['thread'])


@contract('C14', [DL + '.__enter__', DL + '.__exit__', W + '.write', W + '.flush', W + '.move_file'])
def interrupted(c):
    """a KeyboardInterrupt out of any call releases the locks too"""
    fs = c.fs()
    lock_type = c.choose('locks', LOCKS)
    fs.make('file.log', text='[old]')
    h = make(c, fs, Sent(['<0>', '<1>']), lock_type=lock_type, rotation='1 byte >> a/b')
    op = c.choose('failing call', ['open', 'write', 'flush', 'move', 'mkdir', 'close', 'flock', 'funlock'])
    k = c.choose('which call', [0, 1, 2])
    fs.fault = failing(c, op, [fs.count.get(op, 0) + k], 'interrupt')
    c.run(h, c.get('polog.core.log_item:LogItem')())
    fs.fault = None
    if op != 'funlock':
        nothing_held(c, fs)
        out = c.run(h, c.get('polog.core.log_item:LogItem')())
        everything = ''.join(fs.files().values())
        c.prove('the next record is written', out.ok and everything.count('<1>') == 1)
        c.prove('nothing is lost', everything.count('[old]') == 1)


@contract('C14', T)
def file_objects_and_console(c):
    """a file object gets each text once by write(), under the lock, then flush() exactly with forced_flush; it is never closed"""
    did = []
    lock_type = c.choose('locks', LOCKS)
    flush = c.choose('forced flush', [False, True])
    fail = c.choose('fails', [None, 'write', 'flush'])
    fs = c.fs()

    class FileObject:
        def write(self, x):
            did.append(('write', x, c.held()))
            if fail == 'write':
                raise UserError('write')

        def flush(self):
            did.append(('flush', None, c.held()))
            if fail == 'flush':
                raise UserError('flush')

        def read(self, *a):
            did.append(('read', None, c.held()))

        def close(self):
            did.append(('close', None, c.held()))
    r = c.str('record')
    alts = []
    h = make(c, fs, Sent([r, r]), alt=alts.append, path=FileObject(), forced_flush=flush, lock_type=lock_type)
    for i in range(2):
        del did[:]
        out = c.run(h, c.get('polog.core.log_item:LogItem')())
        c.prove('never raises', out.ok)
        c.prove('written once', [d[0] for d in did] == (['write', 'flush'] if flush and fail != 'write' else ['write']))
        c.prove('the text as it is', c.same(did[0][1], r) or c.truth(c.eq(did[0][1], r)))
        c.prove('the alternative is called exactly for a failure', len(alts) == (i + 1 if fail == 'write' or (fail == 'flush' and flush) else 0))
        if c.symbolic and 'thread' in types(lock_type):
            c.prove('under one lock', any(all(l in d[2] for d in did) for l in did[0][2]))
        nothing_held(c, fs)


@contract('C14', [DL + '.get_lock_types', DL + '.__init__', FW + '.__init__'])
def lock_types(c):
    """thread, file, both or None; anything else is refused with ValueError"""
    fs = c.fs()
    shape = c.choose('shape', ['w', 'thread+w', 'w+file', 'doubled', 'empty', 'other type', 'three'])
    if shape == 'w':
        w = c.word('word')
        text, good = c.text(c.choose('before', ['', ' ']), w), c.or_(c.eq(w, 'thread'), c.eq(w, 'file'))
    elif shape == 'thread+w':
        w = c.word('word')
        text, good = c.text(c.choose('before', ['', ' ']), 'thread ', '+', w, ' '), c.eq(w, 'file')
    elif shape == 'w+file':
        w = c.word('word')
        text, good = c.text(w, '+ file'), c.eq(w, 'thread')
    elif shape == 'doubled':
        text, good = c.choose('text', ['thread+thread', 'file + file', 'thread+file+thread']), False
    elif shape == 'three':
        text, good = c.text('thread+file+', c.word('word')), False
    elif shape == 'empty':
        text, good = c.choose('text', ['', ' ', '\t\n']), False
    else:
        text, good = c.any('value', kinds=('bool', 'int', 'float', 'list', 'dict', 'class', 'func', 'other')), False
    out = c.run(c.get(FW), 'file.log', lock_type=text)
    c.prove('accepted exactly when it names known locks, each once', c.iff(out.ok, good))
    if not out.ok:
        c.prove('refused with ValueError', out.raised(ValueError))


@contract('C14', T, mode='concrete', cases=780, conc_budget=40, procs=4)
def two_writers(c):
    """BOUNDED: two threads write through one handler, or through two handlers of one file, with and without rotation; one preemption at every executed line of polog"""
    fs = c.fs()
    two = c.choose('handlers', [1, 2])
    lock_type = c.choose('locks', ['thread', 'thread+file']) if two == 1 else 'thread+file'
    rotation = c.choose('rotation', [None, '1 byte >> archive'])
    fs.make('file.log', text='[old]')
    names = ['<a>', '<b>', '<c>']

    def formatter(item):
        return item['name']
    LogItem = c.get('polog.core.log_item:LogItem')
    hs = [c.get(FW)('file.log', formatter=formatter, lock_type=lock_type, rotation=rotation) for _ in range(two)]

    def item(n):
        i = LogItem()
        i.set_data({'name': n})
        return i
    a, b = c.interleave('write', lambda: hs[0](item('<a>')), lambda: hs[-1](item('<b>')), points=130)
    c.prove('both end', a is not None and b is not None)
    c.prove('none raises', a.ok and b.ok)
    c.run(hs[0], item('<c>'))
    everything = ''.join(fs.files().values())
    c.prove('each record once, nothing lost', all(everything.count(n) == 1 for n in names + ['[old]']))
    c.prove('nothing else', len(everything) == 3 * 3 + 5)
