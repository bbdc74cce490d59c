"""C15 - the engine: every accepted record is processed exactly once."""
PYVC_TRUSTED = True
from specs.lib import *

E = 'polog.core.engine.engine:Engine'
POOL = 'polog.core.engine.real_engines.multithreaded.pool:ThreadPool'
WK = 'polog.core.engine.real_engines.multithreaded.worker:Worker'
MT = 'polog.core.engine.real_engines.multithreaded.engine:MultiThreadedRealEngine'
FABRIC = 'polog.core.engine.real_engines.fabric:real_engine_fabric'
ASSUMPTIONS = ['threads are verified thread-modularly: the body of a worker against an arbitrary queue, put and stop against arbitrary workers; the composition (after closing under the lock nothing enters the queue, so an empty queue stays empty; '
               'a worker leaves only after it found the queue empty with the flag set, and join waits for it) is argued in DESIGN.md and exercised by the bounded contracts',
               'queue.Queue, threading.Thread and Lock behave as documented; a record written by a handler while a bounded queue is full is out of the property (all workers may be waiting for each other)']


class GhostQueue:
    """An arbitrary queue, seen by one worker: every get gives an item or raises Empty; somebody may set the flag of the worker at any moment."""
    pv_ghost = True

    def __init__(self, c, limit):
        self.c, self.limit = c, limit
        self.worker, self.flag, self.steps, self.ended = None, False, 0, False
        self.reset()
        self.wrong = []

    def reset(self):
        self.open, self.calls, self.dones, self.must_end = False, 0, 0, False

    def maybe_flag(self):
        if not self.flag and self.worker is not None and self.c.choose('flag set at step %d' % self.steps, [False, True]):
            self.flag = True
            self.worker.set_stop_flag()

    def sound(self):
        return not self.must_end and ((not self.open and self.calls == 0 and self.dones == 0) or (self.calls == 1 and self.dones <= 1))

    def get(self, block=True, timeout=None):
        from queue import Empty
        if not self.sound():
            self.wrong.append('get before the last record was done, or after the end')
        self.reset()
        if self.ended or self.steps >= self.limit:
            if self.c.symbolic:
                self.c.c.stats.bounded['worker steps <= %d' % self.limit] = 1
            if self.wrong:
                raise SystemExit
            self.must_end = self.flag
            self.flag = self.ended = True
            self.worker.set_stop_flag()
            raise Empty
        self.steps += 1
        flag = self.flag
        self.maybe_flag()
        if self.c.choose('event %d' % self.steps, ['item', 'empty']) == 'empty':
            self.must_end = flag
            raise Empty
        self.open = True
        fails = self.c.choose('record fails %d' % self.steps, [False, True])
        n = self.steps

        def item():
            self.calls += 1
            self.maybe_flag()
            if fails:
                raise self.c.exception('record exception %d' % n, base=False)
        return item

    def get_nowait(self):
        return self.get()

    def task_done(self):
        self.dones += 1
        if self.calls != 1 or self.dones != 1 or not self.open:
            self.wrong.append('task_done before the record, or twice')

    def empty(self):
        return self.c.choose('empty? %d' % self.steps, [False, True])


class Settings(dict):
    def force_get(self, key):
        return self[key]


def time_settings():
    return Settings(time_quant=0.001, delay_on_exit_loop_iteration_in_quants=1, max_queue_size=0, pool_size=1)


def started(c):
    return [e[1] for e in c.get_events('thread-start')] if c.symbolic else []


@contract('C15', [WK + '.run', WK + '.__init__', WK + '.start_thread', WK + '.set_stop_flag', WK + '.do_anything'])
def worker_loop(c):
    """a worker calls every record it takes exactly once, whatever the record raises, and marks it done afterwards; it ends only when it finds the queue empty with its flag set, and at the latest at the first empty queue after that (loops by invariant)"""
    Worker = c.get(WK)
    q = GhostQueue(c, 4)
    if c.symbolic:
        w = Worker(q, 0, time_settings())
        q.worker = w
        threads = started(c)
        c.prove('one thread is started', len(threads) == 1 and threads[0].daemon is True)

        def havoc():
            q.reset()
            q.maybe_flag()
            return [w]
        c.while_cut(lambda: [('nothing taken and not done', q.sound() and not q.wrong)], havoc)
        t = threads[0]
        out = c.run(t.target, *t.args, **t.kwargs)
    else:
        ready = __import__('threading').Event()

        class Late(GhostQueue):
            def get(self, *a, **k):
                ready.wait()
                return GhostQueue.get(self, *a, **k)
        q = Late(c, 4)
        w = Worker(q, 0, time_settings())
        q.worker = w
        ready.set()
        out = c.run(w.stop)
    c.prove('the worker does not fail', out.ok)
    c.prove('every record once, then done', not q.wrong)
    c.prove('ends only with its flag set, the queue found empty and nothing taken', q.flag and not q.open)
    c.prove('and after an empty queue', q.calls == 0 and q.dones == 0)


@contract('C15', [WK + '.__init__', WK + '.stop', WK + '.set_stop_flag'], mode='symbolic')
def worker_stop(c):
    """stop of a worker returns only when its thread has ended, however long that takes; the flag is set by set_stop_flag and not by making a worker"""
    Worker = c.get(WK)
    w = Worker(GhostQueue(c, 4), 0, time_settings())
    t = started(c)[0]
    out = c.run(w.set_stop_flag)
    c.prove('set_stop_flag does not fail or wait', out.ok and not c.get_events('thread-join') and not c.get_events('thread-wait'))
    out = c.run(w.stop)
    c.prove('stop does not fail', out.ok)
    c.prove('the thread has ended', [e[1] for e in c.get_events('thread-join')] == [t])


TL = 'polog.core.utils.time_limit:time_limit'


@contract('C15', [TL + '.__init__', TL + '.__call__', TL + '.get_delay_function'], mode='symbolic')
def limited(c):
    """a function under time_limit is called once with its arguments and has its own outcome; a timer of the given delay that interrupts the main thread runs for exactly as long; an interruption becomes TimeoutError; without a usable delay the function simply runs"""
    time_limit = c.get(TL)
    how = c.choose('delay', ['number', 'function', 'failing function', 'useless'])
    delay = c.real('number') if c.choose('kind', [0, 1]) else c.int('integer')
    useless = False
    if how == 'number':
        out = c.run(time_limit, delay)
        c.prove('a number is accepted exactly when it is positive', c.iff(out.ok, delay > 0))
        if not out.ok:
            c.prove('refused with ValueError', out.raised(ValueError))
            return
    else:
        if how == 'useless':
            value = c.any('value', ('none', 'str', 'list'))

        def get():
            if how == 'failing function':
                raise UserError('delay')
            return value if how == 'useless' else delay
        out = c.run(time_limit, get)
        c.prove('a function is accepted', out.ok)
        useless = how != 'function' or not c.truth(delay > 0)
    calls = []
    error = c.choose('outcome', [None, KeyboardInterrupt, UserError, UserBase])
    a, ret = c.any('a'), c.any('ret')

    def f(*args, **kwargs):
        calls.append((args, kwargs))
        c.prove('the timer runs while the function does', [len(c.get_events('timer-start')), len(c.get_events('timer-cancel'))] == ([0, 0] if useless else [1, 0]))
        if error is not None:
            raise error('x')
        return ret
    g = out.value(f)
    c.prove('no timer before the call', not c.get_events('timer-start'))
    out = c.run(g, a, k=a)
    c.prove('called once with its arguments', len(calls) == 1 and len(calls[0][0]) == 1 and c.truth(c.same(calls[0][0][0], a)) and list(calls[0][1].keys()) == ['k'] and c.truth(c.same(calls[0][1]['k'], a)))
    if error is None:
        c.prove('its own result', out.ok and c.same(out.value, ret))
    elif error is KeyboardInterrupt and not useless:
        c.prove('an interruption becomes TimeoutError', out.raised(TimeoutError))
    else:
        c.prove('its own exception', out.raised(error))
    timers = [e[1] for e in c.get_events('timer-start')]
    c.prove('no timer is left', [e[1] for e in c.get_events('timer-cancel')] == timers)
    if not useless:
        c.prove('one timer of the given delay', len(timers) == 1 and c.truth(c.eq(timers[0].interval, delay)))


class PoolQueue:
    """The queue seen by a pool: what is put into it, and an arbitrary answer to empty()."""
    pv_ghost = True
    made = []

    def __init__(self, maxsize=0):
        self.maxsize, self.items, self.locks, self.answers = maxsize, [], [], []
        self.on_empty = None
        PoolQueue.made.append(self)

    def put(self, item, *a, **k):
        self.items.append(item)
        self.locks.append(list(PoolQueue.c.held()))

    def empty(self):
        if self.on_empty is not None:
            self.on_empty()
        r = PoolQueue.c.choose('queue is empty %d' % len(self.answers), [False, True]) if len(self.answers) < 3 else True
        self.answers.append(r)
        return r

    def qsize(self):
        return 0 if self.empty() else 1

    def join(self):
        self.answers.append(True)


class GhostWorker:
    pv_ghost = True
    log = []

    def __init__(self, queue, index, settings):
        self.index, self.queue = index, queue
        GhostWorker.log.append(('made', self))

    on_flag = None

    def set_stop_flag(self):
        GhostWorker.log.append(('flag', self))
        if GhostWorker.on_flag is not None:
            GhostWorker.on_flag()

    def stop(self):
        GhostWorker.log.append(('join', self))


def pool(c):
    import queue as real

    class QueueModule:
        Queue, Empty, Full = PoolQueue, real.Empty, real.Full
    c.setup_stub('queue', QueueModule)
    PoolQueue.c, PoolQueue.made, GhostWorker.log, GhostWorker.on_flag = c, [], [], None
    Pool = c.get(POOL)
    c.use_contract(WK, GhostWorker)
    n = c.choose('workers', [1, 2, 3])
    m = c.int('max queue size', lo=0)
    settings = time_settings()
    settings['pool_size'], settings['max_queue_size'] = n, m
    p = Pool(settings)
    c.prove('one queue of the configured size', len(PoolQueue.made) == 1 and c.truth(c.eq(PoolQueue.made[0].maxsize, m)))
    c.prove('as many workers as configured, on this queue', [x for x, w in GhostWorker.log] == ['made'] * n and all(w.queue is PoolQueue.made[0] for x, w in GhostWorker.log))
    return p, PoolQueue.made[0], n


def an_item(c, calls, fails=False):
    def item():
        calls.append(list(c.held()))
        if fails:
            raise UserError('record')
    return item


@contract('C15', [POOL + '.__init__', POOL + '.put', POOL + '.stop', POOL + '.wait_empty_queue', POOL + '.create_workers'], mode='symbolic')
def pool_put_and_stop(c):
    """put: a record goes into the queue, once and under a lock, or is processed at once, once and under no lock; into the queue before stop, at once from the moment the first worker is told to stop.
    stop: tells every worker to stop and joins it afterwards.  (By worker_loop a worker that was told to stop leaves only after it found the queue empty, so stop ends after all records of the queue.)"""
    p, q, n = pool(c)
    calls = []
    item = an_item(c, calls)

    def put():
        before, queued = len(calls), len(q.items)
        out = c.run(p.put, item)
        c.prove('put never fails', out.ok)
        c.prove('accepted exactly once', len(calls) - before + len(q.items) - queued == 1)
        if len(calls) > before:
            c.prove('under no lock', not calls[-1])
            return 'processed'
        c.prove('the very record', q.items[-1] is item)
        c.prove('under a lock', bool(q.locks[-1]))
        return 'queued'
    if c.choose('put before', [False, True]):
        c.prove('put into the queue, not processed here', put() == 'queued')
    during = c.choose('put while stopping', [False, True])
    where = []
    if during:
        q.on_empty = put
        GhostWorker.on_flag = lambda: where.append(put())
    c.while_cut(lambda: [('waiting accepts no record twice', not q.on_empty or len(calls) + len(q.items) > 0 or not q.answers)], lambda: [])
    out = c.run(p.stop)
    c.prove('stop does not fail', out.ok)
    c.prove('nothing enters the queue after a worker was told to stop', all(x == 'processed' for x in where))
    q.on_empty = GhostWorker.on_flag = None
    log = GhostWorker.log
    for x, w in log[:n]:
        names = [a for a, b in log if b is w]
        c.prove('every worker is told to stop and then joined', names[0] == 'made' and names[1:2] == ['flag'] and names[-1] == 'join')
    c.prove('no lock is held', not c.held())
    c.prove('later records are processed at once', put() == 'processed')


class GhostEngine:
    """A real engine of any kind: remembers what it was given."""
    pv_ghost = True
    log = []

    def __init__(self, settings):
        GhostEngine.n += 1
        if GhostEngine.fail():
            raise UserError('construction')
        self.number = GhostEngine.n
        self.stopped = 0
        GhostEngine.log.append(self)
        self.items = []

    def write(self, item):
        self.items.append(item)
        if self.stopped:
            GhostEngine.late.append(item)

    def stop(self):
        if GhostEngine.during is not None:
            GhostEngine.during()
        self.stopped += 1
        if GhostEngine.stop_fails():
            raise UserError('stop')


def some_settings(c):
    return {'pool_size': c.int('a pool size', lo=1, hi=50), 'max_queue_size': c.int('a queue size', lo=0, hi=50)}


@contract('C15', [E + '.write', E + '.reload', E + '.load', E + '.stop_real_engine', E + '.__second_init__', 'polog.core.stores.settings.actions.reload_engine:reload_engine'])
def engine_history(c):
    """any history of three steps (write, a reload by a setting, a reload that fails): each record is written to exactly one real engine, which is not stopped; replaced engines are stopped once, the engine in use never"""
    config = c.get('polog:config')
    GhostEngine.log, GhostEngine.n, GhostEngine.late = [], 0, []
    failing = [False]
    written = []
    values = {'pool_size': 5, 'max_queue_size': 0}
    GhostEngine.fail = lambda: failing[0]
    GhostEngine.stop_fails = lambda: c.choose('stop fails', [False, True])
    c.prove('the engine may be replaced before the start', c.run(config.set, engine=GhostEngine).ok)
    setting(c, pool_size=5)
    engine = c.get(E)()

    def write():
        item = lambda: None
        written.append(item)
        out = c.run(engine.write, item)
        c.prove('a record never fails', out.ok)
    GhostEngine.during = write if c.choose('a record while an engine is stopping', [False, True]) else None
    c.prove('no engine before the first record', not GhostEngine.log)
    write()
    c.prove('one engine after it', len(GhostEngine.log) == 1)
    c.prove('its stopping is arranged for the end of the program', (not c.symbolic) or len(c.get_events('atexit')) == 1)
    for i in range(2):
        step = c.choose('step %d' % i, ['write', 'reload', 'reload fails'])
        if step == 'write':
            write()
        else:
            failing[0] = step == 'reload fails'
            before = len(GhostEngine.log)
            names = some_settings(c)
            k = c.choose('setting %d' % i, sorted(names))
            out = c.run(config.set, **{k: names[k]})
            c.prove('the setting is accepted', out.ok)
            c.prove('a new engine exactly if the value changed and it could be made', c.iff(len(GhostEngine.log) == before + 1, c.and_(not failing[0], c.not_(c.eq(values[k], names[k])))))
            values[k] = names[k]
            c.prove('one at most', len(GhostEngine.log) <= before + 1)
            failing[0] = False
    write()
    for item in written:
        n = sum(1 for g in GhostEngine.log for x in g.items if x is item)
        c.prove('each record to exactly one engine', n == 1)
    c.prove('never to a stopped one', not GhostEngine.late)
    c.prove('replaced engines are stopped once', all(g.stopped == 1 for g in GhostEngine.log[:-1]))
    c.prove('the engine in use is not stopped', GhostEngine.log[-1].stopped == 0)
    c.prove('no lock is left', not c.held())
    if c.symbolic:
        c.prove('arranged once', len(c.get_events('atexit')) == 1)


@contract('C15', [FABRIC, MT + '.__init__', MT + '.write', MT + '.stop', 'polog.core.engine.real_engines.singlethreaded.engine:SingleThreadedRealEngine.write'], mode='symbolic')
def kinds_of_engines(c):
    """pool_size = 0: the record is processed in the calling thread before write returns, under no lock; otherwise it goes to the queue of a pool with that many workers"""
    import queue as real

    class QueueModule:
        Queue, Empty, Full = PoolQueue, real.Empty, real.Full
    c.setup_stub('queue', QueueModule)
    PoolQueue.c, PoolQueue.made, GhostWorker.log, GhostWorker.on_flag = c, [], [], None
    engine = c.get(E)()
    c.use_contract(WK, GhostWorker)
    n = c.choose('workers', [0, 1, 2])
    setting(c, pool_size=n)
    calls = []
    fails = c.choose('the record fails', [False, True])
    item = an_item(c, calls, fails and n == 0)
    for k in range(2):
        out = c.run(engine.write, item)
        if n == 0:
            c.prove('processed once in the calling thread', len(calls) == k + 1)
            c.prove('under no lock', not calls[-1])
        else:
            c.prove('put into the queue once', out.ok and len(PoolQueue.made) == 1 and len(PoolQueue.made[0].items) == k + 1 and not calls)
    c.prove('as many workers as configured', len(GhostWorker.log) == n)
    if n:
        PoolQueue.made[0].answers = [True]
    out = c.run(lambda: engine.stop())
    c.prove('stopping does not fail', out.ok)
    if n:
        c.prove('and stops all workers', [x for x, w in GhostWorker.log].count('join') == n)


def messages(rec):
    return [i.get('message') for i in rec.items]


def wait_all(c):
    """The engine is drained and its workers are stopped, within a limit."""
    config = c.get('polog:config')
    import threading
    t = threading.Thread(target=lambda: [config.set(max_queue_size=0), config.set(pool_size=0)], daemon=True)
    t.start()
    t.join(15)
    c.prove('stopping the workers never hangs', not t.is_alive())


@contract('C15', [E + '.write', E + '.reload', POOL + '.put', POOL + '.stop', WK + '.run'], mode='concrete', cases=160, conc_budget=30, procs=2)
def stress(c):
    """BOUNDED: several threads write while settings reload the engine; handlers that fail or log themselves; every record arrives once"""
    import threading
    import time
    config = c.get('polog:config')
    log = c.get('polog:log')
    rec = Rec()
    nested = c.choose('handlers log', [False, True])
    fails = c.choose('handlers fail', [False, True])
    slow = c.choose('slow', [0, 0.0005])

    def handler(item):
        rec.items.append(item)
        if slow:
            time.sleep(slow)
        if nested and not str(item.get('message')).startswith('nested'):
            log('nested ' + item.get('message'))
        if fails:
            raise ValueError
    config.add_handlers(handler)
    first = c.choose('first pool', [0, 1, 3])
    config.set(pool_size=first)
    limited = bool(first and not nested and c.choose('limited queue', [False, True]))
    if limited:
        config.set(max_queue_size=c.choose('queue', [1, 5]))
    threads, n = c.choose('threads', [1, 3]), c.choose('records', [5, 20])

    def writer(k):
        for i in range(n):
            log('m%d-%d' % (k, i))
    ts = [threading.Thread(target=writer, args=(k,), daemon=True) for k in range(threads)]
    for t in ts:
        t.start()
    for i in range(c.choose('reloads', [0, 1, 4])):
        config.set(pool_size=c.choose('pool %d' % i, [1, 2, 3] if limited else [0, 1, 2]))
    for t in ts:
        t.join(15)
    c.prove('writers never hang', not any(t.is_alive() for t in ts))
    wait_all(c)
    want = ['m%d-%d' % (k, i) for k in range(threads) for i in range(n)]
    if nested:
        want += ['nested ' + m for m in want]
    c.prove('every record exactly once', sorted(messages(rec)) == sorted(want))


@contract('C15', [E + '.write', E + '.reload', E + '.load', POOL + '.put', POOL + '.stop'], mode='concrete', cases=1920, conc_budget=40, procs=8)
def reload_interleaved(c):
    """BOUNDED: one preemption at every executed line of polog: a record against a reload, a record against the first record"""
    config = c.get('polog:config')
    log = c.get('polog:log')
    rec = capture(c)
    a, b = c.choose('pools', [(1, 0), (0, 1), (1, 2), (2, 2)])
    config.set(pool_size=a)
    case = c.choose('case', ['write by reload', 'reload by write', 'first write by write', 'first write by reload'])
    if not case.startswith('first'):
        log('first')
    n = c.int('records', lo=0, hi=3)
    for i in range(n if not case.startswith('first') else 0):
        log('queued %d' % i)
    w = lambda: log('one') and None
    r = lambda: config.set(pool_size=b)
    x, y = {'write by reload': (w, r), 'reload by write': (r, w), 'first write by write': (w, lambda: log('two') and None), 'first write by reload': (w, r)}[case]
    x, y = c.interleave('step', x, y, points=120, only=['engine', 'settings'])
    c.prove('both end', x is not None and y is not None)
    c.prove('none fails', x.ok and y.ok)
    log('last')
    wait_all(c)
    want = ['one', 'last'] + (['two'] if case == 'first write by write' else [])
    if not case.startswith('first'):
        want += ['first'] + ['queued %d' % i for i in range(n)]
    c.prove('every record exactly once', sorted(messages(rec)) == sorted(want))


PROGRAM = """
import sys, time
sys.path.insert(0, sys.argv[1])
from polog import log, config
def handler(item):
    time.sleep(%(slow)r)
    print(item.get('message'))
    sys.stdout.flush()
config.add_handlers(handler)
config.set(pool_size=%(pool)d)
for i in range(%(n)d):
    log('m%%d' %% i)
    if i == %(reload)d:
        config.set(pool_size=%(pool2)d)
%(end)s
"""


@contract('C15', [E + '.atexit_register', E + '.stop', POOL + '.stop', POOL + '.wait_empty_queue'], mode='concrete', cases=12, conc_budget=25)
def end_of_the_program(c):
    """BOUNDED: a program that ends at once after logging loses nothing and ends"""
    import subprocess
    import sys
    import os
    p = dict(slow=c.choose('slow', [0, 0.01]), pool=c.choose('pool', [0, 1, 3]), n=c.choose('n', [1, 10]), reload=c.choose('reload at', [-1, 0, 5]), pool2=c.choose('second pool', [0, 2]),
             end=c.choose('end', ['', 'sys.exit(3)', 'raise ValueError']))
    polog_dir = os.path.dirname(os.path.dirname(os.path.abspath(c.mod('polog').__file__)))
    r = subprocess.run([sys.executable, '-c', PROGRAM % p, polog_dir], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20)
    c.prove('nothing is lost or doubled', sorted(r.stdout.decode().split()) == sorted('m%d' % i for i in range(p['n'])))
    c.prove('the exit code is that of the program', r.returncode == {'': 0, 'sys.exit(3)': 3, 'raise ValueError': 1}[p['end']])


STUCK = """
import sys, time, threading, signal
%(sigint)s
sys.path.insert(0, sys.argv[1])
from polog import log, config
config.set(pool_size=%(pool)d, max_queue_size=%(size)d, max_delay_before_exit=2)
def handler(item):
    if item.get('message') == 'stuck':
        time.sleep(40)
    print(item.get('message'))
    sys.stdout.flush()
config.add_handlers(handler)
for i in range(%(stuck)d):
    log('stuck')
def write():
    for i in range(%(n)d):
        log('m%%d' %% i)
if %(size)d:
    t = threading.Thread(target=write)
    t.daemon = True
    t.start()
    time.sleep(0.2)
else:
    write()
%(end)s
"""


@contract('C15', [E + '.atexit_register', TL + '.__call__', E + '.stop', POOL + '.stop', POOL + '.wait_empty_queue', WK + '.stop'], mode='concrete', cases=12, conc_budget=60, case_timeout=30, procs=4)
def end_with_a_stuck_handler(c):
    """BOUNDED: a program with a handler that hangs ends, not later than about max_delay_before_exit, with its own exit code, and what free workers can process is processed"""
    import subprocess
    import sys
    import os
    import signal
    pool = c.choose('pool', [1, 2])
    stuck = c.choose('stuck', [1, 2])
    p = dict(pool=pool, stuck=stuck, size=c.choose('max queue size', [0, 2]), n=c.choose('records', [0, 5]), end=c.choose('end', ['', 'sys.exit(3)']), sigint=c.choose('handler of SIGINT', ['', 'signal.signal(signal.SIGINT, lambda *args: None)']))
    ignored = c.choose('SIGINT', [signal.SIG_DFL, signal.SIG_IGN])
    if p['size'] and stuck > pool:
        p['size'] = 4
    polog_dir = os.path.dirname(os.path.dirname(os.path.abspath(c.mod('polog').__file__)))
    try:
        r = subprocess.run([sys.executable, '-c', STUCK % p, polog_dir], preexec_fn=lambda: signal.signal(signal.SIGINT, ignored), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=25)
    except subprocess.TimeoutExpired:
        r = None
    c.prove('the program ends in about max_delay_before_exit', r is not None)
    if r is None:
        return
    c.prove('the exit code is that of the program', r.returncode == {'': 0, 'sys.exit(3)': 3}[p['end']])
    if pool > stuck and not p['size']:
        c.prove('free workers go on', sorted(r.stdout.decode().split()) == sorted('m%d' % i for i in range(p['n'])))
