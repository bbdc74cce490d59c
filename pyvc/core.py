"""PyVC core: path contexts, decisions, obligations.

A scenario (a contract: pre-state, call of the real function, postconditions) is
executed natively by CPython on proxies whose values are z3 terms.  Every branch on
a symbolic condition is a *decision*; the explorer re-executes the scenario until every
feasible combination of decisions has been visited.  If that tree is finite and every
obligation `pc => phi` is unsat when negated, the contract holds for all inputs.
"""
import gc
import time
import sys

import z3


class Abort(BaseException):
    """Ends the current path.  Polog code can never swallow it (see xform: handlers re-raise)."""


class PathEnd(Abort):
    pass


class Unsupported(Abort):
    pass


class Deadline(Abort):
    pass


CTX = None


def ctx():
    return CTX


class Obligation:
    __slots__ = ('label', 'status', 'detail', 'model', 'hints', 'smt', 'soft')

    def __init__(self, label, status, detail='', model=None, hints=None, smt=None, soft=False):
        self.label, self.status, self.detail = label, status, detail
        self.model, self.hints, self.smt, self.soft = model, hints, smt, soft


class Stats:
    def __init__(self):
        self.paths = 0
        self.obligations = {}      # label -> [total, discharged]
        self.trivial = 0
        self.solver_s = 0.0
        self.solver_calls = 0
        self.unsupported = {}
        self.bounded = {}
        self.failures = []
        self.unknown = 0
        self.covers = {}
        self.timeout = False
        self.functions = set()
        self.cuts = {}
        self.smt = []


class Ctx:
    """One path."""
    symbolic = True

    def __init__(self, prefix, stats, deadline, mode, opts):
        self.prefix = prefix
        self.trail = []            # list of (chosen index, number of alternatives, label)
        self.pending = []          # alternative prefixes discovered
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('solver_ms', 10000))
        self.stats = stats
        self.deadline = deadline
        self.mode = mode           # 'cut' or 'unroll'
        self.opts = opts
        self.abort = None
        self.counter = 0
        self.names = {}            # hint name -> recipe producer
        self.events = []
        self.failed = []
        self.writes = None
        self.writelog = []
        self.pc = []
        self.quiet = 0
        self.alloc_epoch = 0
        self.live = True
        self.locks_held = []
        self.on_lock = None
        self.yield_hook = None
        self.data = {}

    # ------------------------------------------------------------------ names
    def fresh(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    # ------------------------------------------------------------------ aborts
    def end(self, why=''):
        e = PathEnd(why)
        if self.abort is None:
            self.abort = e
        raise e

    def unsupported(self, what):
        e = Unsupported(what)
        if self.abort is None or not isinstance(self.abort, Unsupported):
            self.abort = e
        self.stats.unsupported[what] = self.stats.unsupported.get(what, 0) + 1
        raise e

    def chk(self):
        if self.abort is not None:
            raise self.abort
        if time.time() > self.deadline:
            self.abort = Deadline('time limit')
            raise self.abort

    # ------------------------------------------------------------------ solver
    def check(self, *extra):
        t = time.time()
        if t > self.deadline:
            self.abort = Deadline('time limit')
            raise self.abort
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.solver_calls += 1
        return r

    def add(self, term):
        self.pc.append(term)
        self.solver.add(term)

    def assume(self, term):
        term = z3.simplify(term)
        if z3.is_true(term):
            return
        if z3.is_false(term):
            self.end('assume false')
        self.add(term)
        if self.check() == z3.unsat:
            self.end('assumption infeasible')

    # ------------------------------------------------------------------ decisions
    def _take(self, options, label):
        """options: list of (index, z3 term or None); picks per prefix, or the first one."""
        self.chk()
        pos = len(self.trail)
        if pos < len(self.prefix):
            chosen = self.prefix[pos]
        else:
            if self.opts.get('max_depth') and pos > self.opts['max_depth']:
                self.unsupported('decision depth > %d' % self.opts['max_depth'])
            feasible = []
            for i, term in options:
                if term is None:
                    feasible.append(i)
                else:
                    r = self.check(term)
                    if r == z3.unknown:
                        self.stats.unknown += 1
                    if r != z3.unsat:
                        feasible.append(i)
            if not feasible:
                self.end('no feasible alternative')
            chosen = feasible[0]
            base = [t[0] for t in self.trail]
            for i in reversed(feasible[1:]):
                self.pending.append(base + [i])
        self.trail.append((chosen, len(options), label))
        for i, term in options:
            if i == chosen and term is not None:
                self.add(term)
        return chosen

    def decide(self, term, label=''):
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        return self._take([(1, term), (0, z3.Not(term))], label) == 1

    def choose(self, n, label=''):
        if n == 1:
            return 0
        return self._take([(i, None) for i in range(n)], label)

    def choose_if(self, terms, label=''):
        return self._take(list(enumerate(terms)), label)

    # ------------------------------------------------------------------ obligations
    def prove(self, label, term, soft=False):
        """term: python bool or z3 Bool."""
        if self.abort is not None:
            raise self.abort
        rec = self.stats.obligations.setdefault(label, [0, 0])
        rec[0] += 1
        if isinstance(term, bool):
            term = z3.BoolVal(term)
        s = z3.simplify(term)
        if z3.is_true(s):
            rec[1] += 1
            self.stats.trivial += 1
            return True
        # a failing decision on an infeasible path cannot happen: the path condition is sat
        r = self.check(z3.Not(s))
        if len(self.stats.smt) < self.opts.get('keep_smt', 0) and r == z3.unsat:
            sol = z3.Solver()
            sol.add(*self.pc)
            sol.add(z3.Not(s))
            self.stats.smt.append((label, sol.to_smt2()))
        if r == z3.unsat:
            rec[1] += 1
            return True
        if r == z3.unknown:
            self.stats.unknown += 1
            self.stats.unsupported['solver unknown on ' + label] = 1
            return False
        m = self.solver.model()
        self.failed.append(Obligation(label, 'failed', detail=str(s)[:600], model=m, soft=soft))
        self.stats.failures.append((label, str(s)[:600], self.hints(m), soft,
                                    [t[2] + '=' + str(t[0]) for t in self.trail][-60:]))
        return False

    def cover(self, label):
        self.stats.covers[label] = self.stats.covers.get(label, 0) + 1

    # ------------------------------------------------------------------ hints for replay
    def named(self, name, producer):
        if name is not None and name not in self.names:
            self.names[name] = producer

    def hints(self, model):
        out = {}
        for name, producer in self.names.items():
            try:
                out[name] = producer(model)
            except Exception as e:      # a hint is only a hint
                out[name] = None
        return out


def explore(scenario, make_world, mode, budget_s, opts, stop_on_failure=True, roots=None, slice_s=None, slice_paths=None):
    """Visits every path of scenario(c).  Returns Stats."""
    global CTX
    stats = Stats()
    stack = [list(r) for r in roots] if roots else [[]]
    t_start = time.time()
    stats.left = []
    deadline = time.time() + budget_s
    max_paths = opts.get('max_paths', 200000)
    gc.disable()
    while stack:
        if stats.paths % 100 == 99:
            gc.collect()
        if (slice_s and time.time() - t_start > slice_s) or (slice_paths and stats.paths >= slice_paths):
            if not stats.cuts:
                stats.left = stack
                break
        prefix = stack.pop()
        if time.time() > deadline or stats.paths >= max_paths:
            stats.timeout = True
            break
        c = Ctx(prefix, stats, deadline, mode, opts)
        CTX = c
        try:
            make_world(c)
            scenario(c.api)
        except Abort:
            pass
        except Exception as e:
            if c.abort is None:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = ' <- '.join('%s:%s' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-4:]))
                stats.unsupported['scenario error %s: %s at %s' % (type(e).__name__, str(e)[:200], where)] = 1
        finally:
            c.live = False
        stats.paths += 1
        if isinstance(c.abort, Deadline):
            stats.timeout = True
        stack.extend(c.pending)
        if stats.failures and stop_on_failure and any(not f[3] for f in stats.failures):
            break
    CTX = None
    return stats
