"""Deterministic scheduler, clock and synchronisation primitives.

One `Sim` is one simulated execution.  Every thread the code under test starts becomes a *task* that is
carried by a real OS thread, but only the task holding the baton runs; who gets the baton next is decided
by a policy seeded from the plan.  Switch points are the lines (or opcodes) of code in /repo, thread start
and join, lock operations, sleeps and file operations.  Nothing here reads a real clock or a real PRNG.
"""
import _thread
import functools
import gc
import hashlib
import logging
import math
import os
import queue
import random
import sys
import tempfile
import threading
import time
import timeit
import types

_real_allocate = _thread.allocate_lock
_real_start_new = _thread.start_new_thread
real_time = time.time
real_perf = time.perf_counter
real_sleep = time.sleep
_real_monotonic = time.monotonic
_real_thread_start = threading.Thread.start
_real_thread_join = threading.Thread.join
_real_is_alive = threading.Thread.is_alive

REPO_PREFIX = '/repo/scrappybara/'

TOOL = 3  # sys.monitoring tool id
_get_ident = _thread.get_ident

CURRENT = None  # The running Sim, or None
TICK = 2.0 ** -20  # Simulated seconds per step (power of two: clock arithmetic is exact)


class SimAbort(BaseException):
    """Unwinds a task when the simulation is torn down"""


class SimCrash(BaseException):
    """The simulated machine or process died here"""


class Deadlock(Exception):
    """Nothing can run and nothing will ever wake up"""


class StepLimit(Exception):
    """The run used more simulated steps than its budget"""


# ###############################################################################
# POLICIES
# ###############################################################################


class RandomPolicy(object):
    """Preempts with probability p at each switch point; forced choices are uniform"""

    def __init__(self, seed, p):
        self.rng = random.Random('sched/%s' % seed)
        self.p = p
        self.next_switch = None
        self._draw(0)

    def _draw(self, step):
        if self.p <= 0.0:
            self.next_switch = float('inf')
        elif self.p >= 1.0:
            self.next_switch = step + 1
        else:
            gap = 1
            # Geometric gap
            u = 1.0 - self.rng.random()
            gap = 1 + int(math.log(u) / math.log(1.0 - self.p))
            self.next_switch = step + gap

    def voluntary(self, step, ready):
        self._draw(step)
        return ready[self.rng.randrange(len(ready))] if ready else None

    def forced(self, step, ready):
        return ready[self.rng.randrange(len(ready))]


class PctPolicy(object):
    """A handful of preemptions at pre-drawn steps, tasks otherwise run by random priority"""

    def __init__(self, seed, depth, horizon):
        self.rng = random.Random('pct/%s' % seed)
        self.points = sorted(self.rng.randrange(1, max(2, horizon)) for _ in range(depth))
        self.next_switch = self.points[0] if self.points else float('inf')
        self.prio = {}

    def _p(self, tid):
        if tid not in self.prio:
            self.prio[tid] = self.rng.random()
        return self.prio[tid]

    def voluntary(self, step, ready):
        while self.points and self.points[0] <= step:
            self.points.pop(0)
        self.next_switch = self.points[0] if self.points else float('inf')
        if not ready:
            return None
        tid = ready[self.rng.randrange(len(ready))]
        self.prio[tid] = 1.0 + self.rng.random()
        return tid

    def forced(self, step, ready):
        return max(ready, key=lambda t: (self._p(t), -t))


class FocusPolicy(RandomPolicy):
    """Preempts often inside a few functions drawn from the seed, and hardly ever elsewhere"""

    def __init__(self, seed, p, share, inside):
        super().__init__(seed, p)
        self.seed = seed
        self.share = share  # Of the functions of the package, those that are hot
        self.inside = inside  # Probability of a preemption at a point of a hot function
        self.known = {}

    def hot(self, code):
        h = self.known.get(code)
        if h is None:
            name = '%s/%s/%s' % (self.seed, code.co_filename, code.co_qualname.split('.<locals>')[0])
            x = int.from_bytes(hashlib.blake2b(name.encode(), digest_size=6).digest(), 'big') / 2.0 ** 48
            h = self.known[code] = x < self.share
        return h and self.rng.random() < self.inside


class ListPolicy(object):
    """Replays a recorded (possibly minimised) list of [step, task id]"""

    def __init__(self, switches):
        self.vol = {s: t for s, t, forced in switches if not forced}
        self.frc = {s: t for s, t, forced in switches if forced}
        self.order = sorted(self.vol)
        self.pos = 0
        self.next_switch = self.order[0] if self.order else float('inf')

    def voluntary(self, step, ready):
        tid = None
        while self.pos < len(self.order) and self.order[self.pos] <= step:
            if self.order[self.pos] == step:
                tid = self.vol[step]
            self.pos += 1
        self.next_switch = self.order[self.pos] if self.pos < len(self.order) else float('inf')
        return tid if tid in ready else None

    def forced(self, step, ready):
        tid = self.frc.get(step)
        return tid if tid in ready else ready[0]


def make_policy(sched):
    mode = sched.get('mode', 'seq')
    if mode == 'seq':
        return ListPolicy([])
    if mode == 'random':
        return RandomPolicy(sched['seed'], sched['p'])
    if mode == 'pct':
        return PctPolicy(sched['seed'], sched['depth'], sched['horizon'])
    if mode == 'focus':
        return FocusPolicy(sched['seed'], sched['p'], sched['share'], sched['inside'])
    if mode == 'list':
        return ListPolicy(sched['switches'])
    raise ValueError(mode)


# ###############################################################################
# SIMULATION
# ###############################################################################


class Task(object):
    __slots__ = ('tid', 'thread', 'baton', 'done', 'pred', 'deadline', 'error', 'steps', 'daemon')

    def __init__(self, tid, thread):
        self.tid = tid
        self.thread = thread
        self.baton = _real_allocate()
        self.baton.acquire()
        self.done = False
        self.pred = None
        self.deadline = None
        self.error = None
        self.steps = 0
        self.daemon = bool(getattr(thread, 'daemon', False))


class Sim(object):

    def __init__(self, sched=None, trace='line', max_steps=2000000, faults=(), stats=None, start_time=1000.0):
        self.policy = make_policy(sched or {'mode': 'seq'})
        self.hot = getattr(self.policy, 'hot', None)
        self.trace_mode = trace  # None, 'line' or 'opcode'
        self.max_steps = max_steps
        self.steps = 0  # All switch points passed
        self.csteps = 0  # Those passed while another task was alive: schedules are counted in these
        self.fsteps = 0  # Forced decisions
        self.live = 1
        self.now = start_time
        self.wall_offset = 0.0  # Wall clock = now + offset (jumps); monotonic clocks never jump
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.aborting = False
        self.over_budget = False
        self.pools = []  # States of the process pools made so far
        self.deadlocked = False
        self.stuck_at_end = False  # Workers that wait for ever were left behind when the caller was done
        self.switches = []  # [step, tid, forced]
        self.nb_switches = 0
        self.trail = hashlib.blake2b(digest_size=12)
        self.stats = stats if stats is not None else {}
        self.unhandled = []  # Exceptions that escaped a task
        self.starts = 0
        # Faults keyed by where they fire
        self.line_faults = {}
        self.rare_faults = []  # Those that count lines, not steps
        self.start_faults = set()
        self.stalls = {}
        self.in_fault_scope = None  # callable(code) -> bool
        self.quiet_depth = 0
        self.draining = False
        self._codes = set()
        self._tracing = False
        for f in faults:
            kind = f['kind']
            if f.get('nth'):
                self.rare_faults.append(dict(f, left=f['at'], seen={}))
            elif kind in ('line_error', 'interrupt'):
                self.line_faults[f['at']] = f
            elif kind == 'start_fail':
                self.start_faults.add(f['at'])
            elif kind == 'stall':
                self.stalls[f['at']] = f['secs']
            elif kind == 'clock_jump':
                self.stalls.setdefault(('jump', f['at']), f['secs'])
        self.fired = []

    # Bookkeeping ------------------------------------------------------------->

    def working(self):
        """Tasks other than the first one that have not ended; idle workers of a pool that is shut down do not count"""
        return [t.tid for t in self.tasks if not t.done and t.tid and not getattr(t.thread, 'sim_parked', bool)()]

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def _ready_ids(self, exclude=None):
        out = []
        now = self.now
        for t in self.tasks:
            if t.done or t is exclude:
                continue
            p = t.pred
            if p is None or (t.deadline is not None and t.deadline <= now) or p():
                out.append(t.tid)
        return out

    # Running ----------------------------------------------------------------->

    def run(self, fn, *args):
        """Runs fn as task 0 and then everything it started, to completion; returns (result, exception)"""
        global CURRENT
        assert CURRENT is None
        main = Task(0, threading.main_thread())
        self.tasks.append(main)
        self.by_ident[_thread.get_ident()] = main
        self.current = main
        CURRENT = self
        result = error = None
        try:
            try:
                result = fn(*args)
            except BaseException as e:
                error = e
            self.live_at_end = self.working()
            self._drain(main)
        finally:
            CURRENT = None
            self.trace_off()
        return result, error

    def _drain(self, main):
        """Lets the remaining tasks finish; whatever can never finish (idle workers) is unwound"""
        self.draining = True
        executors = sys.modules.get('concurrent.futures.thread')
        try:
            if executors is not None and not self.aborting:
                # What the interpreter does at its end to the workers of executors that nobody shut down
                executors._shutdown = True
                for q in list(executors._threads_queues.values()):
                    q.put(None)
            while any(not t.done for t in self.tasks if t is not main and not t.daemon):
                self.wait_until(lambda: all(t.done for t in self.tasks if t is not main and not t.daemon))
        except (Deadlock, StepLimit, SimAbort):
            pass
        finally:
            if executors is not None:
                executors._shutdown = False
        self.aborting = True
        for t in self.tasks:
            if t is not main and not t.done:
                t.pred = None
                self.current = t
                t.baton.release()
                main.baton.acquire()
        main.done = True

    def wait_until(self, pred, timeout=None):
        cur = self.current
        if cur.tid == 0 and self.line_faults and not self.draining:
            want = pred

            def pred():
                return want() or self._due_interrupt() is not None
        else:
            want = pred
        cur.pred = pred
        cur.deadline = None if timeout is None else self.now + timeout
        try:
            while not pred():
                if cur.deadline is not None and cur.deadline <= self.now:
                    return False
                self._forced()
            if want is not pred and not want():
                # Ctrl-C while the caller is blocked
                at = self._due_interrupt()
                f = self.line_faults.pop(at)
                self.fired.append(['interrupt', self.steps, 'blocked', 0])
                self.count('fault.interrupt.blocked')
                raise KeyboardInterrupt('simulated')
            return True
        finally:
            cur.pred = None
            cur.deadline = None

    def _due_interrupt(self):
        for at, f in self.line_faults.items():
            if f['kind'] == 'interrupt' and at <= self.steps:
                return at
        return None

    def _forced(self):
        """The current task cannot go on: someone else must run"""
        cur = self.current
        if self.aborting and cur.tid != 0:
            raise SimAbort()
        if self.steps > self.max_steps:
            self.over_budget = True
            self.aborting = True
            if cur.tid == 0:
                raise StepLimit('more than %d steps' % self.max_steps)
            raise SimAbort()
        while True:
            self.steps += 1
            self.now += TICK
            ready = self._ready_ids()
            if ready:
                break
            deadlines = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
            if not deadlines:
                self._no_progress()
                self.aborting = True
                if cur.tid == 0:
                    raise Deadlock('no task can run')
                self._hand_over(self.tasks[0])
                return
            self.now = max(self.now, min(deadlines))
        self.fsteps += 1
        tid = self.policy.forced(self.fsteps, ready)
        if tid != ready[0]:
            self.switches.append([self.fsteps, tid, True])
        if tid == cur.tid:
            return
        self._hand_over(self.tasks[tid])

    def _no_progress(self):
        if self.draining:
            self.stuck_at_end = True
        else:
            self.deadlocked = True

    def _hand_over(self, task):
        cur = self.current
        self.nb_switches += 1
        self.trail.update(b'%d>%d@%d;' % (cur.tid, task.tid, cur.steps))
        self.current = task
        task.baton.release()
        cur.baton.acquire()
        if self.aborting:
            if cur.tid != 0:
                raise SimAbort()
            if self.deadlocked or self.stuck_at_end:
                raise Deadlock('no task can run')
            if self.over_budget:
                raise StepLimit()

    def point(self, code=None, where=None):
        """A switch point"""
        self.steps = s = self.steps + 1
        self.now += TICK
        cur = self.current
        cur.steps += 1
        if self.aborting and cur.tid != 0:
            raise SimAbort()
        if s > self.max_steps:
            self.over_budget = True
            self.aborting = True
            if cur.tid == 0:
                raise StepLimit('more than %d steps' % self.max_steps)
            raise SimAbort()
        if self.stalls:
            secs = self.stalls.pop(s, None)
            if secs is not None:
                self.now += secs
                self.fired.append(['stall', s])
                self.count('fault.stall')
            secs = self.stalls.pop(('jump', s), None)
            if secs is not None:
                self.wall_offset += secs
                self.fired.append(['clock_jump', s])
                self.count('fault.clock_jump')
        if self.line_faults and code is not None:
            self._line_fault(s, cur, code)
        if self.rare_faults and where is not None:
            self._rare_fault(s, cur, code, where)
        if self.live > 1:
            self.csteps = c = self.csteps + 1
            if c >= self.policy.next_switch or (self.hot is not None and code is not None and self.hot(code)):
                ready = self._ready_ids(exclude=cur)
                tid = self.policy.voluntary(c, ready)
                if tid is not None:
                    self.switches.append([c, tid, False])
                    self._hand_over(self.tasks[tid])

    def _line_fault(self, s, cur, code):
        """Fires the earliest pending fault whose step has passed, at the first eligible line"""
        for at in list(self.line_faults):
            if at > s:
                continue
            f = self.line_faults[at]
            if f['kind'] == 'interrupt':
                if cur.tid == f.get('task', 0):
                    del self.line_faults[at]
                    self._fire(f, s, code)
                    raise KeyboardInterrupt('simulated')
            else:
                if f.get('worker', True) and cur.tid == 0:
                    continue
                if self.in_fault_scope is not None and not self.in_fault_scope(code):
                    continue
                del self.line_faults[at]
                self._fire(f, s, code)
                raise ERRORS[f.get('error', 'MemoryError')]('simulated')

    def _rare_fault(self, s, cur, code, where):
        """Fires at the nth time that the at-th new line runs: lines that hardly ever run are hit as often as others"""
        for f in list(self.rare_faults):
            if f['kind'] == 'interrupt':
                if cur.tid != 0:
                    continue
            elif f.get('worker', True) and cur.tid == 0 or self.in_fault_scope is not None and not self.in_fault_scope(code):
                continue
            seen = f['seen']
            seen[code, where] = n = seen.get((code, where), 0) + 1
            if n != f['nth']:
                continue
            f['left'] -= 1
            if f['left'] < 0:
                self.rare_faults.remove(f)
                self._fire(f, s, code)
                if f['kind'] == 'interrupt':
                    raise KeyboardInterrupt('simulated')
                raise ERRORS[f.get('error', 'MemoryError')]('simulated')

    def _fire(self, f, s, code):
        self.fired.append([f['kind'], s, '%s:%s' % (code.co_filename, code.co_qualname), self.current.tid])
        self.count('fault.%s' % f['kind'])

    # Tracing ----------------------------------------------------------------->

    def trace_on(self):
        if not self.trace_mode or self._tracing:
            return
        self._tracing = True
        mon = sys.monitoring
        ev = mon.events
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, 'scrappybara-sim')
        self._local = ev.INSTRUCTION if self.trace_mode == 'opcode' else ev.LINE | ev.JUMP
        mon.register_callback(TOOL, ev.PY_START, self._on_start)
        mon.register_callback(TOOL, ev.LINE, self._on_event)
        mon.register_callback(TOOL, ev.INSTRUCTION, self._on_event)
        mon.register_callback(TOOL, ev.JUMP, self._on_jump)
        mon.restart_events()
        for code in CODES:
            self._codes.add(code)
            mon.set_local_events(TOOL, code, self._local)
        mon.set_events(TOOL, ev.PY_START)

    def trace_off(self):
        if self._tracing:
            self._tracing = False
            sys.monitoring.set_events(TOOL, 0)

    def _on_start(self, code, offset):
        if code.co_filename.startswith(REPO_PREFIX) and code not in self._codes:
            self._codes.add(code)
            sys.monitoring.set_local_events(TOOL, code, self._local)
        return sys.monitoring.DISABLE

    def _on_event(self, code, where):
        if CURRENT is self and not self.quiet_depth and _get_ident() in self.by_ident:
            self.point(code, where)

    def _on_jump(self, code, src, dst):
        """Backward jumps: one-line loops must be preemptible too"""
        if dst < src and CURRENT is self and not self.quiet_depth and _get_ident() in self.by_ident:
            self.point(code)

    def quiet(self):
        """with sim.quiet(): code of /repo runs without switch points"""
        return _Quiet(self)

    # Threads ----------------------------------------------------------------->

    def spawn(self, thread):
        k = self.starts
        self.starts += 1
        if k in self.start_faults:
            self.fired.append(['start_fail', k])
            self.count('fault.start_fail')
            raise RuntimeError("can't start new thread")
        task = Task(len(self.tasks), thread)
        self.tasks.append(task)
        self.live += 1
        thread._sim_task = (self, task)
        thread._started._flag = True
        _real_start_new(self._carrier, (task,))
        self.point()

    def _carrier(self, task):
        task.baton.acquire()
        ident = _thread.get_ident()
        thread = task.thread
        thread._ident = ident
        try:
            thread._native_id = ident
        except Exception:
            pass
        threading._active[ident] = thread
        self.by_ident[ident] = task
        try:
            if not self.aborting:
                thread.run()
        except (SimAbort, SystemExit):
            pass
        except BaseException as e:
            task.error = e
            self.unhandled.append((task.tid, type(e).__name__, str(e)))
        finally:
            threading._active.pop(ident, None)
            self.by_ident.pop(ident, None)
            task.done = True
            self.live -= 1
            thread._is_stopped = True
            self._finish(task)

    def _finish(self, task):
        if self.aborting:
            nxt = self.tasks[0]
        else:
            self.steps += 1
            while True:
                ready = self._ready_ids()
                if ready:
                    self.fsteps += 1
                    tid = self.policy.forced(self.fsteps, ready)
                    if tid != ready[0]:
                        self.switches.append([self.fsteps, tid, True])
                    nxt = self.tasks[tid]
                    break
                deadlines = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
                if not deadlines:
                    self._no_progress()
                    self.aborting = True
                    nxt = self.tasks[0]
                    break
                self.now = max(self.now, min(deadlines))
        self.nb_switches += 1
        self.trail.update(b'%d.%d;' % (task.tid, nxt.tid))
        self.current = nxt
        nxt.baton.release()

    def sleep(self, secs):
        self.wait_until(lambda: False, max(0.0, secs))


CODES = []  # Every code object of the package, in a fixed order


def collect_codes():
    """Finds the code objects of the package, so that they are instrumented before they first run"""
    found = {}

    def walk(code):
        if code in found or not code.co_filename.startswith(REPO_PREFIX):
            return
        found[code] = (code.co_filename, code.co_firstlineno, code.co_qualname)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                walk(const)

    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            walk(obj.__code__)
    CODES[:] = sorted(found, key=lambda c: found[c])


class _Quiet(object):

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.sim.quiet_depth += 1

    def __exit__(self, *exc):
        self.sim.quiet_depth -= 1


def here():
    """The running simulation if the calling thread belongs to it"""
    sim = CURRENT
    if sim is not None and sim.current is not None and _thread.get_ident() in sim.by_ident:
        return sim
    return None


def _tf_resource_error(msg):
    from . import faketf
    return faketf.ResourceExhaustedError(msg)


ERRORS = {
    'MemoryError': MemoryError,
    'RecursionError': RecursionError,
    'RuntimeError': RuntimeError,
    'ValueError': ValueError,
    'ResourceExhausted': _tf_resource_error,
}


# ###############################################################################
# SEAMS
# ###############################################################################


class SimLock(object):
    """Drop-in for threading.Lock"""

    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        sim = here()
        if sim is None:
            if self._locked:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError('simulated lock would block outside a simulation')
            self._locked = True
            return True
        sim.point()
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        if sim.wait_until(lambda: not self._locked, None if timeout is None or timeout < 0 else timeout):
            self._locked = True
            return True
        return False

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        sim = here()
        if sim is not None and not sim.aborting:
            sim.point()

    acquire_lock = acquire
    release_lock = release

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()


def _start(self):
    sim = here()
    if sim is None:
        # Outside a simulation (never the case for code under test) threads run inline
        raise RuntimeError('thread started outside a simulation')
    if not self._initialized:
        raise RuntimeError('thread.__init__() not called')
    if self._started.is_set():
        raise RuntimeError('threads can only be started once')
    sim.spawn(self)


def _join(self, timeout=None):
    st = getattr(self, '_sim_task', None)
    if st is None:
        if not self._started.is_set():
            raise RuntimeError('cannot join thread before it is started')
        return _real_thread_join(self, timeout)
    sim, task = st
    if here() is sim:
        sim.point()
        if not task.done:
            sim.wait_until(lambda: task.done, timeout)


def _is_alive(self):
    st = getattr(self, '_sim_task', None)
    if st is None:
        return _real_is_alive(self) if self._started.is_set() and self is threading.main_thread() else False
    return not st[1].done


def _clock(real, wall=False):
    def read():
        sim = here()
        if sim is None:
            return real()
        sim.count('clock_reads')
        sim.point()
        return sim.now + sim.wall_offset if wall else sim.now

    return read


def _clock_ns(real, wall=False):
    def read():
        sim = here()
        if sim is None:
            return real()
        sim.point()
        return int((sim.now + sim.wall_offset if wall else sim.now) * 1e9)

    return read


def _cpu_clock(real):
    """Does not advance while the process waits"""

    def read():
        sim = here()
        if sim is None:
            return real()
        sim.point()
        return sim.steps * TICK

    return read


def _sleep(secs):
    sim = here()
    if sim is None:
        return real_sleep(secs)
    sim.sleep(secs)


_installed = False


def install():
    """Puts every seam in place; must run before the code under test is imported"""
    global _installed
    if _installed:
        return
    _installed = True
    threading.Thread.start = _start
    threading.Thread.join = _join
    threading.Thread.is_alive = _is_alive
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = threading._PyRLock
    queue.SimpleQueue = queue._PySimpleQueue
    time.time = _clock(time.time, wall=True)
    time.monotonic = _clock(time.monotonic)
    time.perf_counter = _clock(time.perf_counter)
    time.process_time = _cpu_clock(time.process_time)
    time.thread_time = _cpu_clock(time.thread_time)
    time.time_ns = _clock_ns(time.time_ns, wall=True)
    time.monotonic_ns = _clock_ns(time.monotonic_ns)
    time.perf_counter_ns = _clock_ns(time.perf_counter_ns)
    time.sleep = _sleep
    timeit.default_timer = time.perf_counter
    # threading and queue bound these at import
    threading._time = time.monotonic
    queue.time = time.monotonic
    _replace_library_locks()
    # Names of temporary files and the like
    os.urandom = random._urandom = _urandom
    tempfile._Random = functools.partial(random.Random, 'tempfile')
    tempfile._name_sequence = None


_real_urandom = os.urandom
ENTROPY = ''  # What the randomness of the operating system is derived from


def _urandom(n):
    sim = here()
    if sim is None:
        return _real_urandom(n)
    k = sim.stats['_urandom'] = sim.stats.get('_urandom', 0) + 1
    return random.Random('urandom%s/%d' % (ENTROPY, k)).randbytes(n)


def _replace_library_locks():
    """Locks that library modules made when they were imported (a real one, once held by a task that was switched
    away from, would stop the whole simulation)"""
    plain = type(_thread.allocate_lock())
    reentrant = _thread.RLock
    for name, module in list(sys.modules.items()):
        if name.split('.')[0] in ('threading', '_thread', 'importlib', '_frozen_importlib',
                                  '_frozen_importlib_external', 'sim') or module is None:
            continue
        for key, value in list(getattr(module, '__dict__', {}).items()):
            if isinstance(value, plain):
                setattr(module, key, SimLock())
            elif isinstance(value, reentrant):
                setattr(module, key, threading._PyRLock())
    for ref in list(logging._handlerList):
        handler = ref()
        if handler is not None and isinstance(handler.lock, reentrant):
            handler.lock = threading._PyRLock()
