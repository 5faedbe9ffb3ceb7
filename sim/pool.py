"""Process pools, simulated.

A pool worker is a task of the simulation; what crosses the process boundary (callable, items, results) is
pickled, so workers share no objects with the caller.  Completion order is the scheduler's choice.
"""
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import multiprocessing
import multiprocessing.context
import multiprocessing.dummy
import multiprocessing.pool
import os
import pickle
import threading

from . import core

CPUS = 4  # What cpu_count() answers in the simulation


class _Result(object):

    def __init__(self):
        self.ready_ = False
        self.value = None
        self.error = None

    def ready(self):
        return self.ready_

    def successful(self):
        return self.ready_ and self.error is None

    def wait(self, timeout=None):
        sim = core.here()
        if not self.ready_:
            sim.wait_until(lambda: self.ready_, timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self.ready_:
            raise multiprocessing.TimeoutError()
        if self.error is not None:
            raise self.error
        return self.value


class _State(object):
    """What the workers of a pool share"""

    def __init__(self, sim, init, initargs):
        self.sim = sim
        self.init = init
        self.initargs = initargs
        self.queue = []
        self.busy = set()  # Threads that have a job to do
        self.closed = False
        self.dead = False

    def work(self):
        if self.init is not None:
            self.init(*self.initargs)
        while True:
            self.sim.wait_until(lambda: self.queue or self.closed or self.dead)
            if self.dead or not self.queue:
                return
            job = self.queue.pop(0)
            self.busy.add(threading.current_thread())
            job()
            self.busy.discard(threading.current_thread())


class SimPool(object):
    isolated = True

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        sim = core.here()
        if sim is None:
            raise RuntimeError('process pool used outside a simulation')
        if processes is None:
            processes = CPUS
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self._sim = sim
        self._n = processes
        sim.count('pools')
        k = sim.stats.setdefault('_pool_seq', 0)
        sim.stats['_pool_seq'] = k + 1
        if k in getattr(sim, 'pool_faults', ()):
            sim.count('fault.fork_fail')
            sim.fired.append(['fork_fail', k])
            raise OSError(11, 'Resource temporarily unavailable')
        # Like a real pool, one that nobody refers to any more is terminated: workers know its state only
        state = self._state = _State(sim, initializer, initargs)
        sim.pools.append(state)
        self._queue = state.queue
        self._workers = [threading.Thread(target=state.work, daemon=True) for _ in range(processes)]
        for w in self._workers:
            w.sim_parked = lambda w=w: (state.closed or state.dead) and w not in state.busy
        try:
            for w in self._workers:
                w.start()
        except BaseException:
            self.terminate()
            raise

    @property
    def _closed(self):
        return self._state.closed

    @property
    def _dead(self):
        return self._state.dead

    def __del__(self):
        state = self.__dict__.get('_state')
        if state is not None:
            state.closed = state.dead = True

    def _dump(self, obj):
        return pickle.dumps(obj) if self.isolated else obj

    def _load(self, blob):
        return pickle.loads(blob) if self.isolated else blob

    def _submit(self, func, args, kwds, done):
        if self._closed or self._dead:
            raise ValueError('Pool not running')
        blob = self._dump((func, args, kwds))
        self._sim.count('pool_tasks')

        def job():
            try:
                f, a, k = self._load(blob)
                out = self._load(self._dump(f(*a, **k)))
                err = None
            except Exception as e:
                out, err = None, e
            self._state.busy.discard(threading.current_thread())
            done(out, err)

        self._queue.append(job)

    def _batch(self, func, calls):
        res = _Result()
        n = len(calls)
        slots = [None] * n
        state = {'left': n, 'order': []}

        def make(i):
            def done(out, err):
                slots[i] = (out, err)
                state['left'] -= 1
                state['order'].append(i)
                if state['left'] == 0:
                    errs = [e for _, e in slots if e is not None]
                    res.error = errs[0] if errs else None
                    res.value = [v for v, _ in slots]
                    res.ready_ = True

            return done

        if n == 0:
            res.value = []
            res.ready_ = True
        for i, args in enumerate(calls):
            self._submit(func, args, {}, make(i))
        res.slots = slots
        res.state = state
        return res

    def map(self, func, iterable, chunksize=None):
        return self._batch(func, [(x,) for x in iterable]).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._batch(func, [tuple(x) for x in iterable]).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._batch(func, [(x,) for x in iterable])

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._batch(func, [tuple(x) for x in iterable])

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        res = _Result()

        def done(out, err):
            res.value, res.error, res.ready_ = out, err, True
            if err is None and callback is not None:
                callback(out)
            if err is not None and error_callback is not None:
                error_callback(err)

        self._submit(func, tuple(args), dict(kwds), done)
        return res

    def imap(self, func, iterable, chunksize=1):
        res = self._batch(func, [(x,) for x in iterable])

        def gen():
            for i in range(len(res.slots)):
                self._sim.wait_until(lambda: res.slots[i] is not None)
                out, err = res.slots[i]
                if err is not None:
                    raise err
                yield out

        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        res = self._batch(func, [(x,) for x in iterable])

        def gen():
            for k in range(len(res.slots)):
                self._sim.wait_until(lambda: len(res.state['order']) > k)
                out, err = res.slots[res.state['order'][k]]
                if err is not None:
                    raise err
                yield out

        return gen()

    def close(self):
        self._state.closed = True

    def terminate(self):
        self._state.closed = self._state.dead = True
        self._queue[:] = []

    def join(self):
        if not self._closed:
            raise ValueError('Pool is still running')
        for w in self._workers:
            w.join()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()


class SimThreadPool(SimPool):
    isolated = False


class SimProcessPoolExecutor(concurrent.futures.thread.ThreadPoolExecutor):

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        super().__init__(max_workers or CPUS, initializer=initializer, initargs=initargs)

    def submit(self, fn, /, *args, **kwargs):
        blob = pickle.dumps((fn, args, kwargs))

        def run():
            f, a, k = pickle.loads(blob)
            return pickle.loads(pickle.dumps(f(*a, **k)))

        return super().submit(run)


def _ctx_pool(self, *args, **kw):
    return SimPool(*args, **kw)


def _thread_pool(processes=None, initializer=None, initargs=()):
    return SimThreadPool(processes, initializer, initargs)


def install():
    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocessing.dummy.Pool = _thread_pool
    multiprocessing.context.BaseContext.Pool = _ctx_pool
    multiprocessing.context.BaseContext.cpu_count = lambda self: CPUS
    multiprocessing.cpu_count = lambda: CPUS
    os.cpu_count = lambda: CPUS
    concurrent.futures.ProcessPoolExecutor = SimProcessPoolExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimProcessPoolExecutor
