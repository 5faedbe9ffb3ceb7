"""C13: the reported execution times lose nothing, and clock adjustments do not show in them"""
import contextlib
import io
import math
import re
import threading

from sim import lmgen, pipes, runner
from sim.runner import require

FORMAT = re.compile(r'^(\d+):([0-5]\d):([0-5]\d)$')


def seconds(text):
    m = FORMAT.match(text) if isinstance(text, str) else None
    require(m is not None, 'format', lambda: 'a duration reads %r' % (text,))
    return int(m.group(1)) * 3600 + int(m.group(2)) * 60 + int(m.group(3))


def within(text, lo, hi, what):
    got = seconds(text)
    require(math.floor(lo) <= got <= math.floor(hi), 'wrong-duration', lambda: '%s is reported as %r, but took between '
            '%.6f and %.6f s' % (what, text, lo, hi))


class C13(runner.Check):
    ID = 'C13'
    RUNS = {'quick': 6000, 'thorough': 200000}
    RULE = ('one to three threads, each with a timer of its own, work for seeded simulated times, take laps and ask for the '
            'total, or a language-model build reports its execution time; the process is stalled and the wall clock jumps '
            'back and forth at seeded steps; every reported duration is compared with the simulated time that passed; '
            'non-trivial: a stall or jump fired')
    DISTINCT = 'nontrivial'
    REAL = ['scrappybara.utils.timer', 'scrappybara.langmodel (builder, smoothers)']
    STUB = ['clocks, sleep, thread scheduling, process pool (simulator)']
    ASSUMPTIONS = ['the performance counter never goes back; the wall clock may', 'a timer belongs to one thread']
    PROBES = ['fault.stall', 'fault.clock_jump', 'lap', 'total', 'threads', 'build', 'hours']

    def plan(self, rng, tier):
        plan = {'kind': 'build' if rng.random() < 0.12 else 'timers', 'sched': pipes.sched_plan(rng, 300), 'faults': []}

        def secs():
            # A power-of-two fraction, so that the arithmetic of the oracle is exact
            return int(10 ** rng.uniform(0, rng.choice([3, 5, 8]))) / 1024.0

        if plan['kind'] == 'build':
            plan['order'] = rng.choice([1, 2])
            plan['corpus'] = lmgen.corpus(rng, rng.randint(1, 4))
            plan['waits'] = [secs() if rng.random() < 0.5 else 0 for _ in plan['corpus']]
            horizon = 4.2
        else:
            plan['jobs'] = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                ops = []
                for _ in range(rng.randint(1, 9) if rng.random() < 0.93 else int(10 ** rng.uniform(1, 2.9))):
                    r = rng.random()
                    ops.append(['work', secs()] if r < 0.45 else [rng.choice(['lap', 'total'])])
                plan['jobs'].append(ops + [['total']])
            horizon = 2.3
        for _ in range(rng.choice([0, 1, 2, 4])):
            plan['faults'].append({'kind': 'stall', 'at': int(10 ** rng.uniform(0, horizon)), 'secs': secs()})
        for _ in range(rng.choice([0, 1, 2])):
            plan['faults'].append({'kind': 'clock_jump', 'at': int(10 ** rng.uniform(0, horizon)),
                                   'secs': secs() * rng.choice([-1, 1])})
        return plan

    def execute(self, plan, out):
        if plan['kind'] == 'build':
            self._build(plan, out)
            return
        from scrappybara.utils.timer import Timer
        took = []

        def job(sim, ops):
            born = [sim.now]
            timer = Timer()
            born.append(sim.now)
            last = list(born)
            for op in ops:
                if op[0] == 'work':
                    sim.sleep(op[1])
                    continue
                before = sim.now
                text = timer.lap_time if op[0] == 'lap' else timer.total_time
                after = sim.now
                # The clock was read at some moment of each call
                took.append((text, op[0], before - last[1], after - last[0], before - born[1], after - born[0]))
                last = [before, after]

        def body(sim):
            if len(plan['jobs']) == 1:
                job(sim, plan['jobs'][0])
                return
            out.count('threads')
            ts = [threading.Thread(target=job, args=(sim, ops)) for ops in plan['jobs']]
            for t in ts:
                t.start()
            for t in ts:
                t.join()

        sim, _, err = pipes.simulate(body, out, plan['sched'], 'line', faults=plan['faults'], max_steps=100000)
        pipes.check_quiescent(sim)
        require(err is None and not sim.unhandled, 'raised', lambda: 'raised %r %r' % (err, sim.unhandled))
        out.nontrivial = bool(sim.fired)
        out.note_digest(took)
        for text, kind, lap_lo, lap_hi, lo, hi in took:
            out.count(kind)
            if lo > 3600:
                out.count('hours')
            if kind == 'lap':
                within(text, lap_lo, lap_hi, 'a lap')
            else:
                within(text, lo, hi, 'the whole time since the timer was made')

    def _build(self, plan, out):
        from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
        out.count('build')
        printed = io.StringIO()
        times = []

        def feed(sim):
            for text, secs in zip(plan['corpus'], plan['waits']):
                if secs:
                    sim.sleep(secs)
                yield text

        def body(sim):
            builder = LanguageModelBuilder(plan['order'], 'maximum_likelihood_estimation', 2)
            with contextlib.redirect_stdout(printed):
                times.append(sim.now)
                builder(feed(sim))
                times.append(sim.now)

        root = runner.private_root()
        try:
            sim, _, err = pipes.simulate(body, out, plan['sched'], 'line', faults=plan['faults'], root=root)
        finally:
            runner.drop_root(root)
        pipes.check_quiescent(sim)
        require(err is None, 'raised', lambda: 'the build raised %r' % (err,))
        out.nontrivial = bool(sim.fired)
        found = re.findall(r'time: (\S+)', printed.getvalue())
        require(len(found) == 1, 'format', lambda: 'no execution time in %r' % printed.getvalue()[-300:])
        # Only stalls before the timer is made or after it is read may be missing
        slack = sum([f['secs'] for f in plan['faults'] if f['kind'] == 'stall']) + 1.0
        out.note_digest(found)
        spent = times[1] - times[0]
        inner = sum(plan['waits'])
        within(found[0], max(inner, spent - slack), spent, 'the build')

    def shrink(self, plan):
        for sub in runner.drop_each(plan['faults'], 0):
            yield dict(plan, faults=sub)
        if plan['kind'] == 'build':
            for n in range(len(plan['corpus']) - 1, 0, -1):
                yield dict(plan, corpus=plan['corpus'][:n], waits=plan['waits'][:n])
            return
        for sub in runner.drop_each(plan['jobs'], 1):
            yield dict(plan, jobs=sub)
        for k, ops in enumerate(plan['jobs']):
            for sub in runner.drop_each(ops, 1):
                yield dict(plan, jobs=plan['jobs'][:k] + [sub] + plan['jobs'][k + 1:])
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C13()
