"""C04: a failure inside a worker never turns into a short or shifted result"""
import contextlib
import io

from sim import core, faketf, fs, lmgen, oracle, pipes, runner, texts, world
from sim.runner import require


class Boom(Exception):
    pass


ERRORS = {'Boom': Boom, 'ValueError': ValueError, 'KeyError': KeyError, 'MemoryError': MemoryError,
          'SystemExit': SystemExit, 'StopIteration': StopIteration, 'KeyboardInterrupt': KeyboardInterrupt,
          'IndexError': IndexError, 'RecursionError': RecursionError, 'OSError': OSError,
          'TypeError': TypeError, 'AttributeError': AttributeError, 'AssertionError': AssertionError, 'EOFError': EOFError,
          'UnicodeError': UnicodeError, 'RuntimeError': RuntimeError, 'TimeoutError': TimeoutError,
          'GeneratorExit': GeneratorExit}


def scope(code):
    """Lines where a running stage can fail: the stages themselves, not the thread machinery around them"""
    return '/scrappybara/utils/' not in code.co_filename


class Reader(object):
    """The texts of a corpus; reading one of them may fail"""

    def __init__(self, corpus, bad, error, out):
        self.todo, self.bad, self.error, self.out = list(corpus), bad, error, out
        self.at = -1

    def __iter__(self):
        return self

    def __next__(self):
        self.at += 1
        if self.at == self.bad:
            self.out.count('fault.item')
            self.out.count('fault.reader')
            raise ERRORS[self.error]('text %d cannot be read' % self.at)
        if self.at >= len(self.todo):
            raise StopIteration
        return self.todo[self.at]


def build_files(corpus, order, smoothing, procs, sim_args, out, faults=(), bad=None, error=None):
    """Builds a language model in a private folder; returns (sim, error, files)"""
    from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
    root = runner.private_root()
    try:
        def setup(sim):
            return LanguageModelBuilder(order, smoothing, procs)

        def body(sim, builder):
            with contextlib.redirect_stdout(io.StringIO()):
                builder(Reader(corpus, bad, error, out))

        sim, _, err = pipes.simulate(body, out, setup=setup, root=root, faults=faults, **sim_args)
        return sim, err, world.snapshot(root)
    finally:
        runner.drop_root(root)


def reference_build(corpus, order, smoothing):
    out = runner.Outcome()
    sim, err, files = build_files(corpus, order, smoothing, 1, {'trace': None}, out)
    return (None if err is None else type(err).__name__), files


class C04(runner.Check):
    ID = 'C04'
    RUNS = {'quick': 3000, 'thorough': 60000}
    RULE = ('one call with one fault inside it: an allocation failing at an arbitrary line of a worker or of the caller, '
            'a sentencizer or mapped function raising for one item, a corpus that cannot be read to its end, a failing network call, a '
            'thread that cannot be started, under a seeded schedule; non-trivial: the fault fired')
    DISTINCT = 'nontrivial'
    REAL = pipes.PIPE_REAL + ['scrappybara.langmodel (builder, smoothers)']
    STUB = pipes.PIPE_STUB + ['process pool (simulated tasks, pickled boundary)', 'disk (simulated file layer)']
    ASSUMPTIONS = pipes.PIPE_ASSUME + ['an allocation can fail at any line of a processing stage, but not inside the '
                                       'thread bookkeeping of utils']
    PROBES = ['fault.line_error', 'fault.start_fail', 'fault.predict', 'fault.item', 'fault.reader', 'kind.pipeline', 'kind.build',
              'kind.map', 'raised']

    def setup(self):
        pipes.build_base()

    def plan(self, rng, tier):
        kind = rng.choice(['pipeline'] * 5 + ['build'] * 3 + ['map'] * 2)
        plan = {'kind': kind, 'sched': pipes.sched_plan(rng, 6000), 'trace': 'line', 'faults': [], 'predict_fail': [],
                'bad_item': None, 'error': 'Boom'}
        if kind == 'map':
            n = rng.randint(1, 10) if rng.random() > 0.03 else rng.choice([40, 120])
            plan.update(n=n, threads=rng.randint(1, 6), bad_item=[rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3]))],
                        error=rng.choice(list(ERRORS)), delay=rng.choice([0, 0, 1, 5]))
            plan['trace'] = rng.choice(['line', 'opcode'])
            return plan
        if kind == 'build':
            plan.update(corpus=lmgen.corpus(rng, rng.randint(4, 9)), order=rng.choice([1, 2, 3]), procs=rng.randint(1, 4))
            smoothing = rng.choice(['modified_kneser_ney', 'maximum_likelihood_estimation'])
            plan['smoothing'] = smoothing if plan['order'] > 1 else 'maximum_likelihood_estimation'
            r = rng.random()
            if r < 0.2:
                plan['bad_item'] = [rng.randrange(len(plan['corpus']))]
                plan['error'] = rng.choice([e for e in ERRORS if e != 'StopIteration'])  # That one means the end
            elif r < 0.5:
                worker = rng.random() < 0.7
                plan['faults'] = [{'kind': 'line_error', 'at': rng.randrange(110 if worker else 340), 'nth': rng.choice([1, 1, 2, 4]),
                                   'worker': worker}]
            elif r < 0.75:
                plan['faults'] = [{'kind': 'line_error', 'at': int(10 ** rng.uniform(0, 4.2)), 'worker': rng.random() < 0.7}]
            else:
                plan['faults'] = [{'kind': 'start_fail', 'at': rng.randrange(14)}]
            return plan
        plan.update(texts=texts.batch(rng, rng.randint(1, 4), 2), cfg=pipes.config_plan(rng, 4), chunk=rng.random() < 0.6)
        r = rng.random()
        if r < 0.2:
            # Any line that runs at all
            plan['faults'] = [{'kind': 'line_error', 'at': rng.randrange(600), 'nth': rng.choice([1, 1, 2, 4]), 'worker': rng.random() < 0.85,
                               'error': rng.choice(['MemoryError', 'MemoryError', 'RecursionError', 'RuntimeError'])}]
        elif r < 0.62:
            plan['faults'] = [{'kind': 'line_error', 'at': int(10 ** rng.uniform(0, 4.3)), 'worker': rng.random() < 0.85,
                               'error': rng.choice(['MemoryError', 'MemoryError', 'RecursionError', 'RuntimeError'])}]
        elif r < 0.75:
            plan['bad_item'] = [rng.randrange(len(plan['texts']))]
            plan['error'] = rng.choice(list(ERRORS))
        elif r < 0.87:
            plan['predict_fail'] = [rng.choice([0, 1, 2, 3, 5, 8])]
            plan['predict_error'] = oracle.error_plan(rng)
        else:
            plan['faults'] = [{'kind': 'start_fail', 'at': rng.randrange(12)}]
        return plan

    def execute(self, plan, out):
        out.count('kind.' + plan['kind'])
        getattr(self, '_' + plan['kind'])(plan, out)

    def _map(self, plan, out):
        from scrappybara.utils.multithreading import run_multithreads

        def body(sim):
            def process(i):
                sim.point()
                if plan['delay']:
                    sim.sleep(plan['delay'] * ((i * 7) % 3))
                if i in plan['bad_item']:
                    out.count('fault.item')
                    raise ERRORS[plan['error']]('item %d' % i)
                return i

            return run_multithreads(list(range(plan['n'])), process, plan['threads'])

        sim, res, err = pipes.simulate(body, out, plan['sched'], plan['trace'], max_steps=200000)
        pipes.check_quiescent(sim)
        out.nontrivial = True
        out.note_digest(repr(err))
        require(err is not None or self._exited(sim), 'silent-failure',
                lambda: 'item(s) %r raised %s but the call returned %r' % (plan['bad_item'], plan['error'], res))
        out.count('raised')

    @staticmethod
    def _exited(sim):
        return False

    def _build(self, plan, out):
        ref_err, ref = runner.pristine(reference_build, plan['corpus'], plan['order'], plan['smoothing'])
        sim, err, files = build_files(plan['corpus'], plan['order'], plan['smoothing'], plan['procs'],
                                      {'sched': plan['sched'], 'trace': 'line', 'scope': scope}, out, plan['faults'],
                                      (plan['bad_item'] or [None])[0], plan['error'])
        self._verdict(plan, out, sim, err, files, ref, ref_err)

    def _pipeline(self, plan, out):
        ref = pipes.reference_docs(plan['texts'], plan['chunk'])

        def setup(sim):
            from scrappybara.preprocessing.sentencizer import Sentencizer
            real = Sentencizer()
            bad = plan['bad_item'] or []
            count = [0]

            def sentencizer(item):
                if item[0] in bad:
                    out.count('fault.item')
                    raise ERRORS[plan['error']]('text %d' % item[0])
                return real(item[1])

            return pipes.make_pipeline(sim, sentencizer, **plan['cfg'])

        def body(sim, pipe):
            return pipes.docs_repr(pipe([(i, t) for i, t in enumerate(plan['texts'])], chunk_common_nouns=plan['chunk']))

        sim, res, err = pipes.simulate(body, out, plan['sched'], plan['trace'], faults=plan['faults'], setup=setup,
                                       predict_fail=plan['predict_fail'], predict_error=plan.get('predict_error', 'oom'), scope=scope)
        self._verdict(plan, out, sim, err, res, ref, None)

    def _verdict(self, plan, out, sim, err, got, want, ref_err):
        pipes.check_quiescent(sim)
        fired = bool(sim.fired) or bool(out.stats.get('fault.item'))
        out.nontrivial = fired
        out.note_digest(repr(err), sorted(got.items()) if isinstance(got, dict) else got)
        if err is not None:
            out.count('raised')
            if not fired:
                require(ref_err is not None and type(err).__name__ == ref_err, 'raised',
                        lambda: 'no fault fired, yet the call raised %r' % (err,))
            return
        require(ref_err is None, 'silent-failure', lambda: 'expected %s, got a result' % ref_err)
        if got != want:
            if isinstance(got, dict):
                what = 'files %r differ' % [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
            else:
                what = pipes.diff(want, got)
            require(False, 'silent-failure' if fired else 'wrong-result',
                    '%r fired, the call returned normally: %s' % (sim.fired, what))

    def shrink(self, plan):
        if plan['kind'] == 'pipeline':
            if plan['bad_item'] is None:
                for sub in runner.drop_each(plan['texts'], 1):
                    yield dict(plan, texts=sub)
            for cfg in pipes.simpler_configs(plan['cfg']):
                yield dict(plan, cfg=cfg)
        elif plan['kind'] == 'build':
            if plan['bad_item'] is None:
                for sub in runner.drop_each(plan['corpus'], 1):
                    yield dict(plan, corpus=sub)
        else:
            for sub in runner.drop_each(plan['bad_item'], 1):
                yield dict(plan, bad_item=sub)
            if plan['n'] > max(plan['bad_item']) + 1:
                yield dict(plan, n=max(plan['bad_item']) + 1)
            if plan['threads'] > 1:
                yield dict(plan, threads=plan['threads'] - 1)
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C04()
