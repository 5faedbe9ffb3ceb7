"""C05: a failed or interrupted call comes back, and the same objects keep answering correctly afterwards"""
import contextlib
import io

from checks import c03
from sim import lmgen, oracle, pipes, runner, texts, world
from sim.runner import require


def _ref_build(corpus, order, smoothing):
    from checks import c04
    return c04.reference_build(corpus, order, smoothing)


def rare_lines(kind):
    """About as many lines of the package as one call runs"""
    return {'pipeline': 700, 'build': 250, 'parts': 150}[kind]


class C05(runner.Check):
    ID = 'C05'
    RUNS = {'quick': 1500, 'thorough': 40000}
    RULE = ('two to four successive calls on the same object (pipeline, logic pipeline, tokenizer, sentencizer, language model or its builder); while they run, '
            'Ctrl-C reaches the caller at an arbitrary line or while it waits, allocations fail in workers, threads '
            'cannot be started or the network runs out of memory; the last call meets no fault. Non-trivial: a fault '
            'fired and a later call ran without one')
    DISTINCT = 'nontrivial'
    REAL = pipes.PIPE_REAL + ['scrappybara.langmodel (builder, smoothers)']
    STUB = pipes.PIPE_STUB + ['process pool (simulated tasks, pickled boundary)', 'disk (simulated file layer)']
    ASSUMPTIONS = pipes.PIPE_ASSUME + ['Ctrl-C arrives between two lines of the package or in a blocking wait']
    PROBES = ['fault.line_error', 'fault.start_fail', 'fault.predict', 'fault.interrupt', 'fault.interrupt.blocked', 'fault.feed',
              'call.failed', 'call.recovered', 'kind.build', 'kind.pipeline', 'part.lm', 'part.logic', 'part.tokenizer', 'part.sentencizer']

    def setup(self):
        pipes.build_base()

    def plan(self, rng, tier):
        kind = rng.choice(['pipeline'] * 5 + ['build', 'parts', 'parts'])
        nb = rng.randint(1, 3)
        faults = []
        used = set()
        plan = {'kind': kind, 'sched': pipes.sched_plan(rng, 8000), 'predict_fail': [], 'faults': faults}

        def at():
            k = int(10 ** rng.uniform(0, 3 if kind == 'parts' else 4.3))
            while k in used:
                k += 1
            used.add(k)
            return k

        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            r = rng.random()
            if r < 0.45:
                faults.append({'kind': 'interrupt', 'at': at()})
            elif r < 0.75:
                faults.append({'kind': 'line_error', 'at': at(), 'worker': kind != 'parts' and rng.random() < 0.7,
                               'error': rng.choice(['MemoryError', 'MemoryError', 'RecursionError'])})
            elif r < 0.87 or kind != 'pipeline':
                faults.append({'kind': 'start_fail', 'at': rng.randrange(24)})
            else:
                plan['predict_fail'].append(rng.choice([0, 1, 2, 3, 5, 8, 13, 21]))
                plan['predict_error'] = oracle.error_plan(rng)
        if rng.random() < 0.3:
            for f in faults:
                if f['kind'] != 'start_fail':
                    # Any line that runs at all
                    f.update(at=rng.randrange(rare_lines(kind)), nth=rng.choice([1, 1, 2, 4]))
        if kind == 'build':
            order = rng.choice([1, 2])
            plan.update(corpora=[lmgen.corpus(rng, rng.randint(2, 5)) for _ in range(nb + 1)], order=order,
                        procs=rng.randint(1, 3), smoothing='maximum_likelihood_estimation')
            if rng.random() < 0.3:
                # Ctrl-C while the next text is read
                i = rng.randrange(nb)
                plan['feed'] = [i, rng.randint(0, len(plan['corpora'][i]))]
        elif kind == 'parts':
            part = rng.choice(['logic', 'tokenizer', 'sentencizer', 'lm', 'lm'])
            pool = texts.batch(rng, 5, 2)
            jobs = []
            for _ in range(nb + 1):
                if part == 'logic':
                    jobs.append({'gold': [rng.randrange(len(c03.GOLD)) for _ in range(rng.choice([1, 2]))]})
                elif part == 'lm':
                    jobs.append({'queries': [c03.lm_query(rng) for _ in range(rng.randint(2, 8))]})
                else:
                    jobs.append({'texts': rng.sample(pool, rng.randint(1, 3))})
            if part != 'logic':
                plan['faults'] = [f for f in faults if f['kind'] != 'start_fail'] or [{'kind': 'interrupt', 'at': at()}]
            plan.update(part=part, jobs=jobs, cfg=pipes.config_plan(rng, 3))
        else:
            pool = texts.batch(rng, 5, 2)
            calls = [[rng.choice(pool) for _ in range(rng.randint(1, 3))] for _ in range(nb + 1)]
            plan.update(calls=calls, chunks=[rng.random() < 0.6 for _ in calls], cfg=pipes.config_plan(rng, 4))
        return plan

    def execute(self, plan, out):
        out.count('kind.' + plan['kind'])
        if plan['kind'] == 'build':
            self._build(plan, out)
        elif plan['kind'] == 'parts':
            self._parts(plan, out)
        else:
            self._pipeline(plan, out)

    def _pipeline(self, plan, out):
        refs = [pipes.reference_docs(c, k) for c, k in zip(plan['calls'], plan['chunks'])]

        def setup(sim):
            return pipes.make_pipeline(sim, **plan['cfg'])

        def call(pipe, i):
            return pipes.docs_repr(pipe(list(plan['calls'][i]), chunk_common_nouns=plan['chunks'][i]))

        self._history(plan, out, setup, call, refs, len(refs), None)

    def _parts(self, plan, out):
        out.count('part.' + plan['part'])
        refs = []
        for job in plan['jobs']:
            ref, err = runner.pristine(c03.alone, plan['part'], plan['cfg'], job, 'lex')
            require(err is None, 'solo-failure', lambda: '%r alone raised %s' % (job, err))
            refs.append(ref)

        def setup(sim):
            return c03.build(plan['part'], sim, plan['cfg'])

        def call(obj, i):
            return c03.answer(plan['part'], obj, plan['jobs'][i])

        self._history(plan, out, setup, call, refs, len(refs), None)

    def _build(self, plan, out):
        refs = [runner.pristine(_ref_build, c, plan['order'], plan['smoothing']) for c in plan['corpora']]
        for e, _ in refs:
            if e is not None:
                return  # Too poor a corpus to build from
        root = runner.private_root()
        try:
            from scrappybara.langmodel.language_model_builder import LanguageModelBuilder

            sims = []

            def setup(sim):
                sims.append(sim)
                return LanguageModelBuilder(plan['order'], plan['smoothing'], plan['procs'])

            def read(i):
                for k, text in enumerate(plan['corpora'][i] + [None]):
                    if plan.get('feed') == [i, k]:
                        out.count('fault.feed')
                        sims[0].fired.append(['interrupt', sims[0].steps, 'reading text %d of call %d' % (k, i), 0])
                        raise KeyboardInterrupt('simulated')
                    if text is not None:
                        yield text

            def call(builder, i):
                with contextlib.redirect_stdout(io.StringIO()):
                    builder(read(i))
                image = world.snapshot(root)
                names = refs[i][1]
                return {k: image.get(k) for k in names}

            self._history(plan, out, setup, call, [f for _, f in refs], len(refs), root)
        finally:
            runner.drop_root(root)

    def _history(self, plan, out, setup, call, refs, nb, root):
        log = []

        def body(sim, obj):
            for i in range(nb):
                if i == nb - 1:
                    # Faults stop here
                    sim.line_faults.clear()
                    sim.rare_faults.clear()
                    sim.start_faults.clear()
                    from sim import faketf
                    faketf.PREDICTOR.fail_at.clear()
                before = len(sim.fired)
                alive = {t.tid for t in sim.tasks if not t.done}
                pools = len(sim.pools)
                try:
                    got, err = call(obj, i), None
                except (Exception, KeyboardInterrupt) as e:
                    if sim.aborting:
                        raise
                    got, err = None, e
                # Workers this call started and left running
                left = [t.tid for t in sim.tasks if not t.done and not t.daemon and t.tid not in alive]
                left += ['pool %d' % k for k, p in enumerate(sim.pools[pools:], pools) if not p.closed and not p.dead]
                log.append((i, got, err, len(sim.fired) - before, left))
            return True

        sim, res, err = pipes.simulate(body, out, plan['sched'], 'line', faults=plan['faults'], setup=setup,
                                       predict_fail=plan['predict_fail'], predict_error=plan.get('predict_error', 'oom'), root=root)
        pipes.check_quiescent(sim)
        if err is not None:
            raise err
        out.note_digest([(i, repr(e), n, left) for i, _, e, n, left in log])
        failed = False
        for i, got, e, fired, left in log:
            if fired:
                failed = True
                out.count('call.failed' if e is not None else 'call.survived')
                if all(f[0] != 'line_error' or f[3] == 0 or '/scrappybara/utils/' not in f[2] for f in sim.fired):
                    # The thread machinery cannot report that it failed itself
                    require(e is not None or got == refs[i], 'silent', lambda: 'call %d came back without an error, but not '
                            'with the right answer, after %r' % (i, sim.fired))
                continue
            require(e is None, 'later-failure', lambda: 'call %d met no fault, yet raised %r (fired before: %r)'
                    % (i, e, sim.fired))
            if got != refs[i]:
                if isinstance(got, dict):
                    what = 'files %r differ' % [k for k in sorted(set(got) | set(refs[i])) if got.get(k) != refs[i].get(k)]
                else:
                    what = pipes.diff(refs[i], got)
                require(False, 'later-corruption', 'call %d met no fault, but after %r: %s' % (i, sim.fired, what))
            require(not left, 'left-running', lambda: 'call %d returned while its tasks %r were still running'
                    % (i, left))
            if failed:
                out.count('call.recovered')
                out.nontrivial = True

    def shrink(self, plan):
        for key in ('faults', 'predict_fail'):
            for sub in runner.drop_each(plan[key], 0):
                yield dict(plan, **{key: sub})
        if plan.get('feed'):
            yield dict(plan, feed=None)
        if plan['kind'] == 'parts':
            for sub in runner.drop_each(plan['jobs'], 2):
                yield dict(plan, jobs=sub)
        elif plan['kind'] == 'pipeline':
            n = len(plan['calls'])
            for i in range(n - 1):
                if n > 2:
                    yield dict(plan, calls=plan['calls'][:i] + plan['calls'][i + 1:],
                               chunks=plan['chunks'][:i] + plan['chunks'][i + 1:])
            for i in range(n):
                for sub in runner.drop_each(plan['calls'][i], 1):
                    yield dict(plan, calls=plan['calls'][:i] + [sub] + plan['calls'][i + 1:])
            for cfg in pipes.simpler_configs(plan['cfg']):
                yield dict(plan, cfg=cfg)
        else:
            for i in range(len(plan['corpora'])):
                for sub in runner.drop_each(plan['corpora'][i], 1):
                    yield dict(plan, corpora=plan['corpora'][:i] + [sub] + plan['corpora'][i + 1:])
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C05()
