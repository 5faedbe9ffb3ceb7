"""C02: a document depends on nothing but its own text and the options of the call"""
from sim import pipes, runner, texts
from sim.runner import require


class _Scribble(object):
    """A tuple that no text holds"""
    code = 'SCRIBBLE'

    def flatten(self, with_decorators=True):
        return 'SCRIBBLE()'

    def __iter__(self):
        return iter(())


SCRIBBLE = _Scribble()


class C02(runner.Check):
    ID = 'C02'
    RUNS = {'quick': 1100, 'thorough': 40000}
    RULE = ('1-5 generated texts (quotes, brackets, links, smileys, abbreviations, long sentences, near-duplicates) in one '
            'or several calls on one or two pipelines, random worker count, batch size, device and options, seeded '
            'schedule; every document is compared with the one a fresh process computes for that text alone; '
            'non-trivial: some call had a neighbour or a predecessor')
    REAL = pipes.PIPE_REAL
    STUB = pipes.PIPE_STUB
    ASSUMPTIONS = pipes.PIPE_ASSUME
    PROBES = ['with_neighbours', 'with_history', 'tuples', 'scribbled']

    def setup(self):
        pipes.build_base()

    def plan(self, rng, tier):
        nb_pipes = rng.choice([1, 1, 1, 2])
        pool = texts.batch(rng, rng.randint(1, 5), 2)
        crowd = rng.random() < 0.02  # Now and then many more texts than one batch holds
        if crowd:
            pool = [texts.text(rng, 1) for _ in range(6)]
        elif rng.random() < 0.15:
            pool.append(texts.long_text(rng, rng.randint(40, 130)))
        calls = []
        for _ in range((rng.choice([1, 1, 2, 3]) if rng.random() > 0.02 else 9) if not crowd else 1):
            k = rng.choice([1, 2, 3, 4, 5]) if not crowd else rng.choice([65, 129, 140])
            picked = [rng.choice(pool) for _ in range(k)] if rng.random() < 0.5 or crowd else rng.sample(pool, min(k, len(pool)))
            calls.append({'pipe': rng.randrange(nb_pipes), 'texts': picked, 'chunk': rng.random() < 0.6})
        cfgs = [pipes.config_plan(rng) for _ in range(nb_pipes)]
        if crowd:
            cfgs = [dict(c, batch_size=rng.choice([16, 64, 128])) for c in cfgs]
        return {'cfgs': cfgs, 'calls': calls, 'scribble': rng.random() < 0.5,
                'predictor': 'lex' if rng.random() < 0.85 else 'wild', 'sched': pipes.sched_plan(rng),
                'trace': 'line' if rng.random() < 0.92 else 'opcode'}

    def execute(self, plan, out):
        refs = {}
        for call in plan['calls']:
            for t in call['texts']:
                if (t, call['chunk']) not in refs:
                    refs[t, call['chunk']] = pipes.reference_docs([t], call['chunk'], plan['predictor'])[0]

        def setup(sim):
            return [pipes.make_pipeline(sim, **cfg) for cfg in plan['cfgs']]

        def body(sim, made):
            res = []
            held = []
            for c in plan['calls']:
                docs = made[c['pipe']](list(c['texts']), chunk_common_nouns=c['chunk'])
                with sim.quiet():
                    res.append(pipes.docs_repr(docs))
                    if plan['scribble']:
                        self._scribble(docs)
                    else:
                        held.append((len(res) - 1, docs))
            with sim.quiet():
                return res, [(k, pipes.docs_repr(docs)) for k, docs in held]

        sim, res, err = pipes.simulate(body, out, plan['sched'], plan['trace'], predictor=plan['predictor'],
                                       setup=setup, max_steps=20000000)
        pipes.check_quiescent(sim)
        require(err is None, 'raised', lambda: 'the call raised %r' % (err,))
        res, held = res
        for k, later in held:
            require(later == res[k], 'document-changed', lambda: 'the documents of call %d changed during later calls: %s' % (
                k, pipes.diff(res[k], later)))
        if plan['scribble'] and len(plan['calls']) > 1:
            out.count('scribbled')
        for k, (call, got) in enumerate(zip(plan['calls'], res)):
            want = [refs[t, call['chunk']] for t in call['texts']]
            require(got == want, 'document-differs',
                    lambda: 'call %d with %r: %s' % (k, call['texts'], pipes.diff(want, got)))
            out.count('tuples', sum(len(s) for d in got for s in d))
            if len(call['texts']) > 1:
                out.count('with_neighbours')
        if len(plan['calls']) > 1:
            out.count('with_history')
        out.note_digest(res)
        out.nontrivial = len(plan['calls']) > 1 or len(plan['calls'][0]['texts']) > 1

    @staticmethod
    def _scribble(docs):
        """What a caller may do with documents it owns"""
        for doc in docs:
            for sent in doc:
                for st in sent:
                    for arg in st:
                        arg.word, arg.is_affirmative = 'scribble', not arg.is_affirmative
                if isinstance(getattr(sent, 'stuples', None), list):
                    sent.stuples.clear()
                    sent.stuples.append(SCRIBBLE)
            if isinstance(getattr(doc, 'sentences', None), list):
                doc.sentences.reverse()
                doc.sentences.append(None)
        if isinstance(docs, list):
            docs.clear()

    def shrink(self, plan):
        for calls in runner.drop_each(plan['calls'], 1):
            yield dict(plan, calls=calls)
        for c, call in enumerate(plan['calls']):
            for sub in runner.drop_each(call['texts'], 1):
                yield dict(plan, calls=plan['calls'][:c] + [dict(call, texts=sub)] + plan['calls'][c + 1:])
        for i, cfg in enumerate(plan['cfgs']):
            for small in pipes.simpler_configs(cfg):
                yield dict(plan, cfgs=plan['cfgs'][:i] + [small] + plan['cfgs'][i + 1:])
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})
        for c, call in enumerate(plan['calls']):
            for i, t in enumerate(call['texts']):
                words = t.split(' ')
                if len(words) > 1:
                    for sub in runner.drop_each(words, 1):
                        new = call['texts'][:i] + [' '.join(sub)] + call['texts'][i + 1:]
                        yield dict(plan, calls=plan['calls'][:c] + [dict(call, texts=new)] + plan['calls'][c + 1:])


CHECK = C02()
