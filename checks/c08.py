"""C08: language-model files hold exact counts and the probabilities the smoothing method defines, whatever the workers do"""
import contextlib
import io

from sim import lmgen, pipes, refs, runner, world
from sim.runner import require

MKN, MLE = 'modified_kneser_ney', 'maximum_likelihood_estimation'


def build(corpus, order, smoothing, procs, out, sim_args, before=None):
    """Builds in a private folder (after another build by the same builder, if asked for); returns (sim, error, files)"""
    from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
    from scrappybara.langmodel.mkn_smoother import ModifiedKneserNeyNotEnoughDataError
    root = runner.private_root()
    try:
        def setup(sim):
            return LanguageModelBuilder(order, smoothing, procs)

        def body(sim, builder):
            with contextlib.redirect_stdout(io.StringIO()):
                if before is not None:
                    try:
                        with sim.quiet():
                            builder(iter(list(before)))
                        out.count('builder_used_before')
                    except ModifiedKneserNeyNotEnoughDataError:
                        out.count('builder_failed_before')
                builder(iter(list(corpus)))

        sim, _, err = pipes.simulate(body, out, setup=setup, root=root, **sim_args)
        return sim, err, world.snapshot(root)
    finally:
        runner.drop_root(root)


def sentences(corpus):
    """The real sentencizer, run alone"""
    from scrappybara.preprocessing.sentencizer import Sentencizer
    s = Sentencizer()
    return [toks for text in corpus for toks in s(text)]


def sequential(corpus, order, smoothing):
    out = runner.Outcome()
    _, err, files = build(corpus, order, smoothing, 1, out, {'trace': None})
    return None if err is None else type(err).__name__, files


def parse(data, order):
    """{gram: (count, proba)} of a file, in file order"""
    out = {}
    last = float('inf')
    for line in data.decode('utf-8').splitlines():
        cols = line.split('\t')
        require(len(cols) == 3, 'format', lambda: 'line %r of the %d-grams' % (line, order))
        gram = tuple(cols[0].split(' '))
        require(len(gram) == order, 'format', lambda: '%r among the %d-grams' % (cols[0], order))
        require(gram not in out, 'duplicate', lambda: '%r is listed twice' % cols[0])
        p = float(cols[2])
        require(p > 0.0, 'format', lambda: '%r: a probability of zero has no logarithm, the model could not be loaded' % line)
        require(p <= last, 'order', lambda: '%r is out of order' % line)
        last = p
        out[gram] = (int(cols[1]), p)
    return out


class C08(runner.Check):
    ID = 'C08'
    RUNS = {'quick': 1500, 'thorough': 40000}
    RULE = ('a random corpus (0-40 texts), order 1-4, smoothing method and 1-9 worker processes/threads built under a '
            'seeded schedule; files compared byte for byte with a one-worker build and value by value with reference '
            'counts and smoothing formulas; non-trivial: at least two workers and a multi-word n-gram')
    DISTINCT = 'nontrivial'
    REAL = ['scrappybara.langmodel (builder, store, extraction, smoothers)', 'scrappybara.preprocessing', 'scrappybara.utils']
    STUB = ['process pool (simulated tasks, pickled boundary)', 'thread scheduling, clock (simulator)',
            'disk (simulated file layer)']
    ASSUMPTIONS = ['the sentencizer alone defines what the sentences of a text are',
                   'probabilities are compared to 1e-14; those within 1e-12 of zero may or may not be listed']
    PROBES = ['smoothing.' + MKN, 'smoothing.' + MLE, 'too_poor', 'empty_order', 'more_workers_than_ngrams',
              'nonpositive', 'builder_used_before', 'builder_failed_before', 'giant', 'mass']

    def plan(self, rng, tier):
        smoothing = rng.choice([MKN, MKN, MLE])
        order = rng.choice([2, 2, 3, 3, 4]) if smoothing == MKN else rng.choice([1, 2, 3, 4])
        r = rng.random()
        if r < 0.15 and smoothing == MLE:
            corpus = lmgen.corpus(rng, rng.choice([1, 1, 2]), sents=1)
            if rng.random() < 0.4:
                corpus = [rng.choice(['Hello', 'dog', 'the dog', '42.', 'I', '', 'a. b. c.'])]
        else:
            corpus = lmgen.corpus(rng, rng.choice([3, 6, 12, 20, 40]), sents=rng.choice([3, 6, 10]))
        if rng.random() < 0.04 and smoothing == MKN:
            corpus, order = list(rng.choice(lmgen.CANCELLING)), 2
        elif rng.random() < 0.2:
            rng.shuffle(corpus)
            corpus = corpus + corpus[:rng.randint(0, len(corpus))]
        if rng.random() < 0.008:
            # More occurrences than 16 bits can count
            return {'corpus': corpus[:12], 'giant': [rng.choice(lmgen.WORDS), rng.choice([33000, 66000])], 'before': None,
                    'order': min(order, 3), 'smoothing': smoothing, 'procs': rng.choice([1, 2, 3]), 'sched': {'mode': 'seq'}}
        if rng.random() < 0.008:
            # A vocabulary of thousands of words
            return {'corpus': corpus[:12], 'mass': [rng.randrange(10 ** 6), rng.choice([300, 2500, 9000]), rng.choice([20, 150, 400])], 'before': None,
                    'order': min(order, 3), 'smoothing': smoothing, 'procs': rng.choice([1, 2, 3, 8]), 'sched': {'mode': 'seq'}}
        before = lmgen.corpus(rng, rng.choice([1, 3, 6]), sents=rng.choice([1, 3, 6])) if rng.random() < 0.25 else None
        return {'corpus': corpus, 'before': before, 'order': order, 'smoothing': smoothing, 'procs': rng.choice([1, 2, 2, 3, 4, 5, 7, 9]),
                'sched': pipes.sched_plan(rng, 20000)}

    def execute(self, plan, out):
        corpus, order, smoothing = plan['corpus'], plan['order'], plan['smoothing']
        giant = plan.get('giant')
        if giant:
            corpus = corpus + [' '.join([giant[0]] * giant[1])]
            out.count('giant')
        mass = plan.get('mass')
        if mass:
            corpus = corpus + lmgen.mass(*mass)
            out.count('mass')
        out.count('smoothing.' + smoothing)
        counts = refs.count_ngrams(runner.pristine(sentences, corpus), order)
        try:
            want = refs.mkn(counts) if smoothing == MKN else refs.mle(counts)
        except refs.TooPoor:
            want = None
        ref_err, ref_files = runner.pristine(sequential, corpus, order, smoothing)
        sim, err, files = build(corpus, order, smoothing, plan['procs'], out,
                                {'sched': plan['sched'], 'trace': None if giant or mass else 'line', 'max_steps': 20000000}, plan['before'])
        pipes.check_quiescent(sim)
        name = None if err is None else type(err).__name__
        out.note_digest(name, sorted(files.items()))
        require(name == ref_err, 'workers', lambda: 'one worker: %s; %d workers: %r' % (ref_err, plan['procs'], err))
        if want is None:
            out.count('too_poor')
            require(name == 'ModifiedKneserNeyNotEnoughDataError', 'too-poor',
                    lambda: 'no discounts exist for this corpus, yet the build ended with %s' % name)
            return
        if err is not None:
            require(False, 'raised', lambda: 'the build raised %r' % (err,))
        require(files == ref_files, 'workers', lambda: 'files %r differ between 1 and %d workers'
                % ([k for k in sorted(set(files) | set(ref_files)) if files.get(k) != ref_files.get(k)], plan['procs']))
        out.nontrivial = plan['procs'] > 1 and any(counts[n] for n in counts if n > 1)
        for n in range(1, order + 1):
            data = files.get('langmodel/%d_grams.txt' % n)
            require(data is not None, 'missing-file', lambda: 'no file for order %d' % n)
            got = parse(data, n)
            if not counts[n]:
                out.count('empty_order')
            if 0 < len(counts[n]) < plan['procs']:
                out.count('more_workers_than_ngrams')
            for g, c in counts[n].items():
                p = want[n][g]
                if g not in got:
                    require(p < 1e-12, 'missing', lambda: '%r (count %d, probability %.17f) is not in the file'
                            % (' '.join(g), c, p))
                    out.count('nonpositive')
                    continue
                require(p > -1e-12, 'nonpositive', lambda: '%r has probability %.17f and must not be listed' % (g, p))
                require(got[g][0] == c, 'count', lambda: '%r: count %d, expected %d' % (' '.join(g), got[g][0], c))
                require(abs(got[g][1] - p) <= 1e-14, 'probability',
                        lambda: '%r: probability %.17f, expected %.17f' % (' '.join(g), got[g][1], p))
            for g in got:
                require(g in counts[n], 'extra', lambda: '%r is in the file but not in the corpus' % ' '.join(g))
        extra = [k for k in files if k not in ['langmodel/%d_grams.txt' % n for n in range(1, order + 1)]]
        require(not extra, 'extra-file', lambda: 'the build left %r behind' % extra)

    def shrink(self, plan):
        for sub in runner.drop_each(plan['corpus'], 0):
            yield dict(plan, corpus=sub)
        if plan.get('mass'):
            seed, words, texts = plan['mass']
            yield dict(plan, mass=None)
            yield dict(plan, mass=[seed, words // 2, texts])
            yield dict(plan, mass=[seed, words, texts // 2])
        if plan.get('giant'):
            yield dict(plan, giant=None)
        if plan['before'] is not None:
            yield dict(plan, before=None)
            for sub in runner.drop_each(plan['before'], 0):
                yield dict(plan, before=sub)
        if plan['procs'] > 1:
            yield dict(plan, procs=plan['procs'] - 1)
        if plan['order'] > 1 and (plan['smoothing'] == MLE or plan['order'] > 2):
            yield dict(plan, order=plan['order'] - 1)
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C08()
