"""Shared by the checks that drive the pipeline"""
from . import core, faketf, fs, oracle, runner


def doc_repr(doc):
    """What a user can see of a document"""
    flat = [(st.flatten(), st.code) for sent in doc for st in sent]
    runner.require([(st.flatten(), st.code) for st in doc.stuples] == flat, 'document', 'the tuples of a document are not those of its sentences')
    return [[(st.flatten(), st.code, tuple((a.word, a.code, bool(a.is_affirmative)) for a in st)) for st in sent]
            for sent in doc]


def docs_repr(docs):
    return [doc_repr(d) for d in docs]


def sched_plan(rng, horizon=15000):
    """A schedule policy; most runs preempt, some hardly ever do"""
    r = rng.random()
    if r < 0.38:
        return {'mode': 'random', 'seed': rng.getrandbits(48), 'p': rng.choice([0.002, 0.01, 0.03, 0.1, 0.3, 0.7])}
    if r < 0.62:
        return {'mode': 'focus', 'seed': rng.getrandbits(48), 'p': rng.choice([0.0, 0.001, 0.01]),
                'share': rng.choice([0.02, 0.05, 0.1, 0.2]), 'inside': rng.choice([0.1, 0.3, 0.6, 0.9])}
    if r < 0.92:
        return {'mode': 'pct', 'seed': rng.getrandbits(48), 'depth': rng.choice([1, 2, 3, 5, 9]),
                'horizon': int(horizon * rng.choice([0.1, 0.5, 1.0]))}
    return {'mode': 'random', 'seed': rng.getrandbits(48), 'p': 0.0}


def simulate(fn, out, sched=None, trace='line', faults=(), predictor='lex', predict_fail=(), predict_error='oom', max_steps=3000000,
             scope=None, bufsize=None, root=None, fs_faults=(), fs_on_op=None, keep_fs=None,
             setup=None, power=False):
    """Runs fn(sim) inside one simulation; returns (sim, result, error).
    With setup, setup(sim) runs first, without switch points, and fn gets what it returned as second argument.
    """
    stats = {}
    faketf.PREDICTOR = oracle.make(predictor, predict_fail, stats, predict_error) if isinstance(predictor, str) else predictor
    sim = core.Sim(sched, trace=trace, faults=faults, stats=stats, max_steps=max_steps)
    sim.in_fault_scope = scope
    disk = fs.SimFS(root or runner.ROOT, fs_faults, bufsize=bufsize, stats=stats, on_op=fs_on_op, power=power)
    if keep_fs is not None:
        keep_fs.append(disk)

    def whole():
        if setup is None:
            sim.trace_on()
            return fn(sim)
        made = setup(sim)
        sim.trace_on()
        return fn(sim, made)

    with fs.active(disk):
        result, error = sim.run(whole)
    out.absorb(sim)
    out.fired.extend(disk.fired)
    return sim, result, error


def check_quiescent(sim):
    """No deadlock, no endless run"""
    runner.require(not sim.deadlocked, 'deadlock', 'every remaining task waits for something that cannot happen')
    runner.require(not sim.over_budget, 'no-progress', 'still running after %d steps' % sim.max_steps)


def make_pipeline(sim, sentencizer=None, nb_cores=1, batch_size=1, use_gpu=True):
    from scrappybara.pipeline.pipeline import Pipeline
    kw = {'nb_cores': nb_cores, 'batch_size': batch_size, 'use_gpu': use_gpu}
    if sentencizer is not None:
        kw['sentencizer'] = sentencizer
    return Pipeline(**kw)


BASE = None  # A pipeline nobody has used yet


def build_base():
    """Built once, before any run; references are computed by forks that each use it for one call only"""
    global BASE
    out = runner.Outcome()

    def body(sim):
        return make_pipeline(sim)

    _, BASE, err = simulate(body, out, trace=None)
    if err is not None:
        raise runner.Violation('construction', 'building the pipeline raised %r' % (err,))


def _solo(text, chunk, predictor):
    """Document of one text, alone (runs in a process of its own)"""
    out = runner.Outcome()

    def body(sim):
        with sim.quiet():
            return docs_repr(BASE([text], chunk_common_nouns=chunk))

    sim, res, err = simulate(body, out, trace=None, predictor=predictor)
    if sim.deadlocked:
        return ('err', 'deadlock')
    if err is not None:
        return ('err', repr(err))
    return ('ok', res)


def reference_docs(texts, chunk=True, predictor='lex'):
    """For each text, what the pipeline answers for that text alone in a fresh process"""
    out = []
    memo = {}
    for t in texts:
        if t not in memo:
            memo[t] = runner.pristine(_solo, t, chunk, predictor)
        status, res = memo[t]
        if status != 'ok':
            raise runner.Violation('solo-failure', 'processing %r alone raised %s' % (t, res))
        docs = res
        runner.require(len(docs) == 1, 'document-count', lambda: '%d documents for the one text %r' % (len(docs), t))
        out.append(docs[0])
    return out


def diff(expected, got):
    for i, (a, b) in enumerate(zip(expected, got)):
        if a != b:
            return 'item %d: expected %r, got %r' % (i, a, b)
    return 'expected %d items, got %d' % (len(expected), len(got))


PIPE_REAL = ['scrappybara.pipeline', 'scrappybara.preprocessing', 'scrappybara.syntax (parser, tree, nodifier, argument '
             'finder ...)', 'scrappybara.normalization', 'scrappybara.semantics', 'scrappybara.langmodel.language_model',
             'scrappybara.utils']
PIPE_STUB = ['thread scheduling, locks, clock (simulator)', 'tensorflow (fake module; network answers are a pure function '
             'of the sentence row)', 'data files the repository does not ship (bigrams, word vectors, weights): synthetic']
PIPE_ASSUME = ['a trained network answers each row of a batch independently of the other rows',
               'preemption happens at line or bytecode boundaries of the package and at lock and thread calls; calls '
               'into C (re, numpy, dict) are atomic']


def config_plan(rng, max_cores=6):
    cores = rng.randint(1, max_cores) if rng.random() < 0.94 else rng.choice([8, 12, 16, 33])
    return {'nb_cores': cores, 'batch_size': rng.choice([1, 2, 3, 4, 5, 7, 16, 128]),
            'use_gpu': rng.random() < 0.5}


def simpler_configs(cfg):
    for key, small in (('nb_cores', 1), ('nb_cores', 2), ('batch_size', 1), ('batch_size', 2), ('batch_size', 128)):
        if cfg[key] != small and (small == 128 or cfg[key] > small):
            yield dict(cfg, **{key: small})
