"""A fresh interpreter with a hash seed and a memory layout of its own; answers one JSON job on stdin"""
import contextlib
import hashlib
import io
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def shake(seed, keep):
    """Shuffles the allocator's free lists, so that objects land at other addresses in another order"""
    rng = random.Random(seed)
    junk = []
    for _ in range(40):
        junk.append([object() for _ in range(rng.randrange(400))])
        junk.append([{} for _ in range(rng.randrange(100))])
        junk.append([b'x' * rng.randrange(500) for _ in range(rng.randrange(300))])
        junk.append([type('T', (), {'__init__': lambda self: None})() for _ in range(rng.randrange(3))])
    flat = [x for part in junk for x in part]
    junk.clear()
    rng.shuffle(flat)
    del flat[:len(flat) // 2]
    keep.append(flat)


def answer(job):
    from sim import boot, core, oracle, pipes, runner
    boot.boot()
    core.ENTROPY = '-%d' % job['layout']
    runner.ROOT = job['root']
    boot.rebase_data(job['root'])
    oracle.load_char_codes(job['root'])
    keep = []
    out = {}
    side = runner.Outcome()

    def run(name, fn, **kw):
        shake('%s/%s' % (job['layout'], name), keep)
        sim, res, err = pipes.simulate(fn, side, kw.pop('sched', None), trace=kw.pop('trace', None), **kw)
        runner.require(not sim.deadlocked, 'deadlock', name)
        out[name] = ['raised', repr(err)] if err is not None else ['ok', res]

    if job['texts']:
        def texts(sim):
            pipe = pipes.make_pipeline(sim, **job['cfg'])
            sim.trace_on()
            return [pipes.docs_repr(pipe(list(batch), chunk_common_nouns=job['chunk'])) for batch in job['texts']]

        run('documents', texts, sched=job['sched'], trace='line')
    if job['tokens']:
        def tokens(sim):
            from scrappybara.preprocessing.sentencizer import Sentencizer
            from scrappybara.preprocessing.tokenizer import Tokenizer
            s, t = Sentencizer(), Tokenizer()
            return [(s(x), t(x)) for x in job['tokens']]

        run('tokens', tokens)
    for k, c in enumerate(job['corpora']):
        def build(sim):
            from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
            with contextlib.redirect_stdout(io.StringIO()):
                LanguageModelBuilder(c['order'], c['smoothing'], c['procs'])(iter(list(c['texts'])))

        root = runner.private_root()
        try:
            run('build %d' % k, build, root=root)
            from sim import world
            out['files %d' % k] = ['ok', {n: d.decode('utf-8', 'backslashreplace') for n, d in
                                          world.snapshot(root).items()}]
            if out['build %d' % k][0] == 'ok':
                def ask(sim):
                    from scrappybara.langmodel.language_model import LanguageModel
                    lm = LanguageModel(*([1] * c['order']))
                    words = ['the', 'cat', 'dog', 'sat', 'on']
                    tops = [lm.top_ngrams(n) for n in range(1, c['order'] + 1)]
                    grams = [sorted(g[0] for g in top) for top in tops]
                    ties = {}  # N-grams of equal probability
                    for top in tops:
                        for text, _, proba in top:
                            ties.setdefault(proba, []).append(text)
                    ties = [sorted(g) for _, g in sorted(ties.items()) if len(g) > 1]
                    singles = grams[0]
                    return [len(lm), tops, [lm.top_ngrams(n, 3) for n in range(1, c['order'] + 1)],
                            [lm.next_word(w, limit) for w in singles + ['the cat', 'sat on'] for limit in (None, 1, 2)],
                            [lm.best_ngram(*g) for g in grams + ties + [words, words[::-1]] if g],
                            [lm.best_token(*g, before=before, after=after)
                             for g in [words, singles] + [g for g in ties if ' ' not in g[0]]
                             for before, after in (('the', 'on the mat'), (None, None), ('zzz', 'zzz'))]]

                run('queries %d' % k, ask, root=root)
        finally:
            runner.drop_root(root)
            boot.rebase_data(job['root'])
    if job['gold']:
        def training(sim):
            import numpy as np
            from scrappybara.syntax import labelled_data
            from scrappybara.syntax.charset import Charset
            from scrappybara.syntax.wordset import Wordset
            cs, ws = Charset().load(), Wordset().load()
            res = []
            for kind in ('ptags', 'pdeps', 'trans'):
                random.seed(job['shuffle'])
                np.random.seed(job['shuffle'] % (1 << 32))
                data = getattr(labelled_data, 'extract_%s_training_data' % kind)(
                    [[tuple(r) for r in s] for s in job['gold']], cs, ws)
                res.append([hashlib.blake2b(b''.join(np.ascontiguousarray(np.asarray(x)).tobytes() for x in col),
                                            digest_size=8).hexdigest() for col in data])
            return res

        run('training', training)
    def save(sim):
        import pickle
        from scrappybara.langmodel.language_model import LanguageModel
        from scrappybara.syntax.charset import Charset
        from scrappybara.syntax.wordset import Wordset
        from sim import world
        Charset().save()
        Wordset().save(root + '/glove', LanguageModel(1))
        files = world.snapshot(root)
        return [sorted(pickle.loads(files['models/char_codes.pkl']).items()),
                sorted((w, v.tolist()) for w, v in pickle.loads(files['models/word_vectors.pkl']).items())]

    if job['gold']:
        root = runner.private_root()
        try:
            import scrappybara.config as cfg
            from sim import fs
            os.mkdir(root + '/glove')
            with fs._open(root + '/glove/glove.6B.%dd.txt' % cfg.WORD_VECTOR_SIZE, 'w', encoding='utf-8') as f:
                for k, w in enumerate(['the', 'of', 'cat', 'dog', 'a', 'on', 'sat']):
                    f.write('%s %s\n' % (w, ' '.join('%.3f' % ((i * 7 + k) % 11 / 5) for i in range(cfg.WORD_VECTOR_SIZE))))
            with fs._open(root + '/langmodel/1_grams.txt', 'w', encoding='utf-8') as f:
                f.write('the\t3\t0.5\ncat\t2\t0.25\ndog\t1\t0.125\non\t1\t0.125\n')
            run('saved', save, root=root)
        finally:
            runner.drop_root(root)
            boot.rebase_data(job['root'])
    return [out, {'steps': side.steps, 'sim_time': side.sim_time, 'trails': side.trails, 'stats': side.stats}]


def main():
    job = json.load(sys.stdin)
    try:
        res = ['ok'] + answer(job)
    except Exception:
        import traceback
        res = ['failed', traceback.format_exc()[-3000:]]
    sys.__stdout__.write(json.dumps(res, sort_keys=True))


if __name__ == '__main__':
    main()
