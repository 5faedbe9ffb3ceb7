"""C03: components may be shared by the caller's own threads"""
import json
import os
import threading

from sim import pipes, runner, texts, vocab, world
from sim.runner import require

with open(os.path.join(os.path.dirname(runner.__file__), 'gold.json'), encoding='utf-8') as _f:
    GOLD = json.load(_f)


def _leaders():
    """Words that the bigram file gives several followers"""
    seen = {}
    for line in world.bigram_lines():
        a = line.split('\t')[0].split(' ')[0]
        seen[a] = seen.get(a, 0) + 1
    return sorted(w for w in seen if seen[w] > 2)


LEADERS = _leaders()
LEMMAS = ['stop', 'plan', 'travel', 'cancel', 'label', 'model', 'counsel', 'visit', 'open', 'offer', 'play', 'need', 'cook',
          'honour', 'color', 'study', 'make', 'tie', 'prune', 'undo']
FORMS = ['hoped', 'loved', 'baked', 'boxes', 'prices', 'tomatoes', 'analyses', 'hated', 'used', 'gases', 'houses', 'studies',
         'parties', 'hoping', 'loves', 'hates']


def norm_query(rng, k=None):
    """What the steps of the normalization are asked"""
    k = rng.randrange(4) if k is None else k
    if k < 2:
        return ['past_participle', rng.choice(LEMMAS)]
    if k == 2:
        return ['standard', rng.choice(vocab.NOUNS + vocab.VERBS)]
    if rng.random() < 0.6:
        tag = rng.choice(['VERB', 'NOUN'])
        return ['lemma', rng.choice(FORMS), tag]
    tag, words = rng.choice([('VERB', vocab.VERBS), ('NOUN', vocab.NOUNS), ('ADJ', vocab.ADJS)])
    return ['lemma', rng.choice(words), tag]


def token_query(rng):
    """The best of several tokens: the dearest question for a language model"""
    w = [rng.choice(vocab.ALL_WORDS).lower() for _ in range(5)]
    return ['best_token', w[:rng.randint(2, 3)], rng.choice([None, w[3]]), rng.choice([None, w[4]])]


def lm_query(rng):
    k = rng.randrange(7)
    if k == 6:
        return ['next_word', rng.choice(LEADERS), rng.choice([None, None, 0, 2, 5])]
    w = [rng.choice(vocab.ALL_WORDS).lower() for _ in range(4)]
    if k == 0:
        return ['has_ngram', w[0], rng.choice([0, 1, 5, 100])]
    if k == 1:
        return ['best_ngram'] + w[:rng.randint(1, 3)]
    if k == 2:
        return ['best_token', w[:rng.randint(1, 3)], rng.choice([None, w[2], w[2] + ' ' + w[3]]),
                rng.choice([None, w[3]])]
    if k == 3:
        return ['next_word', rng.choice([w[0], ' '.join(w[:2]), 'my "' + w[1] + '" http://a.b/c ' + w[0]]),
                rng.choice([None, 1, 2])]
    if k == 4:
        return ['top_ngrams', rng.choice([1, 2]), rng.choice([1, 3])]
    return ['contains', ' '.join(w[:rng.randint(1, 2)])]


def answer(kind, obj, job):
    if kind == 'pipeline':
        return pipes.docs_repr(obj(list(job['texts']), chunk_common_nouns=job['chunk']))
    if kind == 'logic':
        return [[(st.flatten(), st.code) for st in obj.test_sample([tuple(t) for t in GOLD[g]])] for g in job['gold']]
    if kind in ('tokenizer', 'sentencizer'):
        return [obj(t) for t in job['texts']]
    res = []
    if kind == 'norm':
        from scrappybara.syntax.tags import Tag
        inflect, lemmatize, standardize = obj
        for op, *args in job['queries']:
            if op == 'past_participle':
                res.append(inflect.past_participle(*args))
            elif op == 'lemma':
                lemma, suffix = lemmatize(args[0], Tag[args[1]])
                res.append((lemma, None if suffix is None else suffix.name))
            else:
                res.append(standardize(*args))
        return res
    for q in job['queries']:
        op, args = q[0], q[1:]
        if op == 'best_token':
            res.append(obj.best_token(*args[0], before=args[1], after=args[2]))
        elif op == 'contains':
            res.append(args[0] in obj)
        elif op == 'next_word':
            res.append(obj.next_word(args[0], limit=args[1]))
        else:
            res.append(getattr(obj, op)(*args))
    return res


def build(kind, sim, cfg):
    from scrappybara.langmodel.language_model import LanguageModel
    from scrappybara.pipeline.logic_pipeline import LogicPipeline
    from scrappybara.preprocessing.sentencizer import Sentencizer
    from scrappybara.preprocessing.tokenizer import Tokenizer
    if kind == 'pipeline':
        return pipes.make_pipeline(sim, **cfg)
    if kind == 'logic':
        return LogicPipeline(LanguageModel(1, 1))
    if kind == 'norm':
        from scrappybara.normalization.inflector import Inflector
        from scrappybara.normalization.lemmatizer import Lemmatizer
        from scrappybara.normalization.standardizer import Standardizer
        from scrappybara.utils.files import load_dict_from_txt_file, load_set_from_txt_file
        from scrappybara.utils.mutables import reverse_dict
        lm = LanguageModel(1, 1)
        adjs = load_set_from_txt_file('english', 'adjectives.txt')
        pret, pp, plur, comp, sup = (load_dict_from_txt_file('english', 'irregular_%s.txt' % name) for name in (
            'preterits', 'past_participles', 'plurals', 'comparatives', 'superlatives'))
        lemma_pp = reverse_dict(pp)
        return (Inflector(lm, lemma_pp), Lemmatizer(lm, adjs, pret, pp, plur, comp, sup, lemma_pp), Standardizer(lm))
    if kind == 'tokenizer':
        return Tokenizer()
    if kind == 'sentencizer':
        return Sentencizer()
    return LanguageModel(1, 1)


def alone(kind, cfg, job, predictor):
    """Runs in a process of its own: the answer to one caller when there is no other"""
    out = runner.Outcome()

    def body(sim):
        return answer(kind, build(kind, sim, cfg), job)

    sim, res, err = pipes.simulate(body, out, trace=None, predictor=predictor)
    return (res, None if err is None else repr(err))


class C03(runner.Check):
    ID = 'C03'
    RUNS = {'quick': 3000, 'thorough': 40000}
    RULE = ('2-4 caller threads share one pipeline, logic pipeline, tokenizer, sentencizer, set of normalization steps or '
            'language model and call it at once with different generated inputs under a seeded line- or opcode-level schedule; each answer is '
            'compared with the one a fresh process gives that caller alone; non-trivial: the callers interleaved')
    REAL = pipes.PIPE_REAL
    STUB = pipes.PIPE_STUB
    ASSUMPTIONS = pipes.PIPE_ASSUME
    PROBES = ['kind.pipeline', 'kind.logic', 'kind.tokenizer', 'kind.sentencizer', 'kind.lm', 'kind.norm']

    def plan(self, rng, tier):
        kind = rng.choice(['pipeline', 'pipeline', 'pipeline', 'logic', 'tokenizer', 'sentencizer', 'sentencizer', 'lm', 'lm', 'lm', 'lm', 'norm', 'norm'])
        # The callers may well ask the same things, or about the same word
        shared = [lm_query(rng) for _ in range(3)]
        same = rng.random() < 0.5
        if same:
            shared = [['next_word', w, k] for w in rng.sample(LEADERS, rng.choice([1, 1, 2])) for k in (None, 3)]
        elif rng.random() < 0.5:
            shared = [token_query(rng) for _ in range(3)]
            same = True
        focus = rng.choice([None, 0, 2, 3, 3])
        jobs = []
        pool = texts.batch(rng, rng.choice([2, 6, 6]), 2)
        for _ in range(rng.choice([2, 2, 3, 4])):
            if kind == 'pipeline':
                jobs.append({'texts': rng.sample(pool, min(rng.choice([1, 1, 2]), len(pool))), 'chunk': rng.random() < 0.6})
            elif kind == 'logic':
                jobs.append({'gold': [rng.randrange(len(GOLD)) for _ in range(rng.choice([1, 2]))]})
            elif kind == 'lm':
                jobs.append({'queries': [rng.choice(shared) if rng.random() < (0.95 if same else 0.5) else lm_query(rng)
                                         for _ in range(rng.randint(2, 8))]})
            elif kind == 'norm':
                jobs.append({'queries': [norm_query(rng, focus) for _ in range(rng.randint(2, 8))]})
            else:
                jobs.append({'texts': rng.sample(pool, min(rng.randint(1, 3), len(pool)))})
        small = kind in ('tokenizer', 'sentencizer', 'lm', 'norm')
        sched = pipes.sched_plan(rng, 1500 if small else 15000)
        if small and rng.random() < 0.3:
            sched = {'mode': 'focus', 'seed': rng.getrandbits(48), 'p': 0.001, 'share': rng.choice([0.1, 0.2, 0.4]),
                     'inside': rng.choice([0.2, 0.5, 0.8])}
        return {'kind': kind, 'jobs': jobs, 'cfg': pipes.config_plan(rng, 3),
                'predictor': 'lex' if rng.random() < 0.9 else 'wild',
                'sched': sched,
                'trace': rng.choice(['line', 'opcode']) if small else ('line' if rng.random() < 0.9 else 'opcode')}

    def execute(self, plan, out):
        kind = plan['kind']
        out.count('kind.' + kind)
        want = []
        for job in plan['jobs']:
            ref, err = runner.pristine(alone, kind, plan['cfg'], job, plan['predictor'])
            require(err is None, 'solo-failure', lambda: '%r alone raised %s' % (job, err))
            want.append(ref)

        def setup(sim):
            return build(kind, sim, plan['cfg'])

        def body(sim, obj):
            got = [None] * len(plan['jobs'])

            def call(k):
                try:
                    got[k] = ('ok', answer(kind, obj, plan['jobs'][k]))
                except Exception as e:
                    got[k] = ('raised', repr(e))

            ts = [threading.Thread(target=call, args=(k,)) for k in range(len(got))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            return got

        sim, got, err = pipes.simulate(body, out, plan['sched'], plan['trace'], predictor=plan['predictor'],
                                       setup=setup)
        pipes.check_quiescent(sim)
        require(err is None, 'raised', lambda: 'the run raised %r' % (err,))
        for k, job in enumerate(plan['jobs']):
            require(got[k] is not None and got[k][0] == 'ok', 'raised',
                    lambda: 'caller %d (%r) got %r instead of %r' % (k, job, got[k], want[k]))
            require(got[k][1] == want[k], 'answer-differs',
                    lambda: 'caller %d (%r): %s' % (k, job, pipes.diff(want[k], got[k][1])))
        out.note_digest(got)
        out.nontrivial = sim.nb_switches > 2 * len(plan['jobs'])

    def shrink(self, plan):
        for jobs in runner.drop_each(plan['jobs'], 2):
            yield dict(plan, jobs=jobs)
        for k, job in enumerate(plan['jobs']):
            for key in ('texts', 'gold', 'queries'):
                if key in job:
                    for sub in runner.drop_each(job[key], 1):
                        yield dict(plan, jobs=plan['jobs'][:k] + [dict(job, **{key: sub})] + plan['jobs'][k + 1:])
        for small in pipes.simpler_configs(plan['cfg']):
            yield dict(plan, cfg=small)


CHECK = C03()
