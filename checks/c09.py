"""C09: a loaded language model answers every query as the n-grams on disk define it"""
import contextlib
import io
import math
import threading

from sim import lmgen, pipes, runner
from sim.runner import require

INF = float('inf')


def tokenize(texts):
    """The real tokenizer, alone"""
    from scrappybara.preprocessing.tokenizer import Tokenizer
    t = Tokenizer()
    return [t(x) for x in texts]


class Model(object):
    """Reference: what the files say"""

    def __init__(self, files, min_counts):
        self.grams = {}
        self.top = len(min_counts)
        for n, least in enumerate(min_counts, 1):
            for line in files[n].splitlines():
                text, count, proba = line.split('\t')
                if int(count) >= least:
                    self.grams[tuple(text.split(' '))] = (int(count), float(proba))

    def p(self, gram):
        return self.grams[gram][1] if gram in self.grams else 0.0

    def p_text(self, text):
        return self.p(tuple(text.split(' ')))

    def known(self, text):
        return tuple(text.split(' ')) in self.grams

    def follow(self, ctx):
        n = len(ctx)
        return [(g[-1], c[1]) for g, c in self.grams.items() if len(g) == n + 1 and g[:-1] == ctx]

    def next_word(self, toks):
        for i in range(self.top - 1, 0, -1):
            found = self.follow(tuple(toks[-i:])) if toks else []
            if found:
                return found
        return []

    def score(self, tok, before, after):
        out = []
        for n in range(self.top, 1, -1):
            seq = before[max(0, len(before) - n + 1):] + [tok] + after[:n - 1]
            out.append(max([self.p(tuple(seq[i:i + n])) for i in range(len(seq) - n + 1)], default=0.0))
        return tuple(math.log(p) if p > 0 else -INF for p in out + [self.p_text(tok)])


def ranked(pairs, limit, got, what):
    """got must be the best `limit` of pairs by probability; equals in any order"""
    ps = sorted((p for _, p in pairs), reverse=True)
    if limit is not None:
        ps = ps[:limit]
    require([g[-1] for g in got] == ps, 'ranking', lambda: '%s: probabilities %r, expected %r'
            % (what, [g[-1] for g in got][:6], ps[:6]))
    have = dict(pairs)
    require(len({g[0] for g in got}) == len(got), 'ranking', lambda: '%s lists an item twice: %r' % (what, got))
    for g in got:
        require(g[0] in have and have[g[0]] == g[-1], 'ranking', lambda: '%s: %r is not among the candidates' % (what, g))


def judge(model, q, toks, got):
    kind = q[0]
    if kind == 'len':
        require(got == len(model.grams), 'len', lambda: '%d n-grams, expected %d' % (got, len(model.grams)))
    elif kind == 'in':
        require(got == model.known(q[1]), 'contains', lambda: '%r: %r' % (q, got))
    elif kind == 'has':
        want = q[2] >= 1 and model.grams.get(tuple(q[1].split(' ')), (0,))[0] >= q[2]
        require(got == want, 'has_ngram', lambda: '%r: %r, expected %r' % (q, got, want))
    elif kind == 'top':
        pairs = [(' '.join(g), c[1]) for g, c in model.grams.items() if len(g) == q[1]]
        for g in got:
            require(model.known(g[0]) and model.grams[tuple(g[0].split(' '))][0] == g[1], 'top_ngrams',
                    lambda: '%r: wrong count in %r' % (q, g))
        ranked(pairs, q[2], got, 'top_ngrams%r' % (tuple(q[1:]),))
    elif kind == 'next':
        ranked(model.next_word(toks[0]), q[2], got, 'next_word%r' % (tuple(q[1:]),))
    elif kind == 'best_ngram':
        if not any(model.known(g) for g in q[1]):
            require(got is None, 'best_ngram', lambda: '%r: %r although none is known' % (q, got))
        else:
            logs = {g: math.log(model.p_text(g)) if model.p_text(g) > 0 else -INF for g in q[1]}
            require(got in logs and logs[got] == max(logs.values()), 'best_ngram', lambda: '%r: %r, though the '
                    'log-probabilities are %r' % (q, got, logs))
    else:
        if not any(model.known(t) for t in q[1]):
            require(got is None, 'best_token', lambda: '%r: %r although none is known' % (q, got))
        else:
            before = [] if toks[0] == [''] else toks[0]
            after = [] if toks[1] == [''] else toks[1]
            scores = {t: model.score(t, before, after) for t in q[1]}
            best = max(scores.values())
            require(got in scores and scores[got] == best, 'best_token',
                    lambda: '%r: %r, though the scores are %r' % (q, got, scores))


def ask(lm, q):
    kind = q[0]
    if kind == 'len':
        return len(lm)
    if kind == 'in':
        return q[1] in lm
    if kind == 'has':
        return lm.has_ngram(q[1], min_count=q[2])
    if kind in ('top', 'next'):
        got = lm.top_ngrams(q[1], q[2]) if kind == 'top' else lm.next_word(q[1], q[2])
        seen = [tuple(x) for x in got]
        if isinstance(got, list):
            # The answer is the caller's
            got.reverse()
            got.append(('scribble', 9, 9.0)[:2 if kind == 'next' else 3])
        return seen
    if kind == 'best_ngram':
        return lm.best_ngram(*q[1])
    return lm.best_token(*q[1], before=q[2], after=q[3])


def query(rng, words, grams):
    """A query around what the model knows"""
    def word():
        return rng.choice(words) if rng.random() < 0.9 else rng.choice(['zzz', 'The', '', 'x y'])

    def phrase(n):
        return ' '.join(word() for _ in range(n))

    def gram():
        return rng.choice(grams) if grams and rng.random() < 0.7 else phrase(rng.randint(1, 4))

    r = rng.random()
    if r < 0.05:
        return ['len']
    if r < 0.12:
        return ['in', gram()]
    if r < 0.25:
        return ['has', gram(), rng.choice([1, 1, 2, 3, 5, 0, -1, 100])]
    if r < 0.35:
        return ['top', rng.randint(1, 4), rng.choice([None, 0, 1, 2, 5, 50])]
    if r < 0.5:
        return ['next', rng.choice(['', gram(), gram(), phrase(rng.randint(1, 5) if rng.random() < 0.9 else 30) + rng.choice(['', ' ' + gram()]),
                                    gram() + rng.choice(['.', '!', '?', ' ,', '...', ' (', "'s", '"'])]), rng.choice([None, 0, 1, 2, 10])]
    if r < 0.62:
        return ['best_ngram', [gram() for _ in range(rng.randint(1, 5))]]
    ctx = gram().split() + gram().split()
    lim = rng.choice([0, 1, 2, 3, 4, 5])
    if rng.random() < 0.12:
        lim = rng.choice([8, 20, 70])
        for _ in range(lim // 2):
            ctx += gram().split()
    i = rng.randrange(len(ctx) + 1)
    cands = list(dict.fromkeys([word() for _ in range(rng.randint(1, 4))] + ([ctx[i]] if i < len(ctx) else [])))
    before, after = ' '.join(ctx[max(0, i - lim):i]), ' '.join(ctx[i + 1:i + 1 + lim])
    return ['best_token', cands, before if before or rng.random() < 0.3 else None,
            after if after or rng.random() < 0.3 else None]


def tables(rng, words, order):
    """Files of a model with chosen counts and probabilities"""
    files = []
    grams = []
    few = rng.random() < 0.3
    rare = rng.random() < 0.3  # As in models of billions of words
    for n in range(1, order + 1):
        seen = {}
        for _ in range(rng.choice([0, 3, 10, 25]) if rng.random() > 0.01 else 300):
            seen[' '.join(rng.choice(words[:4] if n > 2 else words) for _ in range(n))] = rng.choice([1, 1, 2, 3, 9])
        rows = [(g, c, rng.choice([0.5, 0.25, 0.125]) if few else (10 ** rng.uniform(-16.9, -0.1) if rare else rng.random() * 0.9 + 1e-6))
                for g, c in sorted(seen.items())]
        rows.sort(key=lambda r: -r[2])
        files.append(''.join('%s\t%d\t%.17f\n' % r for r in rows))
        grams += list(seen)
    return files, grams


def write_tables(root, files):
    from sim import fs
    for n, data in enumerate(files, 1):
        with fs._open('%s/langmodel/%d_grams.txt' % (root, n), 'w', encoding='utf-8') as f:
            f.write(data)


def needed(q):
    """Texts of a query that the tokenizer gets to see"""
    return [q[1]] if q[0] == 'next' else q[2:4] if q[0] == 'best_token' else []


class C09(runner.Check):
    ID = 'C09'
    RUNS = {'quick': 2500, 'thorough': 80000}
    RULE = ('model files built by the real builder from a random corpus, or written directly with chosen counts and '
            'probabilities (orders 1-5), loaded with random minimum counts and queried by 1-3 threads at once, '
            'sometimes after another model was loaded from the files that were there before and stays in use; every '
            'answer compared with a reference model read from the same files, ties in any order; non-trivial: a query '
            'was answered from a multi-word n-gram')
    DISTINCT = 'nontrivial'
    REAL = ['scrappybara.langmodel (language_model, token_context, builder, smoothers)', 'scrappybara.preprocessing.tokenizer',
            'scrappybara.utils']
    STUB = ['process pool, thread scheduling, clock (simulator)', 'disk (simulated file layer)']
    ASSUMPTIONS = ['the tokenizer alone defines what the tokens of a context are']
    PROBES = ['built', 'written', 'order.4', 'query.best_token', 'query.next', 'query.top', 'query.has', 'two_callers',
              'min_count', 'prior']

    def plan(self, rng, tier):
        words = lmgen.WORDS
        plan = {'trace': rng.choice(['line', 'line', 'opcode']), 'sched': pipes.sched_plan(rng, 800)}
        if rng.random() < 0.3:
            order = rng.choice([1, 2, 3, 4])
            smoothing = rng.choice(['modified_kneser_ney', 'maximum_likelihood_estimation'])
            plan['corpus'] = lmgen.corpus(rng, rng.choice([5, 15, 30]))
            plan['smoothing'] = smoothing if order > 1 else 'maximum_likelihood_estimation'
            grams = [' '.join(rng.choice(words) for _ in range(rng.randint(1, order))) for _ in range(20)]
            for t in plan['corpus'][:8]:
                toks = [w for w in t.replace('.', ' ').replace('!', ' ').replace('?', ' ').split() if w.isalpha()]
                for n in range(1, order + 1):
                    if len(toks) >= n:
                        i = rng.randrange(len(toks) - n + 1)
                        grams.append(' '.join(toks[i:i + n]).lower())
        else:
            order = rng.choice([1, 2, 2, 3, 3, 4, 5])
            files, grams = tables(rng, words, order)
            plan['files'] = files
        plan['order'] = order
        plan['min'] = [rng.choice([1, 1, 1, 2, 3]) for _ in range(rng.choice([order, order, max(1, order - 1)]))]
        plan['jobs'] = [[query(rng, words, grams) for _ in range(rng.randint(2, 10))]
                        for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.2:
            # Another model was loaded before, from other files in the same place; it is still in use
            top = rng.randint(1, 3)
            files, grams_2 = tables(rng, words, top)
            plan['prior'] = {'files': files, 'min': [rng.choice([1, 1, 2]) for _ in range(top)],
                             'queries': [query(rng, words, rng.choice([grams, grams_2])) for _ in range(rng.randint(0, 6))]}
        return plan

    def execute(self, plan, out):
        from scrappybara.langmodel.language_model import LanguageModel
        from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
        from sim import fs
        root = runner.private_root()
        try:
            if 'files' in plan:
                out.count('written')
            out.count('order.%d' % plan['order'])

            prior = plan.get('prior')
            held = []

            def ask_prior():
                for q in prior['queries']:
                    try:
                        held[1].append((q, 'ok', ask(held[0], q)))
                    except Exception as e:
                        held[1].append((q, 'err', repr(e)))

            def setup(sim):
                if prior:
                    out.count('prior')
                    write_tables(root, prior['files'])
                    held.extend([LanguageModel(*prior['min']), []])
                    ask_prior()
                if 'files' in plan:
                    write_tables(root, plan['files'])
                if 'corpus' in plan:
                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            LanguageModelBuilder(plan['order'], plan['smoothing'], 2)(iter(list(plan['corpus'])))
                    except Exception as e:
                        if type(e).__name__ != 'ModifiedKneserNeyNotEnoughDataError':
                            raise
                        return None
                    out.count('built')
                return LanguageModel(*plan['min'])

            def body(sim, lm):
                got = [None] * len(plan['jobs'])
                if lm is None:
                    return None

                def call(k):
                    got[k] = []
                    for q in plan['jobs'][k]:
                        try:
                            got[k].append(('ok', ask(lm, q)))
                        except Exception as e:
                            got[k].append(('err', repr(e)))

                ts = [threading.Thread(target=call, args=(k,)) for k in range(1, len(got))]
                for t in ts:
                    t.start()
                call(0)
                for t in ts:
                    t.join()
                if prior:
                    ask_prior()
                return got

            sim, got, err = pipes.simulate(body, out, plan['sched'], plan['trace'], setup=setup, root=root)
            pipes.check_quiescent(sim)
            require(err is None, 'raised', lambda: 'building or loading raised %r' % (err,))
            if got is None:
                return
            files = {}
            for n in range(1, len(plan['min']) + 1):
                with fs._open('%s/langmodel/%d_grams.txt' % (root, n), encoding='utf-8') as f:
                    files[n] = f.read()
        finally:
            runner.drop_root(root)
        model = Model(files, plan['min'])
        if max(plan['min']) > 1:
            out.count('min_count')
        if len(plan['jobs']) > 1:
            out.count('two_callers')
        if prior:
            old = Model(dict(enumerate(prior['files'], 1)), prior['min'])
            for q, status, value in held[1]:
                require(status == 'ok', 'raised', lambda: '%r raised %s' % (q, value))
                judge(old, q, runner.pristine(tokenize, needed(q)) if needed(q) else [], value)
        need = [needed(q) for job in plan['jobs'] for q in job]
        flat = runner.pristine(tokenize, [t for n in need for t in n])
        pos = 0
        k = 0
        for j, job in enumerate(plan['jobs']):
            for i, q in enumerate(job):
                toks = flat[pos:pos + len(need[k])]
                pos += len(need[k])
                k += 1
                status, value = got[j][i]
                require(status == 'ok', 'raised', lambda: '%r raised %s' % (q, value))
                out.count('query.' + q[0])
                if value and q[0] in ('next', 'best_token'):
                    out.nontrivial = True
                judge(model, q, toks, value)
        out.note_digest(got)

    def shrink(self, plan):
        for sub in runner.drop_each(plan['jobs'], 1):
            yield dict(plan, jobs=sub)
        for i, j in enumerate(plan['jobs']):
            for sub in runner.drop_each(j, 1):
                yield dict(plan, jobs=plan['jobs'][:i] + [sub] + plan['jobs'][i + 1:])
        if 'prior' in plan:
            yield {k: v for k, v in plan.items() if k != 'prior'}
            for sub in runner.drop_each(plan['prior']['queries'], 0):
                yield dict(plan, prior=dict(plan['prior'], queries=sub))
        if 'files' in plan:
            for i, f in enumerate(plan['files']):
                for sub in runner.drop_each(f.splitlines(True), 0):
                    yield dict(plan, files=plan['files'][:i] + [''.join(sub)] + plan['files'][i + 1:])
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C09()
