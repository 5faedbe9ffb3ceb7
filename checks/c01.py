"""C01: one document per text, in order, each with its own sentences"""
import itertools

from sim import pipes, runner, texts
from sim.runner import require

SPLITTERS = [':', '"', ';', '(', ')', '[', ']', '{', '}', '-']
ALMOST = ['--', '((', '":', ';;', ']-', '{}', '(!', '::', '""', ',-', '?)']
LIMIT = 50
NO_WRAP = itertools.repeat('')


def segments(tokens):
    """The documented rule for sentences the parser cannot take"""
    if len(tokens) <= LIMIT:
        return [tokens]
    out, cur = [], []
    for t in tokens + [':']:
        if t in SPLITTERS:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    return [s for s in out if len(s) <= LIMIT]


def svo(rng, size=None):
    """A clause the stand-in network parses as one subject-verb-object triple, padded with commas"""
    toks = [texts.marker(rng), 'sees', texts.marker(rng)]
    if size is not None:
        pad = [','] * (size - len(toks))
        if rng.random() < 0.2:
            # Tokens that contain splitters, without being one
            for _ in range(rng.choice([1, 2, 5])):
                if pad:
                    pad[rng.randrange(len(pad))] = rng.choice(ALMOST)
        toks += pad
    return toks


def wrapped(clause, quotes):
    """The clause with its object in quotes or brackets"""
    return clause[:2] + [quotes[0] + clause[2] + quotes[1]] if quotes else clause


def make_sentence(rng):
    r = rng.random()
    if r < 0.45:
        return svo(rng) + ['.']
    if r < 0.5:
        return []
    if r < 0.55:
        return [','] * rng.randint(1, 4)
    if r < 0.63:
        return svo(rng, rng.choice([48, 49, 50, 51, 52]))
    if r < 0.7:
        toks = svo(rng, rng.randint(44, 47))
        return toks[:3] + [rng.choice(SPLITTERS)] + toks[3:] + [rng.choice(SPLITTERS)] * rng.randint(0, 4)
    out = []
    for _ in range(rng.randint(2, 5)):
        out += svo(rng, rng.choice([3, 4, 10, 20, 30, 49, 50, 51, 60]))
        out += [rng.choice(SPLITTERS) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < 0.2:
            out += [','] * rng.choice([1, 3, 55])
            out += [rng.choice(SPLITTERS)]
    if rng.random() < 0.5:
        out.pop()
    return out


class C01(runner.Check):
    ID = 'C01'
    RUNS = {'quick': 2000, 'thorough': 60000}
    RULE = ('0-9 texts (now and then 65 to 1025) of 0-5 sentences with globally unique words, sentence lengths around and beyond the 50-token '
            'limit, splitters in and around them, random worker count, batch size and device, per-text sentencizer '
            'delays and a seeded schedule; non-trivial: at least two texts and two workers')
    REAL = pipes.PIPE_REAL
    STUB = pipes.PIPE_STUB + ['the sentencizer in two runs out of three (harness, hands over known tokens)']
    ASSUMPTIONS = pipes.PIPE_ASSUME
    PROBES = ['resplit', 'dropped', 'empty_sentence', 'delays', 'real_sentencizer', 'quotes']

    def setup(self):
        pipes.build_base()

    def plan(self, rng, tier):
        real = rng.random() < 0.33
        calls = []
        crowd = rng.random() < 0.02  # Now and then many more texts than one batch holds
        if rng.random() < 0.006:
            # One text like a book, among others
            docs = [{'sents': [svo(rng) + ['.'] for _ in range(k)], 'delay': 0} for k in rng.sample([2, 0, rng.choice([70, 130, 260])], 3)]
            if rng.random() < 0.5:
                huge = []
                for _ in range(rng.choice([40, 150])):
                    huge += svo(rng, rng.choice([3, 20, 50, 51])) + [rng.choice(SPLITTERS)]
                docs[0]['sents'].append(huge)
            return {'real': False, 'calls': [docs], 'cfg': pipes.config_plan(rng), 'chunk': True, 'sched': {'mode': 'seq'},
                    'trace': None}
        mass = 0 if rng.random() >= 0.01 else rng.choice([257, 300, 513, 700, 1025])  # Or a small corpus
        if mass:
            calls = [[{'sents': [svo(rng) + ['.'] for _ in range(rng.choice([0, 1, 1]))], 'delay': 0} for _ in range(mass)]]
            return {'real': False, 'calls': calls, 'cfg': dict(pipes.config_plan(rng), batch_size=rng.choice([32, 128, 500])),
                    'chunk': True, 'sched': {'mode': 'seq'}, 'trace': None}
        for _ in range(rng.choice([1, 1, 2]) if not crowd else 1):
            docs = []
            for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 7]) if not crowd else rng.choice([65, 129, 150])):
                if real:
                    quoting = rng.random() < 0.25
                    many = quoting and not crowd and rng.random() < 0.3
                    sents = [svo(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]) if not many else rng.randint(9, 18))]
                    seps = [' ' if many else rng.choice([' ', ' ', '\n', '  ', '\n\n', '\t']) for _ in sents]
                    docs.append({'sents': sents, 'seps': seps, 'tail': rng.choice(['', '', ' ', '\n'])})
                    if quoting:
                        docs[-1]['wrap'] = [rng.choice(['""', '""', '()', '']) if not many else '""' for _ in sents]
                else:
                    docs.append({'sents': [make_sentence(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))],
                                 'delay': rng.choice([0, 0, 0, 1, 9])})
            calls.append(docs)
        cfg = pipes.config_plan(rng)
        if crowd:
            cfg = dict(cfg, batch_size=rng.choice([16, 64, 128]))
        return {'real': real, 'calls': calls, 'cfg': cfg, 'chunk': rng.random() < 0.7,
                'sched': pipes.sched_plan(rng), 'trace': 'line' if rng.random() < 0.9 else 'opcode'}

    def execute(self, plan, out):
        cfg = plan['cfg']

        table = {}

        def setup(sim):
            sentencizer = None
            if not plan['real']:
                def sentencizer(text):
                    doc = table[text]
                    sim.point()
                    if doc['delay']:
                        out.count('delays')
                        sim.sleep(doc['delay'])
                    return [list(s) for s in doc['sents']]
            else:
                out.count('real_sentencizer')
            return pipes.make_pipeline(sim, sentencizer, **cfg)

        def body(sim, pipe):
            got = []
            for c, docs in enumerate(plan['calls']):
                if plan['real']:
                    batch = [''.join(' '.join(wrapped(s, w)) + '.' + sep for s, sep, w in zip(d['sents'], d['seps'], d.get('wrap', NO_WRAP)))
                             + d['tail'] for d in docs]
                    if any('wrap' in d for d in docs):
                        out.count('quotes')
                else:
                    batch = ['text %d of call %d' % (i, c) for i in range(len(docs))]
                    table.update(zip(batch, docs))
                before = list(batch)
                res = pipe(batch, chunk_common_nouns=plan['chunk'])
                live = sim.working()
                got.append((pipes.docs_repr(res), batch == before, live))
            return got

        sim, res, err = pipes.simulate(body, out, plan['sched'], plan['trace'], setup=setup, max_steps=20000000)
        pipes.check_quiescent(sim)
        require(err is None, 'raised', lambda: 'the call raised %r' % (err,))
        for docs, (got, untouched, live) in zip(plan['calls'], res):
            require(untouched, 'input-changed', 'the list of texts was changed by the call')
            require(len(got) == len(docs), 'document-count',
                    lambda: '%d documents for %d texts' % (len(got), len(docs)))
            require(not live, 'worker-left', lambda: 'tasks %r still run after the call' % live)
            for d, (doc, sents) in enumerate(zip(docs, got)):
                self._check_doc(plan, d, doc, sents, out)
        out.note_digest(res)
        out.nontrivial = cfg['nb_cores'] > 1 and any(len(d) > 1 for d in plan['calls'])

    def _check_doc(self, plan, d, doc, sents, out):
        want = []
        for s in doc['sents']:
            segs = [s] if plan['real'] else segments(s)
            if len(s) > LIMIT:
                out.count('resplit')
            if not s:
                out.count('empty_sentence')
            for seg in segs:
                want.append(({t.lower() for t in seg if t[-1:] == 'x'}, seg.count('sees')))
            if sum(len(x) for x in segs) < sum(1 for t in s if t not in SPLITTERS):
                out.count('dropped')
        got = []
        for stuples in sents:
            words = set()
            for _, _, args in stuples:
                words |= {w for w, _, _ in args if w[-1:] == 'x'}
            got.append(words)
        if plan['real']:
            got = [w for w in got if w]  # A blank line may or may not count as a sentence
        # Several clauses in one parse: which words the tuples mention is the grammar's business
        ok = len(got) == len(want) and all(g == w if k <= 1 else g and g <= w for g, (w, k) in zip(got, want))
        require(ok, 'wrong-sentences', lambda: 'text %d: expected sentences about %r, got %r' % (
            d, [sorted(w) for w, _ in want], [sorted(w) for w in got]))

    def shrink(self, plan):
        for calls in runner.drop_each(plan['calls'], 1):
            yield dict(plan, calls=calls)
        for c, docs in enumerate(plan['calls']):
            for sub in runner.drop_each(docs):
                yield dict(plan, calls=plan['calls'][:c] + [sub] + plan['calls'][c + 1:])
            for d, doc in enumerate(docs):
                for sents in runner.drop_each(doc['sents']):
                    new = dict(doc, sents=sents)
                    yield dict(plan, calls=plan['calls'][:c] + [docs[:d] + [new] + docs[d + 1:]] + plan['calls'][c + 1:])
        for cfg in pipes.simpler_configs(plan['cfg']):
            yield dict(plan, cfg=cfg)
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C01()
