"""C07: a network that knows the training data by heart makes the parser rebuild the annotated trees"""
import random

import numpy as np

from sim import core, goldgen, oracle, pipes, runner
from sim.runner import require


class Table(oracle.Predictor):
    """Answers only what the extracted training data contains"""

    def __init__(self, *args):
        super().__init__(*args)
        self.t, self.d, self.x = {}, {}, {}
        self.bad = None

    @staticmethod
    def key(*arrays):
        return tuple(np.ascontiguousarray(a).astype(t).tobytes() for a, t in arrays)

    def _put(self, table, key, label):
        old = table.setdefault(key, label)
        if old != label:
            self.bad = self.bad or 'the training data labels one input both %r and %r' % (old, label)

    def learn(self, tags, deps, trans):
        for chars, vecs, y in zip(*tags):
            self._put(self.t, self.key((chars, '<i4'), (vecs, '<f4')), tuple(int(v) for v in y))
        for ids, chars, vecs, y in zip(*deps):
            self._put(self.d, self.key((ids, '<i4'), (chars, '<i4'), (vecs, '<f4')), tuple(int(v) for v in y))
        for t, d, chars, vecs, m1, m2, y in zip(*trans):
            self._put(self.x, self.key((t, '<i4'), (d, '<i4'), (chars, '<i4'), (vecs, '<f4'), (m1, '?'), (m2, '?')),
                      int(y))

    def _unseen(self, what, chars):
        self.bad = self.bad or 'the %s network is asked about an input the training data does not contain: %r' % (
            what, ' '.join(self.tokens(chars)))

    def predict(self, arity, arrays):
        self.stats['predict_calls'] = self.stats.get('predict_calls', 0) + 1
        self.stats['predict_rows'] = self.stats.get('predict_rows', 0) + len(arrays[0])
        sim = core.here()
        if sim is not None:
            sim.point()
        n = len(arrays[0])
        if arity == 6:
            out = np.zeros((n, self.nb_trans), dtype=np.float32)
            for i in range(n):
                y = self.x.get(self.key(*[(a[i], t) for a, t in zip(arrays, ('<i4', '<i4', '<i4', '<f4', '?', '?'))]))
                if y is None:
                    self._unseen('transition', arrays[2][i])
                    y = 3
                out[i, y] = 1.0
            return oracle.close_call(out)
        what, table, size, types, c = ('tag', self.t, self.nb_tags, ('<i4', '<f4'), 0) if arity == 2 else \
            ('dependency', self.d, self.nb_deps, ('<i4', '<i4', '<f4'), 1)
        out = np.zeros((n, 52, size), dtype=np.float32)
        for i in range(n):
            y = table.get(self.key(*[(a[i], t) for a, t in zip(arrays, types)]))
            if y is None:
                self._unseen(what, arrays[c][i])
                y = (1,) * 52
            for j, v in enumerate(y):
                out[i, j, v] = 1.0
        return oracle.close_call(out)


class C07(runner.Check):
    ID = 'C07'
    RUNS = {'quick': 2500, 'thorough': 80000}
    RULE = ('random projective annotated sentences of 2-50 words (plus the ones in the test suite); a stand-in network '
            'memorises the extracted training rows (seeded shuffle) and the parser runs on the same sentences with random '
            'batches, workers and schedule; non-trivial: at least one sentence needs a REDUCE')
    DISTINCT = 'nontrivial'
    REAL = ['scrappybara.syntax (labelled_data, training_samples, parser, models.predict, charset, wordset)',
            'scrappybara.utils']
    STUB = pipes.PIPE_STUB
    ASSUMPTIONS = ['annotated trees are projective and have one root, as the annotation format prescribes']
    PROBES = ['long', 'reduce', 'outside_words']

    def plan(self, rng, tier):
        sents = []
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            if rng.random() < 0.2:
                sents.append(goldgen.with_marker(rng, rng.choice(GOLD)))
            else:
                sents.append(goldgen.sentence(rng, rng.choice([2, 3, 4, 5, 7, 10, 16, 30, 49, 50])))
        if rng.random() < 0.006:
            # More sentences than the widest batch holds
            sents = [goldgen.sentence(rng, rng.choice([2, 2, 3])) for _ in range(rng.choice([130, 150]))]
            return {'sents': sents, 'shuffle': rng.getrandbits(40), 'procs': rng.randint(1, 4), 'batch': rng.choice([50, 128]),
                    'sched': {'mode': 'seq'}, 'order': rng.getrandbits(30)}
        return {'sents': sents, 'shuffle': rng.getrandbits(40), 'procs': rng.randint(1, 4),
                'batch': rng.choice([1, 2, 3, 5, 128]), 'sched': pipes.sched_plan(rng, 1000),
                'order': rng.getrandbits(30)}

    def execute(self, plan, out):
        from scrappybara.syntax import labelled_data
        from scrappybara.syntax.charset import Charset
        from scrappybara.syntax.dependencies import Dep
        from scrappybara.syntax.parser import Parser
        from scrappybara.syntax.tags import Tag
        from scrappybara.syntax.transitions import Trans
        from scrappybara.syntax.wordset import Wordset
        rows = [[tuple(r) for r in s] for s in plan['sents']]
        table = Table(oracle.CHAR_CODES, {t.name: t.value for t in Tag}, {d.name: d.value for d in Dep},
                      {t.name: t.value for t in Trans}, (), out.stats)
        order = list(range(len(rows)))
        random.Random(plan['order']).shuffle(order)

        def setup(sim):
            charset, wordset = Charset().load(), Wordset().load()
            random.seed(plan['shuffle'])
            np.random.seed(plan['shuffle'] % (1 << 32))
            data = [f([list(r) for r in rows], charset, wordset) for f in (
                labelled_data.extract_ptags_training_data, labelled_data.extract_pdeps_training_data,
                labelled_data.extract_trans_training_data)]
            table.learn(*data)
            return Parser(plan['procs'], plan['batch'])

        def body(sim, parser):
            return parser([[r[0] for r in rows[i]] for i in order])

        sim, res, err = pipes.simulate(body, out, plan['sched'], 'line', setup=setup, predictor=table)
        pipes.check_quiescent(sim)
        require(err is None, 'raised', lambda: 'extraction or parsing raised %r' % (err,))
        require(table.bad is None, 'unseen-input', table.bad)
        tags, trees = res
        for k, i in enumerate(order):
            gold = rows[i]
            if len(gold) > 40:
                out.count('long')
            if any(r[2] == 'NODEP' for r in gold):
                out.count('outside_words')
            from sim import refs
            if any(t == 'REDUCE' for _, _, t in refs.static_oracle(gold)):
                out.count('reduce')
                out.nontrivial = True
            require([t.name for t in tags[k]] == [r[1] for r in gold], 'tags', lambda: 'sentence %r: tags %r'
                    % (gold, tags[k]))
            require(trees[k] is not None, 'tree', lambda: 'no tree for %r' % (gold,))
            for c, r in enumerate(gold):
                want = None if r[2] in ('ROOT', 'NODEP') else (r[2], r[3])
                got = trees[k].parent(c)
                got = None if got is None else (got[0].name, got[1])
                require(got == want, 'head', lambda: 'token %d of %r: annotated head %r, parsed %r' % (c, gold, want, got))
            root = [c for c, r in enumerate(gold) if r[2] == 'ROOT'][0]
            require(trees[k].root == root, 'root', lambda: 'root of %r: %r' % (gold, trees[k].root))
        out.note_digest([[t.name for t in ts] for ts in tags])

    def shrink(self, plan):
        for sub in runner.drop_each(plan['sents'], 1):
            yield dict(plan, sents=sub)
        for i, s in enumerate(plan['sents']):
            for k in range(len(s)):
                # A leaf, or a word outside the tree
                if s[k][2] != 'ROOT' and not any(r[3] == k for r in s) and sum(r[2] != 'NODEP' for r in s) > 2:
                    new = [[r[0], r[1], r[2], r[3] - (r[3] > k)] for j, r in enumerate(s) if j != k]
                    yield dict(plan, sents=plan['sents'][:i] + [new] + plan['sents'][i + 1:])
        if plan['procs'] > 1:
            yield dict(plan, procs=1)
        if plan['batch'] != 128:
            yield dict(plan, batch=128)
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


GOLD = [g for g in goldgen.GOLD if sum(r[2] != 'NODEP' for r in g) > 1]
CHECK = C07()
