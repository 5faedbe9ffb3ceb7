"""C06: whatever the networks answer, tags and trees are those of the arc-eager system run on these answers"""
import collections
import hashlib

import numpy as np

from sim import core, faketf, oracle, pipes, refs, runner, texts, vocab
from sim.runner import require

WORDS = sorted(vocab.ALL_WORDS)
ODD = ['', '!', '!!', 'x' * 19, 'x' * 20, 'x' * 21, 'y' * 40, 'naïve', '漢字', '†', '‡', 'ʃʃʃ', 'ʄʄʄ', '\U0001f600', ' ',
       "'s", '%', 'A', 'I', '0', '\\', '\n', 'é' * 30, 'straße', 'STRASSE', 'Naïve', 'NAÏVE', 'naive', 'café', 'Cafe\u0301', 'cafe', 'ﬁne', 'Fine',
       'abcdefghijklmnopqrst', 'abcdefghijklmnopqrstu', 'Antidisestablishmentarianism', 'https://www.example.com/a-b']


class Adversary(oracle.Predictor):
    """Answers anything: drawn from a seed and the sentence, also at positions that hold no token"""

    def __init__(self, mix, seed, *args):
        super().__init__(*args)
        self.mix = mix  # Weights of LEFT, RIGHT, REDUCE, SHIFT
        self.seed = seed
        self.asked = collections.Counter()
        self.tag_rows = {}
        self.dep_rows = {}
        self.vecs = {}
        self.bad = None
        self._t, self._d = {}, {}

    def key(self, chars):
        return hashlib.blake2b(chars.tobytes(), digest_size=12).hexdigest()

    def _pick(self, weights, *parts):
        x = oracle._h(self.seed, *parts) % sum(weights)
        for i, w in enumerate(weights):
            if x < w:
                return i
            x -= w

    def tag_answers(self, key):
        if key not in self._t:
            self._t[key] = [oracle._h(self.seed, 't', key, j) % self.nb_tags for j in range(52)]
        return self._t[key]

    def dep_answers(self, key):
        if key not in self._d:
            self._d[key] = self._dep_answers(key)
        return self._d[key]

    def _dep_answers(self, key):
        w = self.mix['deps']
        out = []
        for j in range(52):
            k = self._pick([w[0], w[1], w[2]], 'd', key, j)
            out.append(1 if k == 0 else 2 if k == 1 else oracle._h(self.seed, 'e', key, j) % self.nb_deps)
        return out

    def trans_answer(self, key, s, b):
        if b < self.mix['wait']:
            return 3
        return self._pick(self.mix['trans'], 'x', key, s, b)

    def predict(self, arity, arrays):
        k = self.calls
        self.calls += 1
        self.stats['predict_calls'] = self.stats.get('predict_calls', 0) + 1
        self.stats['predict_rows'] = self.stats.get('predict_rows', 0) + len(arrays[0])
        sim = core.here()
        if sim is not None:
            sim.point()
        if k in self.fail_at:
            self.stats['fault.predict'] = self.stats.get('fault.predict', 0) + 1
            sim.fired.append(['predict_fail', k])
            self.fail()
        n = len(arrays[0])
        if any(len(a) != n for a in arrays):
            raise ValueError('Data cardinality is ambiguous')
        if arity == 2:
            out = np.zeros((n, 52, self.nb_tags), dtype=np.float32)
            for i in range(n):
                key = self.key(arrays[0][i])
                self._vectors_ok(key, arrays[1][i])
                for j, v in enumerate(self.tag_answers(key)):
                    out[i, j, v] = 1.0
            return oracle.close_call(out)
        if arity == 3:
            out = np.zeros((n, 52, self.nb_deps), dtype=np.float32)
            for i in range(n):
                key = self.key(arrays[1][i])
                self._vectors_ok(key, arrays[2][i])
                self._tags_ok(key, arrays[0][i])
                for j, v in enumerate(self.dep_answers(key)):
                    out[i, j, v] = 1.0
            return oracle.close_call(out)
        out = np.zeros((n, self.nb_trans), dtype=np.float32)
        for i in range(n):
            key = self.key(arrays[2][i])
            self._vectors_ok(key, arrays[3][i])
            self._tags_ok(key, arrays[0][i])
            ntok = self.sizes.get(key, 0)
            if [int(x) for x in arrays[1][i][1:ntok + 1]] != self.dep_answers(key)[1:ntok + 1]:
                self.bad = self.bad or 'the transition network was given other dependencies than those predicted'
            m1, m2 = np.flatnonzero(arrays[4][i]), np.flatnonzero(arrays[5][i])
            if len(m1) != 1 or len(m2) != 1:
                raise ValueError('a mask must designate exactly one token')
            s, b = int(m1[0]) - 1, int(m2[0]) - 1
            self.asked[(key, s, b)] += 1
            out[i, self.trans_answer(key, s, b)] = 1.0
        return oracle.close_call(out)

    def _vectors_ok(self, key, row):
        want = self.vecs.get(key)
        if want is None:
            self.bad = self.bad or 'a network was given a sentence that is not among the inputs'
        elif not np.array_equal(want, row):
            at = sorted(set(np.nonzero(want != np.asarray(row))[0].tolist()))
            self.bad = self.bad or 'a network was given other word vectors than those of the sentence (positions %r)' % at

    def _tags_ok(self, key, row):
        ntok = self.sizes.get(key)
        if ntok is None:
            self.bad = self.bad or 'a network was given a sentence that is not among the inputs'
            return
        if [int(x) for x in row[1:ntok + 1]] != self.tag_answers(key)[1:ntok + 1]:
            self.bad = self.bad or 'a network was given other tags than those predicted for the sentence'


def make_adversary(plan, stats):
    from scrappybara.syntax.dependencies import Dep
    from scrappybara.syntax.tags import Tag
    from scrappybara.syntax.transitions import Trans
    return Adversary(plan['mix'], plan['seed'], oracle.CHAR_CODES, {t.name: t.value for t in Tag},
                     {d.name: d.value for d in Dep}, {t.name: t.value for t in Trans}, plan['predict_fail'], stats, plan['predict_error'])


def rows(tokens):
    """What the networks get of a sentence's characters, by the documented encoding"""
    codes = oracle.CHAR_CODES
    unk = max(codes.values()) + 1
    out = np.zeros((52, 22), dtype=np.int32)
    for i, t in enumerate(['ʃʃʃ'] + tokens + ['ʄʄʄ']):
        for j, c in enumerate('†' + t[-20:] + '‡'):
            out[i, j] = codes.get(c, unk)
    return out


class C06(runner.Check):
    ID = 'C06'
    RUNS = {'quick': 4000, 'thorough': 120000}
    RULE = ('1-10 sentences of 0-50 odd and ordinary tokens parsed in batches by 1-4 workers while the networks answer '
            'arbitrarily (also at padding positions) and sometimes fail; tags, every tree and every question put to the '
            'transition network are compared with a reference arc-eager machine; non-trivial: at least one arc')
    DISTINCT = 'nontrivial'
    REAL = ['scrappybara.syntax (parser, tagger, models.predict, training_samples, charset, wordset)', 'scrappybara.utils']
    STUB = pipes.PIPE_STUB
    ASSUMPTIONS = pipes.PIPE_ASSUME + ['a network answers a class for every position, of any kind']
    PROBES = ['left_on_headed', 'empty_sentence', 'full_sentence', 'no_tree', 'forest', 'fault.predict', 'tagger',
              'retried', 'same_sentence_twice']

    def setup(self):
        import pickle
        from sim import fs
        with fs._open(runner.ROOT + '/models/word_vectors.pkl', 'rb') as f:
            self.vectors = pickle.load(f)

    def plan(self, rng, tier):
        sents = []
        for _ in range(rng.choice([1, 2, 3, 5, 8, 10])):
            n = rng.choice([0, 1, 2, 3, 5, 8, 13, 49, 50])
            sents.append([rng.choice(ODD) if rng.random() < 0.2 else rng.choice(WORDS)
                          if rng.random() < 0.4 else texts.marker(rng) for _ in range(n)])
        if rng.random() < 0.15:
            sents.append(list(rng.choice(sents)))
        crowd = rng.random() < 0.008  # More sentences than the widest batch holds
        if crowd:
            sents = [[texts.marker(rng) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(rng.choice([129, 140, 260]))]
        mixes = [[1, 1, 1, 1], [6, 1, 1, 1], [1, 6, 1, 1], [1, 1, 6, 1], [1, 1, 1, 6], [1, 0, 0, 0], [0, 1, 0, 0],
                 [0, 0, 1, 0], [0, 0, 0, 1], [3, 3, 1, 1]]
        plan = {'sents': sents, 'seed': rng.getrandbits(40), 'procs': rng.randint(1, 4),
                'mix': {'trans': rng.choice(mixes), 'deps': rng.choice([[1, 1, 8], [0, 0, 1], [5, 0, 5], [1, 0, 0],
                                                                        [0, 3, 5], [9, 0, 1]]),
                        # Nothing but SHIFT up to some token
                        'wait': rng.choice([10, 30, 46, 49]) if rng.random() < 0.15 else 0},
                'batch': rng.choice([1, 2, 3, 4, 7, 128]), 'sched': pipes.sched_plan(rng, 1500),
                'predict_error': oracle.error_plan(rng),
                'predict_fail': [rng.choice([0, 1, 2, 3, 5, 9, 20])] if rng.random() < 0.12 else [],
                'tagger': rng.random() < 0.25, 'trace': 'opcode' if sum(map(len, sents)) < 25 else 'line'}
        if crowd:
            plan.update(batch=rng.choice([64, 128, 128, 200]), trace=None, sched={'mode': 'seq'}, predict_fail=[])
        return plan

    def execute(self, plan, out):
        from scrappybara.syntax.parser import Parser
        from scrappybara.syntax.tagger import Tagger
        sents = plan['sents']
        stats = out.stats
        adv = make_adversary(plan, stats)
        keys = [adv.key(rows(s)) for s in sents]
        adv.vecs = {k: refs.vector_rows(s, self.vectors) for k, s in zip(keys, sents)}
        adv.sizes = {k: len(s) for k, s in zip(keys, sents)}
        if len(set(keys)) < len(keys):
            out.count('same_sentence_twice')

        def setup(sim):
            return Tagger() if plan['tagger'] else Parser(plan['procs'], plan['batch'])

        attempts = []

        def body(sim, obj):
            for _ in range(1 + len(plan['predict_fail'])):
                adv.asked.clear()
                before = len(sim.fired)
                try:
                    given = [list(s) for s in sents]
                    res = obj.tag(given) if plan['tagger'] else obj(given)
                    return res
                except Exception as e:
                    if len(sim.fired) == before:
                        raise
                    out.count('retried')
                    adv.fail_at.clear()
                    attempts.append(repr(e))
            return None

        sim, res, err = pipes.simulate(body, out, plan['sched'], plan['trace'], setup=setup, predictor=adv)
        pipes.check_quiescent(sim)
        if err is not None:
            require(False, 'raised', lambda: 'the call raised %r' % (err,))
        require(adv.bad is None, 'wrong-question', adv.bad)
        if plan['tagger']:
            out.count('tagger')
            all_tags, all_trees = res, None
            out.nontrivial = True
        else:
            all_tags, all_trees = res
            require(len(all_trees) == len(sents), 'tree-count', lambda: '%d trees for %d sentences'
                    % (len(all_trees), len(sents)))
        require(len(all_tags) == len(sents), 'tag-count', lambda: '%d tag lists for %d sentences'
                % (len(all_tags), len(sents)))
        want_questions = collections.Counter()
        shown = []
        for i, s in enumerate(sents):
            n = len(s)
            if n == 0:
                out.count('empty_sentence')
            if n == 50:
                out.count('full_sentence')
            want = [adv.tag_n[v] for v in adv.tag_answers(keys[i])[1:n + 1]]
            got = [t.name for t in all_tags[i]]
            require(got == want, 'tags', lambda: 'sentence %d (%d tokens): predicted tags %r, reported %r'
                    % (i, n, want, got))
            if all_trees is None:
                continue
            deps = [adv.dep_n[v] for v in adv.dep_answers(keys[i])[1:n + 1]]
            names = ['LEFT', 'RIGHT', 'REDUCE', 'SHIFT']
            arcs, asked = refs.arc_eager(n, deps, lambda a, b: names[adv.trans_answer(keys[i], a, b)])
            for a, b in asked:
                want_questions[(keys[i], a, b)] += 1
                if names[adv.trans_answer(keys[i], a, b)] == 'LEFT' and any(c == a for _, _, c in arcs) \
                        and ('x', b, a) not in [('x', h, c) for _, h, c in arcs]:
                    out.count('left_on_headed')
            shown.append(self._tree(i, n, arcs, all_trees[i], out))
        if all_trees is not None:
            # Asking the same thing twice, or once for two equal sentences, is nobody's concern
            if set(adv.asked) != set(want_questions):
                extra = sorted(set(adv.asked) - set(want_questions))[:3]
                miss = sorted(set(want_questions) - set(adv.asked))[:3]
                require(False, 'wrong-question', 'transition questions differ; not expected: %r, missing: %r' % (
                    [(s, b) for _, s, b in extra], [(s, b) for _, s, b in miss]))
        out.note_digest(shown, [[t.name for t in tags] for tags in all_tags])

    @staticmethod
    def _tree(i, n, arcs, tree, out):
        if not arcs:
            out.count('no_tree')
            require(tree is None, 'tree', lambda: 'sentence %d: no arc was drawn, yet there is a tree' % i)
            return None
        out.nontrivial = True
        require(tree is not None, 'tree', lambda: 'sentence %d: arcs %r but no tree' % (i, arcs))
        root = refs.tree_root(arcs)
        require(tree.root == root, 'root', lambda: 'sentence %d: root %r, expected %r (arcs %r)'
                % (i, tree.root, root, arcs))
        parents = {c: (d, h) for d, h, c in arcs}
        if len({h for _, h, _ in arcs} | set(parents)) - len(parents) > 1:
            out.count('forest')
        for k in range(n):
            got = tree.parent(k)
            got = None if got is None else (got[0].name, got[1])
            require(got == parents.get(k), 'head', lambda: 'sentence %d, token %d: head %r, expected %r (arcs %r)'
                    % (i, k, got, parents.get(k), arcs))
            kids = sorted((d.name, c) for d, c in tree.children(k))
            want = sorted((d, c) for d, h, c in arcs if h == k)
            require(kids == want, 'children', lambda: 'sentence %d, token %d: children %r, expected %r (arcs %r)'
                    % (i, k, kids, want, arcs))
        require(len(tree) == 1 + len(parents), 'tree-size', lambda: 'sentence %d: %d nodes, expected %d'
                % (i, len(tree), 1 + len(parents)))
        got = sorted((d.name, h, c) for d, h, c in tree)
        require(got == sorted(arcs), 'arcs', lambda: 'sentence %d: arcs %r, expected %r' % (i, got, sorted(arcs)))
        return sorted(arcs)

    def shrink(self, plan):
        for sub in runner.drop_each(plan['sents'], 1):
            yield dict(plan, sents=sub)
        for i, s in enumerate(plan['sents']):
            for sub in runner.drop_each(s, 0):
                yield dict(plan, sents=plan['sents'][:i] + [sub] + plan['sents'][i + 1:])
        if plan['procs'] > 1:
            yield dict(plan, procs=1)
        if plan['batch'] != 128:
            yield dict(plan, batch=128)
        if plan['predict_fail']:
            yield dict(plan, predict_fail=[])
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C06()
