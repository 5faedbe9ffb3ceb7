"""C14: extracted training data is complete, aligned and free of side effects, however it is shuffled"""
import collections
import copy
import json
import random
import threading

import numpy as np

from sim import core, goldgen, oracle, pipes, refs, runner, texts
from sim.runner import require

KINDS = ('ptags', 'pdeps', 'trans')


def _arr(a, t):
    return np.ascontiguousarray(np.asarray(a)).astype(t).tobytes()


def wanted(kind, rows, vectors, names):
    """Every training row the labelled sentences call for, as a multiset"""
    tag_v, dep_v, trans_v = names
    out = collections.Counter()
    for s in rows:
        toks = [r[0] for r in s]
        c, v = refs.char_rows(toks, oracle.CHAR_CODES).tobytes(), refs.vector_rows(toks, vectors).tobytes()
        t = _arr(refs.id_row([tag_v[r[1]] for r in s]), '<i4')
        d = _arr(refs.id_row([dep_v[r[2]] for r in s]), '<i4')
        if kind == 'ptags':
            out[(c, v, t)] += 1
        elif kind == 'pdeps':
            out[(t, c, v, d)] += 1
        else:
            for a, b, name in refs.static_oracle(s):
                m1, m2 = [False] * 52, [False] * 52
                m1[a + 1] = m2[b + 1] = True
                out[(t, d, c, v, _arr(m1, '?'), _arr(m2, '?'), trans_v[name])] += 1
    return out


def got_rows(kind, data):
    types = {'ptags': ('<i4', '<f4', '<i4'), 'pdeps': ('<i4', '<i4', '<f4', '<i4'),
             'trans': ('<i4', '<i4', '<i4', '<f4', '?', '?', None)}[kind]
    if not data:
        return collections.Counter(), 0
    require(len(data) == len(types), 'columns', lambda: '%s data has %d columns, expected %d'
            % (kind, len(data), len(types)))
    sizes = {len(col) for col in data}
    require(len(sizes) == 1, 'columns', lambda: '%s columns have different lengths %r' % (kind, sorted(sizes)))
    out = collections.Counter()
    for row in zip(*data):
        out[tuple(int(x) if t is None else _arr(x, t) for x, t in zip(row, types))] += 1
    return out, sizes.pop()


class C14(runner.Check):
    ID = 'C14'
    RUNS = {'quick': 2500, 'thorough': 60000}
    RULE = ('1-3 caller threads extract tag, dependency or transition training data from 1-7 annotated sentences each '
            '(projective or not, 1-50 words, repeats) with a seeded shuffle and schedule; rows compared as a multiset with '
            'a reference encoder; non-trivial: two or more rows')
    DISTINCT = 'nontrivial'
    REAL = ['scrappybara.syntax (labelled_data, training_samples, charset, wordset)', 'scrappybara.utils']
    STUB = pipes.PIPE_STUB + ['random (seeded)']
    ASSUMPTIONS = ['annotated sentences have a root, as the annotation format prescribes']
    PROBES = ['kind.ptags', 'kind.pdeps', 'kind.trans', 'crossing', 'repeated', 'two_callers', 'shuffled', 'too_long']

    def setup(self):
        import pickle
        from sim import fs
        with fs._open(runner.ROOT + '/models/word_vectors.pkl', 'rb') as f:
            self.vectors = pickle.load(f)

    def plan(self, rng, tier):
        jobs = []
        small = rng.random() < 0.45  # Short jobs of one kind meet more often
        kind = rng.choice(KINDS)
        for _ in range(rng.choice([2, 3, 4]) if small else rng.choice([1, 1, 2, 3])):
            sents = []
            for _ in range(rng.choice([2, 3, 4]) if small else rng.choice([1, 2, 3, 5, 7])):
                if small:
                    sents.append(goldgen.sentence(rng, rng.choice([1, 2, 3, 4]), False, False))
                elif rng.random() < 0.15:
                    sents.append(rng.choice(goldgen.GOLD))
                else:
                    sents.append(goldgen.sentence(rng, rng.choice([1, 2, 3, 4, 6, 9, 15, 30, 50]), rng.random() < 0.25, False))
            if rng.random() < 0.15:
                sents.append(rng.choice(sents))
            if rng.random() < 0.3:
                # The same words in another reading
                s = rng.choice(sents)
                other = goldgen.sentence(rng, len(s), False, False)
                if len(other) == len(s):
                    sents.append([[r[0]] + list(o[1:]) for r, o in zip(s, other)])
            jobs.append({'kind': kind if small and rng.random() < 0.9 else rng.choice(KINDS), 'sents': sents})
        if rng.random() < 0.01:
            # A small treebank
            jobs = [{'kind': kind, 'sents': [goldgen.sentence(rng, rng.choice([2, 3, 4]), False, False)
                                             for _ in range(rng.choice([101, 130, 257, 300]))]}]
            return {'jobs': jobs, 'shuffle': rng.getrandbits(40), 'sched': {'mode': 'seq'}}
        if rng.random() < 0.04:
            # A sentence that cannot be encoded
            k = rng.randrange(len(jobs))
            long = goldgen.sentence(rng, 50, False, False)
            long += [[texts.marker(rng), 'NOUN', 'SUBJ', next(i for i, r in enumerate(long) if r[2] == 'ROOT')]
                     for _ in range(rng.choice([1, 1, 2, 10]))]
            jobs[k]['sents'] = jobs[k]['sents'][:1] + [long] + jobs[k]['sents'][1:]
        return {'jobs': jobs, 'shuffle': rng.getrandbits(40), 'sched': pipes.sched_plan(rng, 3000 if not small else 500)}

    def execute(self, plan, out):
        from scrappybara.syntax import labelled_data
        from scrappybara.syntax.charset import Charset
        from scrappybara.syntax.dependencies import Dep
        from scrappybara.syntax.tags import Tag
        from scrappybara.syntax.transitions import Trans
        from scrappybara.syntax.wordset import Wordset
        jobs = plan['jobs']
        names = ({t.name: t.value for t in Tag}, {d.name: d.value for d in Dep}, {t.name: t.value for t in Trans})
        inputs = [[[tuple(r) for r in s] for s in j['sents']] for j in jobs]
        before = copy.deepcopy(inputs)

        def extract(k, shared):
            f = getattr(labelled_data, 'extract_%s_training_data' % jobs[k]['kind'])
            return f(inputs[k], *shared)

        def setup(sim):
            random.seed(plan['shuffle'])
            np.random.seed(plan['shuffle'] % (1 << 32))
            return Charset().load(), Wordset().load()

        def body(sim, shared):
            results = [None] * len(jobs)

            def work(k):
                try:
                    results[k] = ('ok', extract(k, shared))
                except Exception as e:
                    results[k] = ('err', e)

            threads = [threading.Thread(target=work, args=(k,)) for k in range(1, len(jobs))]
            for t in threads:
                t.start()
            work(0)
            for t in threads:
                t.join()
            return results

        sim, results, err = pipes.simulate(body, out, plan['sched'], 'line', setup=setup)
        pipes.check_quiescent(sim)
        require(err is None, 'raised', lambda: 'raised %r' % (err,))
        if len(jobs) > 1:
            out.count('two_callers')
        require(inputs == before, 'input-changed', 'extraction changed the labelled sentences it was given')
        for k, (status, data) in enumerate(results):
            kind = jobs[k]['kind']
            out.count('kind.' + kind)
            if any(len(s) > 50 for s in inputs[k]):
                require(status == 'err', 'left-out', lambda: '%s extraction returned, though one of the sentences is too long '
                        'to be encoded' % kind)
                out.count('too_long')
                continue
            require(status == 'ok', 'raised', lambda: '%s extraction raised %r' % (kind, data))
            want = wanted(kind, inputs[k], self.vectors, names)
            got, size = got_rows(kind, data)
            if size > 1:
                out.nontrivial = True
            if max(want.values(), default=0) > 1:
                out.count('repeated')
            if any(self._crossing(s) for s in inputs[k]):
                out.count('crossing')
            if got != want:
                missing, extra = want - got, got - want
                require(False, 'rows', '%s data of %d sentences: %d expected rows are missing, %d rows are not called for'
                        % (kind, len(inputs[k]), sum(missing.values()), sum(extra.values())))
            if size > 3:
                first = list(want.elements())
                now = [tuple(int(x) if t is None else _arr(x, t) for x, t in zip(row, {
                    'ptags': ('<i4', '<f4', '<i4'), 'pdeps': ('<i4', '<i4', '<f4', '<i4'),
                    'trans': ('<i4', '<i4', '<i4', '<f4', '?', '?', None)}[kind])) for row in zip(*data)]
                if first != now:
                    out.count('shuffled')
                out.note_digest(kind, size, hash_rows(now))

    @staticmethod
    def _crossing(s):
        arcs = [tuple(sorted((i, r[3]))) for i, r in enumerate(s) if r[2] not in ('ROOT', 'NODEP')]
        return any(a < c < b < d for a, b in arcs for c, d in arcs)

    def shrink(self, plan):
        for sub in runner.drop_each(plan['jobs'], 1):
            yield dict(plan, jobs=sub)
        for i, j in enumerate(plan['jobs']):
            for sub in runner.drop_each(j['sents'], 1):
                yield dict(plan, jobs=plan['jobs'][:i] + [dict(j, sents=sub)] + plan['jobs'][i + 1:])
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


def hash_rows(rows):
    import hashlib
    h = hashlib.blake2b(digest_size=8)
    for r in rows:
        for x in r:
            h.update(x if isinstance(x, bytes) else b'%d' % x)
    return h.hexdigest()


CHECK = C14()
