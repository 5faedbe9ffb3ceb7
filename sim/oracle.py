"""Stand-ins for the trained networks: what a predictor answers is a pure function of the one sentence row it is
given (as a trained network's answer is), so whatever reaches the parser's users can be attributed to that sentence.

LexPredictor answers sensibly (so that semantic tuples come out), WildPredictor answers anything at all, and both
can be told to fail at the k-th call as a device out of memory would.
"""
import hashlib

import numpy as np

from . import core, faketf, vocab


def _h(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), 'big')


def _digest(array):
    return hashlib.blake2b(np.ascontiguousarray(array, dtype='<f4').tobytes(), digest_size=8).hexdigest()


ERRORS = {'oom': faketf.ResourceExhaustedError, 'RuntimeError': RuntimeError, 'ValueError': ValueError,
          'MemoryError': MemoryError, 'OSError': OSError, 'IndexError': IndexError, 'TypeError': TypeError,
          'StopIteration': StopIteration, 'KeyError': KeyError}


def error_plan(rng):
    return 'oom' if rng.random() < 0.5 else rng.choice(sorted(ERRORS))


class Predictor(object):

    def __init__(self, char_codes, tags, deps, trans, fail_at=(), stats=None, error='oom'):
        """char_codes: char => code; tags, deps, trans: name => value"""
        self.decode_map = {v: k for k, v in char_codes.items()}
        self.start = char_codes['†']
        self.end = char_codes['‡']
        self.tag_v, self.dep_v, self.trans_v = tags, deps, trans
        self.tag_n = {v: k for k, v in tags.items()}
        self.dep_n = {v: k for k, v in deps.items()}
        self.nb_tags, self.nb_deps, self.nb_trans = len(tags), len(deps), len(trans)
        self.calls = 0
        self.fail_at = set(fail_at)
        self.error = error
        self.stats = stats if stats is not None else {}
        self._rows = {}
        self._heads = {}

    # Decoding ----------------------------------------------------------------->

    def token(self, row):
        key = row.tobytes()
        tok = self._rows.get(key)
        if tok is None:
            chars = []
            for c in row[1:]:
                if c == self.end:
                    break
                chars.append(self.decode_map.get(int(c), '¤'))
            tok = self._rows[key] = ''.join(chars)
        return tok

    def tokens(self, chars):
        """Tokens of one sentence, without its start & end markers"""
        toks = []
        for row in chars:
            if row[0] != self.start:
                break
            toks.append(self.token(row))
        return toks[1:-1]

    def seen(self, row, toks):
        """What the network makes of a row of codes: here, the positions that hold a token"""
        return row[1:len(toks) + 1]

    def fail(self):
        """A call of the network fails: most often as a device out of memory does"""
        raise ERRORS[self.error]('OOM when allocating tensor')

    # Interface of the fake Model ---------------------------------------------->

    def predict(self, arity, arrays):
        k = self.calls
        self.calls += 1
        self.stats['predict_calls'] = self.stats.get('predict_calls', 0) + 1
        self.stats['predict_rows'] = self.stats.get('predict_rows', 0) + len(arrays[0])
        sim = core.here()
        if sim is not None:
            sim.point()
        if k in self.fail_at:
            self.stats['fault.predict'] = self.stats.get('fault.predict', 0) + 1
            if sim is not None:
                sim.fired.append(['predict_fail', k])
            self.fail()
        n = len(arrays[0])
        for a in arrays[1:]:
            if len(a) != n:
                raise ValueError('Data cardinality is ambiguous')
        if arity == 2:
            out = np.zeros((n, 52, self.nb_tags), dtype=np.float32)
            for i in range(n):
                toks = self.tokens(arrays[0][i])
                for j, v in enumerate(self.tags(toks, arrays[1][i])):
                    out[i, j + 1, v] = 1.0
            return close_call(out)
        if arity == 3:
            out = np.zeros((n, 52, self.nb_deps), dtype=np.float32)
            for i in range(n):
                toks = self.tokens(arrays[1][i])
                for j, v in enumerate(self.deps(toks, self.seen(arrays[0][i], toks), arrays[2][i])):
                    out[i, j + 1, v] = 1.0
            return close_call(out)
        if arity == 6:
            out = np.zeros((n, self.nb_trans), dtype=np.float32)
            for i in range(n):
                toks = self.tokens(arrays[2][i])
                m1, m2 = np.flatnonzero(arrays[4][i]), np.flatnonzero(arrays[5][i])
                if len(m1) != 1 or len(m2) != 1:
                    raise ValueError('a mask must designate exactly one token')
                v = self.trans(toks, self.seen(arrays[0][i], toks), self.seen(arrays[1][i], toks),
                               int(m1[0]) - 1, int(m2[0]) - 1, arrays[3][i])
                out[i, v] = 1.0
            return close_call(out)
        raise ValueError('unexpected number of inputs: %d' % arity)


def close_call(out):
    """Turns rows of zeros and a one into probabilities of which two others come close to the highest"""
    top = out.argmax(axis=-1)[..., None]
    hot = np.take_along_axis(out, top, -1) > 0
    for step in (1, -1):
        at = (top + step) % out.shape[-1]
        np.put_along_axis(out, at, np.where(hot, np.float32(0.4), np.take_along_axis(out, at, -1)), -1)
    np.put_along_axis(out, top, np.where(hot, np.float32(0.400001), np.take_along_axis(out, top, -1)), -1)
    return out


class LexPredictor(Predictor):

    def tags(self, toks, vectors):
        out = []
        for j, t in enumerate(toks):
            low = t.lower()
            if t and not any(c.isalnum() for c in t) and t not in vocab.SYMS:
                name = 'PUNCT'
            elif low in vocab.TAG and (t == low or j == 0 or t == 'I'):
                name = vocab.TAG[low]
                if name == 'VERB' and j > 0 and toks[j - 1].lower() in vocab.DETS and low.endswith(('ed', 'en')):
                    name = 'ADJ'
                elif name in ('ADJ', 'NOUN') and _h('amb', j, t, toks[j - 1:j], toks[j + 1:j + 2]) % 9 == 0:
                    name = 'NOUN' if name == 'ADJ' else 'ADJ'  # A mistake the fixer is there for
            elif any(c.isdigit() for c in t) and t.replace(',', '').replace('.', '').isdigit():
                name = 'NUM'
            elif any(c in t for c in '/@#') or '.com' in t or not t:
                name = 'SYM'
            elif t[:1].isupper():
                name = 'PROPN'
            else:
                name = ('NOUN', 'NOUN', 'VERB', 'ADJ', 'ADV')[_h('tag', t) % 5]
            out.append(self.tag_v[name])
        return out

    def heads(self, toks, tags):
        """Intended head & dependency of every token; -1 for none"""
        key = (tuple(toks), tuple(int(t) for t in tags))
        if key not in self._heads:
            self._heads[key] = self._make_heads(toks, tags)
        return self._heads[key]

    def _make_heads(self, toks, tags):
        n = len(toks)
        names = [self.tag_n.get(int(t), 'PAD') for t in tags]
        head, dep = [-1] * n, ['NODEP'] * n
        nounish = ('NOUN', 'PROPN', 'PRON', 'SYM', 'NUM')
        verbs = [i for i in range(n) if names[i] == 'VERB']
        # Noun phrases
        np_head = []
        i = 0
        while i < n:
            if names[i] in nounish:
                j = i
                while j + 1 < n and names[j + 1] in nounish and names[j + 1] != 'PRON' and names[i] != 'PRON':
                    j += 1
                if all(x == 'PROPN' for x in names[i:j + 1]):
                    for k in range(i + 1, j + 1):
                        head[k], dep[k] = k - 1, 'FLAT'
                    top = i
                else:
                    chain = _h('chain', tuple(toks[i:j + 1])) % 2
                    for k in range(i, j):
                        head[k], dep[k] = k + 1 if chain else j, 'CPL'
                    top = j
                k = i - 1
                while k >= 0 and names[k] in ('DET', 'ADJ', 'PREP') and head[k] == -1:
                    head[k], dep[k] = top, {'DET': 'ART', 'ADJ': 'CPL', 'PREP': 'MARK'}[names[k]]
                    if toks[k].lower() == 'no':
                        dep[k] = 'NEG'
                    k -= 1
                np_head.append(top)
                i = j + 1
            else:
                i += 1
        if not verbs:
            if np_head:
                dep[np_head[0]], head[np_head[0]] = 'ROOT', -1
                for h in np_head[1:]:
                    head[h], dep[h] = np_head[0], 'AND' if _h('and', tuple(toks)) % 2 else 'CPL'
            return head, dep
        root = verbs[0]
        dep[root], head[root] = 'ROOT', -1
        prev = root
        for v in verbs[1:]:
            between = names[prev + 1:v]
            if 'CONJ' in between:
                head[v], dep[v] = prev, 'AND' if toks[prev + 1 + between.index('CONJ')].lower() != 'or' else 'OR'
            else:
                head[v], dep[v] = prev, ('CPL', 'OBJ')[_h('v', toks[prev], toks[v]) % 2]
            prev = v
        for h in np_head:
            before = [v for v in verbs if v > h]
            after = [v for v in verbs if v < h]
            marked = any(head[k] == h and dep[k] == 'MARK' for k in range(max(0, h - 4), h))
            if after and before and dep[before[0]] == 'OBJ' and not marked and not any(
                    after[-1] < k < before[0] for k in np_head if k > h) and _h('s', toks[h], toks[before[0]]) % 4:
                head[h], dep[h] = before[0], 'SUBJ'  # Of the clause that is the object
            elif after:
                v = after[-1]
                got = [dep[k] for k in range(v + 1, h) if head[k] == v]
                be = toks[v].lower() in ('is', 'are', 'was', 'were', 'be', 'been', 'am', "'s", "'m", "'re")
                if marked:
                    d = 'CPL'
                elif be and 'PROP' not in got:
                    d = 'PROP'
                elif 'OBJ' not in got and 'PROP' not in got:
                    d = 'OBJ'
                else:
                    d = ('IOBJ', 'CPL', 'IPROP')[_h('o', toks[h]) % 3]
                head[h], dep[h] = v, d
            elif before:
                head[h], dep[h] = before[0], 'CPL' if marked else 'SUBJ'
        for i in range(n):
            if head[i] != -1 or dep[i] == 'ROOT':
                continue
            nxt = [v for v in verbs if v > i]
            prv = [v for v in verbs if v < i]
            if names[i] == 'MAT' and nxt:
                head[i], dep[i] = nxt[0], 'AUX'
            elif names[i] == 'ADV':
                v = nxt[0] if nxt and nxt[0] - i <= 2 else (prv[-1] if prv else root)
                head[i], dep[i] = v, 'NEG' if toks[i].lower() in ('not', "n't", 'never') else 'CPL'
            elif names[i] == 'FRAG' and prv:
                head[i], dep[i] = prv[-1], 'PART'
            elif names[i] == 'ADJ' and prv:
                head[i], dep[i] = prv[-1], 'PROP'
            elif names[i] == 'THERE' and nxt:
                head[i], dep[i] = nxt[0], 'SUBJ'
        return head, dep

    def deps(self, toks, tags, vectors):
        _, dep = self.heads(toks, tags)
        return [self.dep_v[d] for d in dep]

    def trans(self, toks, tags, deps, s, b, vectors):
        head, _ = self.heads(toks, tags)
        if head[s] == b:
            return self.trans_v['LEFT']
        if head[b] == s:
            return self.trans_v['RIGHT']
        if -1 < head[b] < s or any(head[k] == b for k in range(s)):
            return self.trans_v['REDUCE']
        return self.trans_v['SHIFT']


class WildPredictor(Predictor):
    """Any answer a network can give, as a hash of the row it is given, also at positions that hold no token"""

    def predict(self, arity, arrays):
        out = super().predict(arity, arrays)
        if arity in (2, 3):
            for i in range(len(out)):
                base = _h('pad', arity, arrays[arity - 2][i].tobytes(), self._row(arrays[0][i]) if arity == 3 else 0)
                blank = np.flatnonzero(~out[i].any(axis=1))
                out[i, blank, (base % 9973 + blank * 7) % out.shape[2]] = 1.0
        return out

    def seen(self, row, toks):
        return row

    @staticmethod
    def _row(row):
        return [int(x) for x in row]

    def tags(self, toks, vectors):
        v = _digest(vectors)
        return [_h('t', toks, v, j) % self.nb_tags for j in range(len(toks))]

    def deps(self, toks, tags, vectors):
        v = _digest(vectors)
        return [_h('d', toks, v, self._row(tags), j) % self.nb_deps for j in range(len(toks))]

    def trans(self, toks, tags, deps, s, b, vectors):
        return _h('x', toks, _digest(vectors), self._row(tags), self._row(deps), s, b) % self.nb_trans


def make(kind='lex', fail_at=(), stats=None, error='oom'):
    from scrappybara.syntax.dependencies import Dep
    from scrappybara.syntax.tags import Tag
    from scrappybara.syntax.transitions import Trans
    return {'lex': LexPredictor, 'wild': WildPredictor}[kind](
        CHAR_CODES, {t.name: t.value for t in Tag}, {d.name: d.value for d in Dep},
        {t.name: t.value for t in Trans}, fail_at, stats, error)


CHAR_CODES = None


def load_char_codes(root):
    global CHAR_CODES
    import pickle
    from . import fs
    with fs._open(root + '/models/char_codes.pkl', 'rb') as f:
        CHAR_CODES = pickle.load(f)
