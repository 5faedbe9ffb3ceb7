"""Reference models: small, independent re-statements of what the code must compute"""
import collections
import re

NODEP, ROOT, SPLIT = 'NODEP', 'ROOT', 'SPLIT'


# ###############################################################################
# ARC-EAGER PARSING
# ###############################################################################


def arc_eager(n, deps, ask):
    """Runs the transition system over n tokens; deps are names, ask(s, b) names a transition.
    Returns (arcs, questions): arcs as (dep, head, child) in the order they were drawn.
    """
    todo = [i for i in range(n) if deps[i] != NODEP]
    arcs, questions, headed = [], [], set()
    if not todo:
        return arcs, questions
    stack, pos = [todo[0]], 1

    def label(i):
        return SPLIT if deps[i] == ROOT else deps[i]

    def reduce():
        nonlocal pos
        stack.pop()
        if not stack:
            stack.append(todo[pos])
            pos += 1

    while pos < len(todo):
        s, b = stack[-1], todo[pos]
        questions.append((s, b))
        t = ask(s, b)
        if t == 'LEFT':
            if s not in headed:
                headed.add(s)
                arcs.append((label(s), b, s))
            reduce()
        elif t == 'RIGHT':
            headed.add(b)
            arcs.append((label(b), s, b))
            stack.append(b)
            pos += 1
        elif t == 'REDUCE':
            reduce()
        else:
            stack.append(b)
            pos += 1
    return arcs, questions


def tree_root(arcs):
    nodes = {h for _, h, _ in arcs} | {c for _, _, c in arcs}
    tops = nodes - {c for _, _, c in arcs}
    return min(tops) if tops else None


# ###############################################################################
# LANGUAGE MODEL
# ###############################################################################


_WORD = re.compile('[a-zA-Z]+')


def valid_token(tok):
    """Tokens n-grams are made of: ASCII letters only and not capitalised, or the pronoun I"""
    if tok == 'I':
        return True
    return bool(tok) and _WORD.fullmatch(tok) is not None and not 'A' <= tok[0] <= 'Z'


def count_ngrams(sentences, max_order):
    """Counter per order over token lists"""
    counts = {n: collections.Counter() for n in range(1, max_order + 1)}
    for toks in sentences:
        ok = [valid_token(t) for t in toks]
        for n in counts:
            for i in range(len(toks) - n + 1):
                if all(ok[i:i + n]):
                    counts[n][tuple(t.lower() for t in toks[i:i + n])] += 1
    return counts


def mle(counts):
    """Probabilities per order: relative frequencies"""
    out = {}
    for n, c in counts.items():
        total = sum(c.values())
        out[n] = {g: k / total for g, k in c.items()}
    return out


class TooPoor(Exception):
    """Modified Kneser-Ney has no discounts for this corpus"""


def mkn(counts):
    """Modified Kneser-Ney probabilities, interpolated down to continuation unigrams"""
    top = max(counts)
    disc = {}
    for n in range(2, top + 1):
        k = collections.Counter(counts[n].values())
        if not all(k[i] for i in (1, 2, 3, 4)):
            raise TooPoor()
        y = k[1] / (k[1] + 2.0 * k[2])
        disc[n] = (0.0, 1 - 2 * y * k[2] / k[1], 2 - 3 * y * k[3] / k[2], 3 - 4 * y * k[4] / k[3])
    left = collections.Counter()  # gram => number of distinct words seen before it
    around = collections.Counter()  # gram => number of distinct (before, after) pairs
    follow = collections.defaultdict(lambda: [0, 0, 0, 0])  # gram => followers seen once, twice, more often
    for n in range(2, top + 1):
        for g, c in counts[n].items():
            left[g[1:]] += 1
            follow[g[:-1]][min(c, 3)] += 1
            if n > 2:
                around[g[1:-1]] += 1
    bigrams = len(counts[2])

    def term(num, order_d, order_w, den, ctx, lower):
        d = disc[order_d][min(num, 3)]
        f = follow[ctx]
        w = sum(f[i] * disc[order_w][i] for i in (1, 2, 3))
        return max(num - d, 0.0) / den + w / den * lower

    def lower(g):
        """Continuation probability of a suffix"""
        if len(g) == 1:
            return left[g] / bigrams
        n = len(g)
        return term(left[g], n + 1, n, around[g[:-1]], g[:-1], lower(g[1:]))

    out = {1: {g: left[g] / bigrams for g in counts[1]}}
    for n in range(2, top + 1):
        out[n] = {g: term(c, n, n, counts[n - 1][g[:-1]], g[:-1], lower(g[1:])) for g, c in counts[n].items()}
    return out


# ###############################################################################
# WHAT THE NETWORKS ARE FED
# ###############################################################################


def char_rows(tokens, codes):
    """Character codes of a sentence: marked at both ends, words cut to their last 20 characters, zero padded"""
    import numpy as np
    unk = max(codes.values()) + 1
    out = np.zeros((52, 22), dtype=np.int32)
    for i, t in enumerate(['ʃʃʃ'] + list(tokens) + ['ʄʄʄ']):
        for j, c in enumerate('†' + t[-20:] + '‡'):
            out[i, j] = codes.get(c, unk)
    return out


def vector_rows(tokens, vectors):
    import numpy as np
    out = np.zeros((52, 100), dtype=np.float32)
    for i, t in enumerate(['ʃʃʃ'] + list(tokens) + ['ʄʄʄ']):
        v = vectors.get(t.lower())
        if v is not None:
            out[i] = v
    return out


def id_row(ids):
    return [0] + list(ids) + [0] * (51 - len(ids))


def static_oracle(rows):
    """Transitions that draw a labelled sentence's arcs: [(s, b, name)]"""
    todo = [i for i, r in enumerate(rows) if r[2] != NODEP]
    head = {i: rows[i][3] for i in todo if rows[i][2] not in (ROOT, NODEP) and rows[i][3] > -1}
    out = []
    if not todo:
        return out
    stack, pos = [todo[0]], 1
    while pos < len(todo):
        b = todo[pos]
        if not stack:
            stack.append(b)
            pos += 1
            continue
        s = stack[-1]
        if head.get(s) == b:
            out.append((s, b, 'LEFT'))
            stack.pop()
        elif head.get(b) == s:
            out.append((s, b, 'RIGHT'))
            stack.append(b)
            pos += 1
        elif (b in head and head[b] < s) or any(h == b and c < s for c, h in head.items()):
            out.append((s, b, 'REDUCE'))
            stack.pop()
        else:
            out.append((s, b, 'SHIFT'))
            stack.append(b)
            pos += 1
    return out
