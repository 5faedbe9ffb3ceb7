"""Labelled sentences, as an annotator would write them: (token, tag, dependency, parent index) per token"""
import json
import os

from . import texts, vocab

WORDS = sorted(vocab.ALL_WORDS)
TAGS = ['ADJ', 'PREP', 'ADV', 'MAT', 'CONJ', 'DET', 'EXPR', 'NOUN', 'NUM', 'FRAG', 'PRON', 'PROPN', 'VERB', 'SYM', 'THERE']
DEPS = ['AND', 'ART', 'AUX', 'CALLEE', 'CMARK', 'CPL', 'EXIST', 'FLAT', 'IMARK', 'INTJ', 'IOBJ', 'IPROP', 'MARK', 'MODAL',
        'NEG', 'OBJ', 'OR', 'ORPHAN', 'PART', 'PROP', 'SPLIT', 'SUBJ']
ODD = ['x' * 20, 'y' * 21, 'naïve', 'Naïve', 'Straße', 'CAFÉ', 'cafe\u0301', '漢字', '!', '%', "'s", 'é' * 25, '\\', 'a' * 60]

with open(os.path.join(os.path.dirname(__file__), 'gold.json'), encoding='utf-8') as _f:
    GOLD = json.load(_f)


def _attach(rng, lo, hi, head, heads, chain):
    """Splits the span lo..hi-1 into subtrees and hangs each one on head"""
    while lo < hi:
        size = hi - lo if rng.random() < chain else rng.randint(1, hi - lo)
        top = rng.randrange(lo, lo + size)
        heads[top] = head
        _attach(rng, lo, top, top, heads, chain)
        _attach(rng, top + 1, lo + size, top, heads, chain)
        lo += size


def projective(rng, m, chain=0.3):
    """Heads of a random projective tree over m words; -1 for the root"""
    heads = [None] * m
    root = rng.randrange(m)
    heads[root] = -1
    _attach(rng, 0, root, root, heads, chain)
    _attach(rng, root + 1, m, root, heads, chain)
    return heads


def deep(rng, m):
    """Heads of a tree that keeps many words waiting for others: all on the last one, or each on the one before"""
    k = rng.choice([m, m, rng.randint(2, m)])
    heads = list(range(-1, m - 1))  # Each on the one before
    shape = rng.randrange(3)
    if shape == 0:  # Words waiting for a head on their right
        heads[:k - 1], heads[k - 1] = [k - 1] * (k - 1), -1
    elif shape == 1 and m > 2:  # A chain, then something on its first word
        heads[m - 1] = 0
    return heads


def any_tree(rng, m):
    """Heads of any tree, crossing arcs included"""
    order = list(range(m))
    rng.shuffle(order)
    heads = [-1] * m
    for k in range(1, m):
        heads[order[k]] = order[rng.randrange(k)]
    return heads


def sentence(rng, m, crossing=False, unique=True):
    """m words in a tree, with words outside the tree strewn between them"""
    heads = any_tree(rng, m) if crossing else deep(rng, m) if m > 20 and rng.random() < 0.25 \
        else projective(rng, m, rng.choice([0.0, 0.3, 0.9]))
    n = min(50, m + rng.choice([0, 0, 1, 2, 5]))
    place = sorted(rng.sample(range(n), m))
    rows = []
    for i in range(n):
        r = rng.random()
        tok = rng.choice(ODD) if r < 0.08 else rng.choice(WORDS) if r < 0.5 else texts.marker(rng)
        if i in place:
            h = heads[place.index(i)]
            if h == -1:
                rows.append([tok, rng.choice(TAGS), 'ROOT', -1])
            else:
                rows.append([tok, rng.choice(TAGS), rng.choice(DEPS), place[h]])
        else:
            rows.append([rng.choice([',', '.', '"', 'and', '(']), rng.choice(['PUNCT', 'CONJ']), 'NODEP', -1])
    if unique:
        rows[rng.randrange(n)][0] = texts.marker(rng, 6)
    return rows


def with_marker(rng, rows):
    """A copy of a labelled sentence that no other sentence equals"""
    rows = [list(r) for r in rows]
    rows[rng.randrange(len(rows))][0] = texts.marker(rng, 6)
    return rows
