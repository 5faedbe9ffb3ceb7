"""The scratch data folder the simulated system reads and writes.

The english word lists and the character codes are the repository's own.  The files the repository does not ship
(bigrams, word vectors, network weights) are synthesised; unigrams are a fixed selection of the shipped ones.
"""
import hashlib
import os
import pickle
import shutil
import tempfile

from . import faketf, fs, vocab

DATA = '/repo/scrappybara/data'
SUBDIRS = ('english', 'langmodel', 'models')


# Whatever else a table of vectors lists
ODD_WORDS = ['straße', 'strasse', 'naïve', 'naive', 'café', 'cafe', '漢字', '%', '0', "'s", '!', 'x' * 20, 'x' * 21, 'ﬁne', 'fine']


def _vec(word):
    import numpy as np
    raw = b''
    k = 0
    while len(raw) < 200:
        raw += hashlib.blake2b(('%s/%d' % (word, k)).encode(), digest_size=64).digest()
        k += 1
    return (np.frombuffer(raw[:200], dtype='<i2').astype(np.float32) / 32768.0)[:100]


def unigram_lines():
    """The 600 most probable unigrams plus everything spelt like the vocabulary"""
    stems = {w[:4] for w in vocab.ALL_WORDS}
    out = []
    with fs._open(DATA + '/langmodel/1_grams.txt', encoding='utf-8') as f:
        for k, line in enumerate(f):
            if k < 600 or line[:4] in stems:
                out.append(line)
    return out


# Bigrams by which a form is another word as a verb than as a noun
VERB_FORMS = ['we hop', 'i lov', 'they bak', 'you boxe', 'can pric', 'we tomatoe', 'would analys', 'may hat', 'should us',
              'could gase', 'might hous', 'they studie', 'you partie']


def bigram_lines():
    words = sorted(vocab.ALL_WORDS)
    out = []
    for k in range(600):
        h = int.from_bytes(hashlib.blake2b(b'bi%d' % k, digest_size=8).digest(), 'big')
        a, b = words[h % len(words)], words[(h >> 20) % len(words)]
        out.append(('%s %s' % (a.lower(), b.lower()), 1 + (h >> 40) % 50))
    out.extend((t, 20 + 3 * k) for k, t in enumerate(VERB_FORMS))
    seen = {}
    for t, c in out:
        seen.setdefault(t, c)
    total = sum(seen.values())
    rows = sorted(seen.items(), key=lambda x: (-x[1], x[0]))
    return ['%s\t%d\t%.17f\n' % (t, c, c / total) for t, c in rows]


def weights(arity, wid=1):
    data = pickle.dumps((wid, arity, None))
    return faketf.frame(data)


def populate(root):
    """Fills root with a complete data folder"""
    for d in SUBDIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for name in sorted(os.listdir(DATA + '/english')):
        shutil.copyfile(DATA + '/english/' + name, root + '/english/' + name)
    shutil.copyfile(DATA + '/models/char_codes.pkl', root + '/models/char_codes.pkl')
    with fs._open(root + '/langmodel/1_grams.txt', 'w', encoding='utf-8') as f:
        f.writelines(unigram_lines())
    with fs._open(root + '/langmodel/2_grams.txt', 'w', encoding='utf-8') as f:
        f.writelines(bigram_lines())
    words = sorted({w.lower() for w in vocab.ALL_WORDS} - {'glorp', 'zumbly'} | set(ODD_WORDS))
    with fs._open(root + '/models/word_vectors.pkl', 'wb') as f:
        pickle.dump({w: _vec(w) for w in words}, f)
    for name, arity in (('ptags', 2), ('pdeps', 3), ('trans', 6)):
        with fs._open(root + '/models/%s_weights.h5' % name, 'wb') as f:
            f.write(weights(arity))


def scratch(prefix='scrappy-sim-'):
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def snapshot(root):
    """Every file under root, as bytes"""
    out = {}
    for dirpath, _, files in os.walk(root):
        for f in sorted(files):
            p = os.path.join(dirpath, f)
            with fs._open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def restore(root, image):
    for dirpath, _, files in os.walk(root):
        for f in files:
            fs._os['unlink'](os.path.join(dirpath, f))
    for rel, data in image.items():
        p = os.path.join(root, rel)
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        with fs._open(p, 'wb') as fh:
            fh.write(data)
