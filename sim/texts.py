"""Seeded generator of texts: everything the preprocessing rules and the language rules treat specially, mixed"""
from . import vocab as v

ABBR = ['Mr.', 'Dr.', 'Mrs.', 'Prof.', 'St.', 'U.S.A.', 'i.e.', 'Lt.', 'e.g.']
ODD = ["5'10\"", '3"', "rock 'n' roll", 'R & B', 'AT&T', 'a>=b', 'x <= 3', 'x => y', '50%', 'and/or', 'cannot',
       "don't", "I'm", "it's", 'we\'ll', "John's", '2:Engage', 'note:this', 'C++ice', 'tip*top', 'well-known',
       '12:30', '1.', 'A.', 'etc.', '*bullet', '…', '...', 'dog.Cat', '‘quoted’', '“fancy”', 'a—b', 'x–y',
       "n't", '(', ')', ')', '"', '¶', 'é', 'naïve', '日本', '!', 'shop.com/x', '"rock" \'n\' roll.com/x', "salt 'n' pepper.org/a",
       '⦅1', '༺0༻', '༺', '⦆']


def marker(rng, n=4):
    """A capitalised nonsense word: unique with overwhelming probability, tagged as a proper noun"""
    cons, vow = 'bdfgklmnprtvz', 'aiou'
    return ''.join(rng.choice(cons) + rng.choice(vow) for _ in range(n)).capitalize() + 'x'


def noun_phrase(rng):
    r = rng.random()
    if r < 0.15:
        return [rng.choice(v.PRONS[:8])]
    if r < 0.3:
        k = rng.choice([1, 1, 2])
        return [rng.choice(v.PROPNS) for _ in range(k)]
    if r < 0.36:
        return [rng.choice(v.SYMS[:7])]
    out = []
    if rng.random() < 0.6:
        out.append(rng.choice(v.DETS))
    if rng.random() < 0.4:
        out.append(rng.choice(v.ADJS))
    if rng.random() < 0.15:
        out.append(rng.choice(v.NUMS))
    if rng.random() < 0.3:
        out += [rng.choice(v.NOUNS) for _ in range(rng.choice([1, 1, 2, 3]))]
    out.append(rng.choice(v.NOUNS))
    return out


def clause(rng):
    out = noun_phrase(rng)
    if rng.random() < 0.2:
        out += [rng.choice(v.MATS)]
    if rng.random() < 0.2:
        out += [rng.choice(['not', 'never', 'really'])]
    if rng.random() < 0.35:
        out += [rng.choice(['is', 'are', 'was', 'were'])]
        out += [rng.choice(v.ADJS)] if rng.random() < 0.6 else noun_phrase(rng)
    else:
        out += [rng.choice(v.VERBS)]
        if rng.random() < 0.15:
            out += [rng.choice(v.FRAGS)]
        if rng.random() < 0.8:
            out += noun_phrase(rng)
            if rng.random() < 0.2:  # A clause for an object
                out += [rng.choice(v.VERBS + ['is', 'are'])]
                out += noun_phrase(rng) if rng.random() < 0.7 else []
    if rng.random() < 0.3:
        out += [rng.choice(v.PREPS)] + noun_phrase(rng)
    if rng.random() < 0.15:
        out += ['and', rng.choice(v.VERBS)] + noun_phrase(rng)
    return out


def sentence(rng, odd=0.25):
    words = clause(rng)
    for _ in range(3):
        if rng.random() < 0.2:
            words += [rng.choice([',', 'and', 'but', 'because', ';', '-'])] + clause(rng)
    while rng.random() < odd:
        words.insert(rng.randrange(len(words) + 1), rng.choice(ODD + v.SYMS + ABBR))
    if rng.random() < 0.15:
        i = rng.randrange(len(words))
        q = clause(rng)
        o, c = rng.choice(['""', '()', '""', '()', '[]', '{}', '“”'])
        inner = ' '.join(q) + rng.choice(['', '.', '!'])
        if rng.random() < 0.15 and o == '(':
            inner += ' "' + ' '.join(clause(rng)) + '"'
        words.insert(i, o + inner + c)
    if rng.random() < 0.06:
        for _ in range(rng.randrange(4, 9)):
            words += [rng.choice([',', ';', ':', '-', '"', '(', ')', 'and', 'and'])] + clause(rng)
    if rng.random() < 0.05:
        words = [w.upper() for w in words]
    text = ' '.join(words)
    if rng.random() < 0.7 and text:
        text = text[0].upper() + text[1:]
    return text + rng.choice(['.', '.', '.', '!', '?', '...', ':', '', '?!', '."', ' .'])


def text(rng, max_sents=3):
    r = rng.random()
    if r < 0.05:
        return rng.choice(['', ' ', '\n', '.', '!', '"', '()', '\t\n', '¶', "'", '-', '"" ()'])
    sents = [sentence(rng) for _ in range(rng.randint(1, max_sents))]
    out = sents[0]
    for s in sents[1:]:
        out += rng.choice([' ', ' ', ' ', '  ', '\n', '\n\n', '\r\n', '\t']) + s
    return out


def variant(rng, base):
    """A near-duplicate of a text: same start, other casing, one word changed, other quote content"""
    r = rng.randrange(6)
    if r == 0:
        return base.swapcase()
    if r == 1:
        return base + ' ' + sentence(rng, 0)
    if r == 2:
        words = base.split(' ')
        words[rng.randrange(len(words))] = rng.choice(v.NOUNS + v.VERBS)
        return ' '.join(words)
    if r == 3:
        return base.lower()
    if r == 4:
        return base.upper()
    return base


def batch(rng, n, max_sents=3):
    out = []
    for _ in range(n):
        if out and rng.random() < 0.25:
            out.append(variant(rng, rng.choice(out)))
        else:
            out.append(text(rng, max_sents))
    return out


def long_text(rng, nb_words):
    """One sentence of nb_words plain words with splitters thrown in"""
    words = []
    while len(words) < nb_words:
        words.append(rng.choice(v.NOUNS + v.VERBS + v.ADJS + v.DETS))
        if rng.random() < 0.08:
            words.append(rng.choice([':', ';', '-', '[', ']', '{', '}', '(', ')', ',']))
    return ' '.join(words) + '.'
