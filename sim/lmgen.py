"""Corpora for the language-model builder"""
import random

WORDS = ['the', 'cat', 'dog', 'sat', 'on', 'mat', 'a', 'red', 'hat', 'ran', 'big']

# Corpora with a bigram whose smoothed probability cancels out but for a rounding error of about 1e-18
CANCELLING = [
    ['dog the the the the the.', 'hat cat the dog the red the sat the the cat the mat the the. dog a cat the the dog the dog hat.',
     'the sat dog a!\nthe the sat cat the dog.'],
    ['the sat cat the\non the mat cat cat sat cat mat the', 'the on cat the the cat dog the. sat sat cat.',
     'cat the the the hat cat the dog. the the cat.'],
    ['dog dog the the sat the the on? the cat sat cat cat.', 'cat the. the the dog the?',
     'dog ran the cat the the cat cat. dog the cat the ran. the cat cat the dog the?'],
    ['dog red dog the the.\nthe cat cat the cat dog!\ndog the sat the the.',
     'dog a cat mat the red.\ndog the dog the dog cat the.',
     'cat sat the the dog the.\nthe the.\ndog the cat the the cat the the the.'],
    ['the sat sat red red.', 'hat cat the a the hat the the dog the sat mat the the on cat the cat the hat! the cat dog dog mat the on.',
     'the the sat the the the the the the?\nthe mat\nthe cat the sat dog the?'],
]


def corpus(rng, nb_texts, zipf=1.3, sents=6, noise=0.15):
    """Texts over a small vocabulary, so that n-grams repeat and every count class is populated"""
    weights = [1.0 / (i + 1) ** zipf for i in range(len(WORDS))]
    out = []
    for _ in range(nb_texts):
        parts = []
        for _ in range(rng.randint(1, sents)):
            ws = rng.choices(WORDS, weights, k=rng.randint(2, 9))
            if rng.random() < noise:
                ws.insert(rng.randrange(len(ws) + 1), rng.choice(['John', '42', 'I', 'e.g.', 'x-ray', ',', '(maybe)',
                                                                  '"so"', 'McX', "don't", '%', 'naïve', 'Paris']))
            s = ' '.join(ws)
            if rng.random() < noise:
                s = s[0].upper() + s[1:]
            parts.append(s + rng.choice(['.', '.', '!', '?', '']))
        out.append(rng.choice([' ', ' ', '\n']).join(parts))
    if rng.random() < 0.1:
        out.insert(rng.randrange(len(out) + 1), rng.choice(['', '\n', '...']))
    return out


def mass(seed, nb_words, nb_texts):
    """Texts over a vocabulary of about nb_words words, 12000 words in all"""
    rng = random.Random('mass/%d' % seed)
    words = [''.join(rng.choice('bcdfglmnprst') + rng.choice('aeiou') for _ in range(rng.choice([2, 3, 4]))) for _ in range(nb_words)]
    out = []
    for _ in range(nb_texts):
        left = 12000 // nb_texts
        sents = []
        while left > 0:
            n = rng.randint(3, 30)
            sents.append(' '.join(words[int(nb_words * rng.random() ** rng.choice([1, 1, 3]))] for _ in range(n)) + '.')
            left -= n
        out.append(' '.join(sents))
    return out
