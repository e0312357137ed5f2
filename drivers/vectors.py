"""Numeric encoding of sentences, masks, character and word tables."""
from vlib.impl import *
require_repo()
import pickle
import numpy as np
from vlib import world
from scrappybara.syntax import training_samples as ts
from scrappybara.syntax.charset import Charset
from scrappybara.syntax.wordset import Wordset

out = Out()
root = world.new_data_dir('vectors', english=False)
world.use_data_dir(root)
CHARS_FILE = os.path.join(root, 'models', 'char_codes.pkl')
WORDS_FILE = os.path.join(root, 'models', 'word_vectors.pkl')

WORDS = ['the', 'cat', 'a', 'i', "n't", 'x-y', 'run', 'ʃʃʃ', 'ʄʄʄ', 'abcdefghijklmnopqrst', 'bcdefghijklmnopqrstu', 'abcdefghijklmnopqrstuv',
         '3.14', '..', 'é', 'word', 'zzz', 'unk', '<unk>', '0']
VEC = {w: k + 1 for k, w in enumerate(WORDS)}


def vector(k):
    v = np.array([((k * 31 + i * 7) % 97) / 9.7 - 5 for i in range(100)], dtype=np.float32)
    v[0] = k
    return v


def write_tables(charmap, words):
    with open(CHARS_FILE, 'wb') as f:
        pickle.dump(charmap, f)
    with open(WORDS_FILE, 'wb') as f:
        table = {w: vector(VEC[w]) for w in words}
        for w in words:
            if w.upper() != w and RNG.random() < .5:
                table[w.upper()] = vector(RNG.randint(1, len(WORDS)))       # capitals are never looked up
        pickle.dump(table, f)


with open(CHARS_FILE, 'rb') as f:
    SHIPPED = pickle.load(f)


def word_id(row):
    if not row.any():
        return 0
    for k in range(1, len(WORDS) + 1):
        if np.array_equal(row, vector(k)):
            return k
    return -1


ALPHA = list('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,-\'"#$%()') + ['é', '中', '🙂', '†', '‡', 'ʃ', 'ʄ', '\u200b', '—', '£']


def token():
    r = RNG.random()
    if r < .35:
        w = RNG.choice(WORDS)
        return w if RNG.random() < .5 else w.upper() if RNG.random() < .5 else w.capitalize()
    n = RNG.choice([1, 1, 2, 3, 5, 9, 18, 19, 20, 21, 22, 23, 40, 60]) if r < .9 else RNG.randint(1, 70)
    return ''.join(RNG.choice(ALPHA) for _ in range(n))


def encode(tokens, charmap, words, label):
    cs, ws = Charset().load(), Wordset().load()
    given = list(tokens)
    st, r = call(ts.vectorize_sentence, given, cs, ws)
    used = {c for t in tokens for c in t} | set('†‡ʃʄ')
    case = {'op': 'vectors', 'tokens': [codes(t) for t in tokens], 'cmap': [[ord(c), charmap[c]] for c in used if c in charmap],
            'unk': max(charmap.values()) + 1, 'vocab': [[codes(w), VEC[w]] for w in words],
            'show': {'op': 'vectorize_sentence', 'tokens': tokens, 'tables': label}}
    if st == 'ok':
        try:
            n, chars, vecs = r
            chars, vecs = np.asarray(chars), np.asarray(vecs)
            if given != tokens:
                raise ValueError('the list of tokens was changed')
            case.update({'n': int(n), 'cshape': list(chars.shape), 'wshape': list(vecs.shape), 'chars': [[int(x) for x in row] for row in chars],
                         'words': [word_id(row) for row in vecs], 'kinds': [chars.dtype.kind, vecs.dtype.kind]})
            case['show']['lens'] = [len(tokens), int(n)]
        except Exception as e:
            case['exc'] = str(e)
    else:
        case['exc'] = str(r).split(':')[0]
    case['show']['exc'] = case.get('exc')
    out.put(**case)


for conf in range(scale(6, 30)):
    if conf == 0:
        charmap, words = dict(SHIPPED), list(WORDS)
    else:
        chars = [c for c in ALPHA if RNG.random() < .7 or c in '†‡ʃʄ']
        RNG.shuffle(chars)
        step = RNG.choice([1, 1, 3, 11, 700])
        charmap = {c: k * step for k, c in enumerate(chars)}
        words = [w for w in WORDS if RNG.random() < .7] or ['the']
    write_tables(charmap, words)
    for n in ([0, 1, 2, 49, 50, 51, 52, 53, 60] if conf < 2 else []) + [RNG.choice([0, 1, 3, 7, 12, 30, 48, 49, 50, 51]) for _ in range(scale(8, 25))]:
        encode([token() for _ in range(n)], charmap, words, conf)
    encode(['w' * k for k in range(1, 40)], charmap, words, conf)
    encode(WORDS + [w.upper() for w in WORDS if w != 'é'], charmap, words, conf)

for _ in range(scale(60, 600)):
    a, b = RNG.randrange(52), RNG.randrange(52)
    st, r = call(ts.make_masks, a, b)
    case = {'op': 'masks', 'a': a, 'b': b, 'show': {'op': 'make_masks', 'a': a, 'b': b}}
    if st == 'ok':
        try:
            m1, m2 = [list(m) for m in r]
            case.update({'l1': len(m1), 'l2': len(m2), 'm1': [k for k, x in enumerate(m1) if x], 'm2': [k for k, x in enumerate(m2) if x]})
        except Exception as e:
            case['exc'] = str(e)
    else:
        case['exc'] = str(r)
    out.put(**case)

# Tables that are saved by the code itself
def saved_chars():
    Charset().save()
    cs = Charset().load()
    probes = sorted(set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789†‡ʃʄ') | set('`~!@#$£€%^&*()-_=+[{]}\\|;:\'",<.>/?'))
    return [int(cs[c]) for c in probes], [int(cs[c]) for c in ['é', '中', '🙂', '\u200b', 'ab', '']], len(cs)


st, r = call(saved_chars)
out.put(op='charset', show={'op': 'Charset.save/load', 'result': r}, **({'known': r[0], 'unknown': r[1], 'size': r[2]} if st == 'ok' else {'exc': str(r)}))


class LM(object):

    def __init__(self, words):
        self.words = words

    def has_ngram(self, w, min_count=1):
        return w in self.words

    def __contains__(self, w):
        return w in self.words


for k in range(scale(4, 20)):
    glove = [w for w in WORDS if RNG.random() < .8]
    lm = [w for w in WORDS if RNG.random() < .6]

    def saved_words():
        folder = os.path.join(P['scratch'], 'glove%d' % k)
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, 'glove.6B.100d.txt'), 'w', encoding='utf-8') as f:
            for w in glove:
                f.write(w + ' ' + ' '.join('%r' % float(x) for x in vector(VEC[w])) + '\n')
        Wordset().save(folder, LM(lm))
        ws = Wordset().load()
        return [word_id(np.asarray(ws[w], dtype=np.float32)) for w in WORDS], len(ws), word_id(np.asarray(ws['nope'], dtype=np.float32))

    st, r = call(saved_words)
    out.put(op='wordset', glove=[VEC[w] for w in glove], lm=[VEC[w] for w in lm], n=len(WORDS),
            show={'op': 'Wordset.save/load', 'glove': glove, 'lm': lm, 'result': r},
            **({'got': r[0], 'size': r[1], 'unk': r[2]} if st == 'ok' else {'exc': str(r)}))
out.close()
