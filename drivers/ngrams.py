"""Real extraction, store and smoothers on generated corpora. mode: extract | mle | mkn"""
from fractions import Fraction
from vlib.impl import *
require_repo()
from scrappybara.langmodel.ngrams_extraction import extract_ngrams
from scrappybara.langmodel.ngram_store import NgramStore
from scrappybara.langmodel.mle_smoother import MLESmoother
from scrappybara.langmodel.mkn_smoother import MKNSmoother, ModifiedKneserNeyNotEnoughDataError

VOC = ['a', 'b', 'c', 'd', 'e', 'cat', 'dog', 'I', 'iPhone', 'x']
BAD = ['', 'A', 'Paris', '1', 'a1', "n't", '.', 'a-b', 'caf\u00e9', 'II', ',', '\u00e9', 'z_z']


def s15(p):
    v = round(Fraction(float(p)) * 10 ** 15)
    neg, v = v < 0, abs(v)
    limbs = []
    while v:
        limbs.append(v % 1000)
        v //= 1000
    return {'neg': neg, 'mag': limbs}


def sent(voc, lo, hi, bad):
    return [RNG.choice(BAD) if RNG.random() < bad else RNG.choice(voc) for _ in range(RNG.randint(lo, hi))]


def corpus_any():
    return [sent(VOC[:RNG.randint(1, 10)], 0, 7, .2) for _ in range(RNG.randint(0, 6))]


def corpus_rich(last, tries=60):
    """Corpus whose n-grams of every order have counts 1 to 4"""
    res = []
    for _ in range(tries):
        voc = VOC[:RNG.randint(4, 10)]
        res = []
        for m in (1, 2, 3, 4, RNG.choice([1, 2, 3, 4, 5, 6, 40]), RNG.randint(1, 3)):
            res += [sent(voc, last, last + 3, .04)] * m
        RNG.shuffle(res)
        if rich(res, last):
            return res
    return res


def corpus_big(kind):
    """Long sentences, many sentences, many repetitions or many distinct words"""
    kind %= 6
    if kind == 0:
        return RNG.randint(1, 4), [sent(VOC[:4], 60, 120, .03)]
    if kind == 1:
        return RNG.randint(1, 3), [sent(VOC[:3], 2, 4, 0)] * RNG.randint(260, 400)
    if kind == 2:
        ws = [x + y + z for x in 'abcdefghijk' for y in 'abcdefghij' for z in 'abcdefghij']
        RNG.shuffle(ws)
        return 1, [ws[i:i + 9] for i in range(0, len(ws), 9)] + [ws[:5]] * 3
    if kind == 3:
        return RNG.randint(2, 3), [sent(VOC[:3], 600, 1300, .01)]
    if kind == 4:
        return RNG.randint(1, 2), [sent(VOC[:6], 1, 3, .1) for _ in range(RNG.choice([700, 1100]))]
    return RNG.randint(2, 6), [sent(VOC[:5], 1, 9, .1) for _ in range(60)]


def rich(sents, last):
    import collections
    for n in range(2, last + 1):
        c = collections.Counter()
        for s in sents:
            for i in range(len(s) - n + 1):
                w = s[i:i + n]
                if all(x in VOC for x in w):
                    c[' '.join(w).lower()] += 1
        if not {1, 2, 3, 4} <= set(c.values()):
            return False
    return True


def gram(t):
    return [codes(x) for x in t.split(' ')]


mode = P['mode']
out = Out()
n = {'extract': scale(500, 6000), 'mle': scale(250, 2500), 'mkn': scale(160, 1600)}[mode]
for k in range(n):
    last = RNG.choice([1, 2, 3, 4, 1, 2, 3, 4, 5, 6]) if mode != 'mkn' else RNG.choice([2, 2, 3, 3, 4, 5])
    sents = corpus_rich(last) if mode == 'mkn' and k % 8 else corpus_any()
    if mode != 'mkn' and k % 60 == 1:
        last, sents = corpus_big(k // 60)
    nproc = RNG.choice([1, 1, 2, 3, 4, 7, 16, 33])
    times = None
    if mode == 'mle' and k % 60 == 31 or mode == 'mkn' and k % 5 == 3:   # sentences that occur very often
        sents = [s for i, s in enumerate(sents) if s not in sents[:i]] or [['a', 'b']]
        if mode == 'mle':
            times = [RNG.choice([1, 2, 300, 3000, 33000, 70000]) for _ in sents]
            times[RNG.randrange(len(times))] = RNG.choice([33000, 70000])
        else:
            times = [(1, 2, 3, 4, 1, 2, 300)[i] if i < 7 else 1 for i in range(len(sents))]
            times[RNG.randrange(len(times))] = RNG.choice([60, 300, 1100])
    case = dict(sents=[[codes(t) for t in s] for s in sents], last=last, method=mode,
                show={'sentences': sents, 'last_order': last, 'workers': nproc, 'method': mode})

    if times:
        case['times'] = case['show']['times'] = times

    def run():
        grams = [extract_ngrams(sents, o) for o in range(1, last + 1)]
        if mode == 'extract':
            return grams, [[] for _ in grams]
        store = NgramStore()
        for o in range(1, last + 1):
            for x, m in zip(sents, times or [1] * len(sents)):
                for g in extract_ngrams([x], o):
                    for _ in range(m):
                        store.make_ngram(g)
        sm = (MLESmoother if mode == 'mle' else MKNSmoother)(store.ngrams, last, nproc)()
        return grams, [[(x.text, x.count, x.proba) for x in sm.ngrams(o)] for o in range(1, last + 1)]

    def guarded():
        try:
            return run()
        except ModifiedKneserNeyNotEnoughDataError:
            return 'refused'

    st, r = call(guarded, limit=30)
    if st != 'ok':
        out.put(exc=r, **dict(case, show=dict(case['show'], observed=r)))
    elif r == 'refused':
        out.put(refused=1, grams=[[gram(x) for x in extract_ngrams(sents, o)] for o in range(1, last + 1)], **case)
    else:
        case['show']['observed'] = r[1] if mode != 'extract' else r[0]
        out.put(grams=[[gram(x) for x in g] for g in r[0]],
                obs=[[{'g': gram(t), 'count': int(c), 'p': s15(p)} for t, c, p in o] for o in r[1]], **case)
out.close()
