"""Histories of a (scratch) data folder: real builds & loads of language models"""
import contextlib
import io
from vlib.impl import *
from vlib import world
from fractions import Fraction
require_repo()
from scrappybara.langmodel.language_model import LanguageModel
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
from scrappybara.langmodel.mkn_smoother import ModifiedKneserNeyNotEnoughDataError

VOC = ['a', 'b', 'c', 'd', 'cat', 'dog', 'I', 'Paris', 'x1', 'e']
NAMES = {'mkn': 'modified_kneser_ney', 'mle': 'maximum_likelihood_estimation'}
out = Out()


def s15(p):
    v = round(Fraction(p) * 10 ** 15)
    neg, v = v < 0, abs(v)
    limbs = []
    while v:
        limbs.append(v % 1000)
        v //= 1000
    return {'neg': neg, 'mag': limbs}


def row(t, c, p):
    return {'g': [codes(x) for x in t.split(' ')], 'count': int(c), 'p': s15(p)}


def read_files(root):
    res = []
    for o in range(1, 5):
        try:
            with open('%s/langmodel/%d_grams.txt' % (root, o), encoding='utf-8') as f:
                res.append([row(*line.rstrip('\n').split('\t')) for line in f])
        except FileNotFoundError:
            res.append([])
    return res


def texts(last, rich):
    res = []
    for m in ((1, 2, 3, 4, 1, RNG.randint(1, 5)) if rich else [1] * RNG.randint(0, 5)):
        s = ' '.join(RNG.choice(VOC[:8 if rich else 10]) for _ in range(RNG.randint(last, last + 3)))
        res += [s] * m
    RNG.shuffle(res)
    if RNG.random() < .15:
        return res + [' '.join(RNG.choice(VOC[:3]) for _ in range(9))] * RNG.randint(3, 9)
    grouped = []
    while res:
        k = RNG.randint(1, 4)
        part, res = res[:k], res[k:]
        grouped.append(''.join(x + RNG.choice(['. ', '\n', '? ', ' . ']) for x in part))
    for _ in range(RNG.choice([0, 0, 1, 2])):
        grouped.insert(RNG.randint(0, len(grouped)), RNG.choice(['', ' ', '\n', '.']))
    return grouped


class Broken(Exception):
    pass


def reader(ts, broken):
    yield from ts
    if broken:
        raise Broken()


def build(builders, method, last, nproc, ts, broken):
    """A builder can be used again"""
    with contextlib.redirect_stdout(io.StringIO()):
        if (method, last, nproc) not in builders:
            builders[method, last, nproc] = LanguageModelBuilder(last, NAMES[method], nproc)
        try:
            builders[method, last, nproc](reader(ts, broken))
            return 'built'
        except ModifiedKneserNeyNotEnoughDataError:
            return 'refused'
        except Broken:
            return 'broken'


for k in range(scale(34, 220)):
    root = world.new_data_dir('b%d' % k, english=False)
    world.use_data_dir(root)
    events, builders, used = [], {}, []
    for j in range(RNG.randint(1, 3) if k % 5 != 2 else 3):
        method = RNG.choice(['mkn', 'mkn', 'mle'])
        last = RNG.choice([2, 3]) if method == 'mkn' else RNG.randint(1, 4)
        nproc = RNG.randint(1, 4)
        if used and RNG.random() < .5:
            method, last, nproc = RNG.choice(used)
        used.append((method, last, nproc))
        broken = j > 0 and RNG.random() < .25
        ts = texts(last, method == 'mkn' and RNG.random() < .85)
        if j and k % 5 == 2:       # a later corpus without n-grams of the higher orders
            method, last, broken = 'mle', RNG.randint(2, 4), False
            ts = [RNG.choice(['a.', 'b c.', 'Paris a.', 'd. a!', 'x1', '', 'I']) for _ in range(RNG.randint(0, 4))]
        if k == 3:  # Small probabilities
            method, last, nproc, broken = 'mle', 1, 4, False
            ts = [' '.join(['a'] * 40)] * 150 + ['b c', '', 'c']
        if k == 7 and not j:       # many texts
            method, last, nproc, broken = 'mle', 2, 2, False
            ts = [' '.join(RNG.choice(VOC) for _ in range(RNG.randint(1, 4))) for _ in range(450)]
        if k == 11 and not j:      # many words
            method, last, nproc, broken = 'mle', 1, 3, False
            ts = [' '.join(RNG.choice('abcdefghij') + RNG.choice('abcdefghij') + RNG.choice('abcdefghij') for _ in range(8)) + '.' for _ in range(120)]
        ev = {'op': 'build', 'method': method, 'last': last, 'nproc': nproc, 'broken': broken, 'texts': [codes(t) for t in ts], 'show': ts}
        st, r = call(build, builders, method, last, nproc, ts, broken, limit=60)
        st2, files = call(read_files, root)
        events.append(dict(ev, exc=str((r, files))[:300]) if 'exc' in (st, st2) else dict(ev, r=r, files=files))
        have = [o for o in range(1, 5) if os.path.exists('%s/langmodel/%d_grams.txt' % (root, o))]
        for _ in range(2):
            orders = RNG.randint(1, len(have)) if have and have == list(range(1, len(have) + 1)) else 0
            if orders:
                mins = [RNG.choice([1, 1, 2, 3]) for _ in range(orders)]
                st, lm = call(LanguageModel, *mins)
                if st == 'ok':
                    st, r = call(lambda: ([[row(*x) for x in lm.top_ngrams(o)] for o in range(1, orders + 1)], len(lm)))
                if st == 'ok':
                    events.append({'op': 'load', 'mins': mins, 'top': r[0], 'len': r[1]})
                else:
                    events.append({'op': 'load', 'mins': mins, 'exc': str(lm)[:200]})
    for _ in range(3):
        m, last = RNG.choice(['modified_kneser_ney', 'maximum_likelihood_estimation', 'none', 'mkn']), RNG.randint(1, 3)
        try:
            LanguageModelBuilder(last, m, 1)
            r = 'ok'
        except Exception as e:
            r = type(e).__name__
        events.append({'op': 'make', 'method': m, 'last': last, 'r': r})
    out.put(events=events)
out.close()
