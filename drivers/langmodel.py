"""Loads real language models from generated n-gram files & records the answers to queries.
mode lookup: has_ngram, in, len, top_ngrams, best_ngram; mode context: best_token, next_word, TokenContext"""
from vlib.impl import *
from vlib import world
require_repo()
from scrappybara.langmodel.language_model import LanguageModel
from scrappybara.langmodel.token_context import TokenContext

VOC = ['a', 'b', 'c', 'd', 'e', 'cat', 'dog']
mode = P['mode']
out = Out()


def unscale(p):
    return int(round(p * 1e6))


def grams(o, n, voc):
    res = {}
    for _ in range(n):
        res[tuple(RNG.choice(voc) for _ in range(o))] = 1
    return list(res)


def q(fn, **rec):
    st, r = call(fn)
    if st == 'exc':
        return dict(rec, exc=r)
    return dict(rec, r=r)


def opt(x):
    return [] if x is None else [x]


def reading(rows, fields):
    """What a list says; then it is spoilt, as it belongs to the caller"""
    res = [fields(*r) for r in rows]
    if isinstance(rows, list) and RNG.random() < .5:
        rows.reverse()
        rows.append(('spoilt', 1, .5)[:len(rows[0]) if rows else 2])
    return res


MANY = [a + b + c for a in 'bcdfg' for b in 'aeiou' for c in 'lmnrstvwz'] + [a + b for a in 'klm' for b in 'aeiou']


def one(k):
    orders = RNG.choice([1, 2, 2, 3, 3, 4])
    big = k % 100 == 37
    voc = VOC[:RNG.randint(2, 7)] if not big else VOC + MANY
    tie = RNG.random() < .2
    rows = {}
    for o in range(1, 5):
        rs = []
        for g in grams(o, RNG.randint(0, [0, 8, 14, 18, 18][o]) if not big else [0, 900, 500, 200, 100][o], voc):
            rs.append((g, RNG.choice([1, 1, 2, 3, 5, 9, 30]), RNG.choice([7, 8]) * 1000 if tie else 0))
        rows[o] = rs
    ps = RNG.sample(range(1, 1000000), sum(len(r) for r in rows.values()))
    for o in rows:
        rows[o] = [(g, c, p or ps.pop()) for g, c, p in rows[o]]
        if RNG.random() < .5:
            rows[o].sort(key=lambda x: -x[2])
    root = world.new_data_dir('lm%d' % k, english=False)
    world.write_grams(root, {o: [(' '.join(g), c, p) for g, c, p in rs] for o, rs in rows.items() if o <= orders or RNG.random() < .5})
    world.use_data_dir(root)
    mins = [RNG.choice([1, 1, 1, 2, 3, 6]) for _ in range(orders)]
    case = {'rows': [[{'g': list(g), 'c': c, 'p': p} for g, c, p in rows[o]] for o in range(1, 5)], 'mins': mins,
            'qs': []}
    st, lm = call(LanguageModel, *mins)
    if st == 'exc':
        out.put(exc=lm, **case)
        return
    qs = case['qs']
    known = [g for o in range(1, 5) for g, _, _ in rows[o]]

    def some_gram(o=None):
        if known and RNG.random() < .7:
            c = [g for g in known if o is None or len(g) == o]
            if c:
                return RNG.choice(c)
        return tuple(RNG.choice(VOC + ['zzz', 'Cat', 'A']) for _ in range(o or RNG.randint(1, 4)))

    def ctx():
        return [RNG.choice(voc + ['zzz', 'A', ',']) for _ in range(RNG.randint(0, 4))]
    toksets, ctxs, nexts = [], [], []      # asked about again and again in other company
    for _ in range(14):
        if mode == 'lookup':
            op = RNG.choice(['len', 'in', 'has', 'has', 'top', 'top', 'best', 'best'])
            if op == 'len':
                qs.append(q(lambda: len(lm), op=op))
            elif op == 'in':
                g = some_gram()
                qs.append(q(lambda: (' '.join(g)) in lm, op=op, g=list(g)))
            elif op == 'has':
                g = some_gram()
                m = RNG.choice([-1, 0, 1, 2, 3, 5, 6, 9, 10, 30, 31])
                if RNG.random() < .3:
                    qs.append(q(lambda: bool(lm.has_ngram(' '.join(g))), op=op, g=list(g), min=1))
                else:
                    qs.append(q(lambda: bool(lm.has_ngram(' '.join(g), m)), op=op, g=list(g), min=m))
            elif op == 'top':
                o = RNG.randint(1, 4)
                lim = RNG.choice([None, 0, 1, 2, 5, 100])
                qs.append(q(lambda: reading(lm.top_ngrams(o, lim), lambda t, c, p: {'g': t.split(' '), 'c': c, 'p': unscale(p)}),
                            op=op, order=o, limit=-1 if lim is None else lim))
            else:
                gs = [some_gram() for _ in range(RNG.randint(1, 4))]
                qs.append(q(lambda: [x.split(' ') for x in opt(lm.best_ngram(*[' '.join(g) for g in gs]))], op=op,
                            gs=[list(g) for g in gs]))
        else:
            op = RNG.choice(['token', 'token', 'next', 'windows'])
            if op == 'token':
                toks = RNG.sample(VOC + ['zzz', 'Cat'], RNG.randint(1, 4))
                if toksets and RNG.random() < .5:
                    toks = RNG.choice(toksets)
                toksets.append(toks)
                b, a = [RNG.choice(ctxs) if ctxs and RNG.random() < .4 else ctx() for _ in range(2)]
                ctxs += [b, a]
                kw = {}
                if b or RNG.random() < .5:
                    kw['before'] = ' '.join(b)
                if a or RNG.random() < .5:
                    kw['after'] = ' '.join(a)
                qs.append(q(lambda: opt(lm.best_token(*toks, **kw)), op=op, toks=toks, before=b, after=a))
            elif op == 'next':
                t = ctx()
                if known and RNG.random() < .6:
                    t = ctx()[:2] + list(RNG.choice(known))[:-1]
                if t and RNG.random() < .15:
                    t[-1] = t[-1].capitalize()
                if nexts and RNG.random() < .4:
                    t = RNG.choice(nexts)
                nexts.append(t)
                lim = RNG.choice([None, None, 0, 1, 2, 3])
                qs.append(q(lambda: reading(lm.next_word(' '.join(t), limit=lim), lambda w, p: {'w': w, 'p': unscale(p)}), op=op,
                            toks=t if t else [''], limit=-1 if lim is None else lim))
            else:
                b = ['b%d' % i for i in range(RNG.randint(0, 5))]
                a = ['a%d' % i for i in range(RNG.randint(0, 5))]
                o = RNG.randint(2, 5)
                qs.append(q(lambda: [x.split(' ') for x in TokenContext('t', b, a).candidates(o)], op=op, tok='t',
                            before=b, after=a, order=o))
    out.put(**case)


for k in range(scale(800, 9000)):
    one(k)
out.close()
