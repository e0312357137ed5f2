"""Word tests, text marks and grouping helpers."""
import itertools
from vlib.impl import *
require_repo()
from scrappybara.utils import text as T, mutables as M, maths

out = Out()
WORDS = ['a', 'A', 'ab', 'aB', 'Ab', 'ABC', 'word', 'wOrd', '1', 'a1', '1a', 'x-y', 'un-do-it', 'co-op', '-x', 'x-', '-', 'caf\u00e9', '\u0130', '\u00c9a', 'a b', ' a', 'a ', 'a\n', '\na', "n't", 'ſ', 'ﬁ', '\u0391', 'İx',
         'running', 'stopp', 'ebb', 'egg', 'add', 'yyy', 'ayy', 'odd', 'sPP', 'aBB', 'app1', 'bpp', 'baa', 'pp', 'p', 'redo', 'rerun', 'undo', 'misread', 'outrun', 'coexist', 'sub', 're', 'grandson', 'Redo', 'a_b', 'K', 'qz', 'y', 'by', 'lily', '\u2014']
PREF = ['re', 'un', 'mis', 'dis', 'out', 'co', 'sub', 'grand']


def word():
    return RNG.choice(WORDS) if RNG.random() < .5 else ''.join(RNG.choice('abetpyABE1-s\u00e9 ') for _ in range(RNG.randint(1, 7) if RNG.random() < .93 else RNG.choice([12, 20, 45])))


def plain():
    return ''.join(RNG.choice('abAB1 ,-.)\u00e9:') for _ in range(RNG.randint(0, 6) if RNG.random() < .95 else 30))


def opt(fn=plain):
    return None if RNG.random() < .2 else fn()


NONE = [-1]


def c(x):
    return NONE if x is None else codes(x)


def cs(x):
    return [NONE] if x is None else [c(y) for y in x]


def do(op, fn, conv, **case):
    st, r = call(fn)
    if st == 'ok':
        st, r = call(conv, r)
    return dict(op=op, exc=st != 'ok', res=r, **case)


def boolean(x):
    if not isinstance(x, bool):
        raise TypeError('%r is no boolean' % (x,))
    return x


def tests(w):
    yield do('letters', lambda: T.has_only_letters(w), boolean, w=c(w))
    yield do('lower', lambda: T.has_only_lowercase_letters(w), boolean, w=c(w))
    if w:
        yield do('capital', lambda: T.starts_with_uppercase_letter(w), boolean, w=c(w))
        yield do('consonant', lambda: T.ends_with_consonant(w), boolean, w=c(w))
    yield do('doubled', lambda: T.vowel_double_consonant_endings(w), cs, w=c(w))
    e, m = RNG.choice([w[-1:] or 'a', w[-2:] or 's', w or 'x', 'ed', 'ing', 's', 'es', 'x' + w]), RNG.choice([0, 1, 1, 2, 3, 4])
    yield do('start', lambda: T.token_start(w, e, m), c, w=c(w), e=c(e), min=m)
    ps = RNG.sample(PREF, RNG.randint(0, len(PREF))) + RNG.sample(['r', 'u', w[:2] or 'q', w or 'q'], 2)
    ps = [p for p in ps if p]
    ps = [p for i, p in enumerate(ps) if not any(p.startswith(q) or q.startswith(p) for q in ps[:i])]  # at most one applies
    yield do('prefix', lambda: T.token_prefix(w, RNG.choice([list, tuple, set])(ps)), cs, w=c(w), ps=[c(p) for p in ps])


def marks():
    n, args = plain().replace('(', ''), [opt() for _ in range(RNG.choice([0, 1, 1, 2, 3, 5]) if RNG.random() < .95 else RNG.choice([11, 40]))]
    yield do('function', lambda: T.functionalize(n, *args), c, w=c(n), ws=[c(a) for a in args])
    a = plain()
    yield do('unfunction', lambda: T.defunctionalize(T.functionalize(n, a)), cs, w=c(n), ws=[c(a)])
    yield do('associate', lambda: T.associate(*args), c, ws=[c(x) for x in args])
    t = T.associate(*[opt() for _ in range(RNG.choice([0, 1, 2, 2, 2, 3]))]) if RNG.random() < .5 else '\u01c1'.join(plain() for _ in range(RNG.choice([1, 2, 2, 2, 3])))
    yield do('dissociate', lambda: T.dissociate(t), cs, w=c(t))
    w = plain()
    yield do('attach', lambda: T.attach_attributes(w, *args), c, w=c(w), ws=[c(x) for x in args])
    t = '\u00bb'.join(plain() for _ in range(RNG.choice([1, 2, 3, 6])))
    yield do('detach', lambda: T.detach_attributes(t), cs, w=c(t))


def groups():
    kind = RNG.choice([lambda: RNG.randint(1, 4), lambda: RNG.choice(['x', 'yy', 'xy', 'yx', ''])])
    hist = [[RNG.choice('abcde'), kind()] for _ in range(RNG.choice([0, 1, 2, 5, 12]) if RNG.random() < .95 else RNG.choice([60, 300]))]

    def run(add):
        d = {}
        for k, v in hist:
            add(d, k, v)
        return d

    conv = lambda d: [[k, list(v)] for k, v in d.items()]
    yield do('lists', lambda: run(M.append_to_dict_list), conv, hist=hist)
    yield do('sets', lambda: run(M.add_in_dict_set), lambda d: [[k, sorted(v)] for k, v in d.items()], hist=hist)
    h2 = [[RNG.choice('abc') + RNG.choice('xyz'), v] for _, v in hist]

    def nested():
        d = {}
        for k, v in h2:
            M.append_in_dict_dict_list(d, k[0], k[1], v)
        return {a + b: v for a, x in d.items() for b, v in x.items()}
    yield do('lists', nested, conv, hist=h2)
    one = [[k, i % RNG.choice([2, 3, 99])] for i, k in enumerate(dict.fromkeys(RNG.sample('abcdefgh', RNG.randint(0, 8))))]
    yield do('reverse', lambda: M.reverse_dict({k: v for k, v in one}), lambda d: [[k, v] for k, v in d.items()], hist=one)


for w in WORDS + [''.join(x) for n in (1, 2, 3) for x in itertools.product('atYe-', repeat=n)]:
    ops = list(tests(w))
    out.put(ops=ops, show={'word': w, 'ops': ops})
for _ in range(scale(1500, 20000)):
    w = word()
    ops = list(tests(w))
    out.put(ops=ops, show={'word': w, 'ops': ops})
for _ in range(scale(500, 8000)):
    ops = list(marks()) + list(groups())
    out.put(ops=ops, show=ops)
for n in range(2, 7):
    ops = [do('xnor', lambda: maths.xnor(*bs), boolean, bs=list(bs)) for bs in itertools.product([True, False], repeat=n)]
    out.put(ops=ops, show=ops)
out.close()
