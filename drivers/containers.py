"""Sequences of reads of arguments, tuples, sentences and documents."""
from vlib.impl import *
require_repo()
from scrappybara.pipeline.document import Document
from scrappybara.pipeline.sentence import Sentence
from scrappybara.semantics.argument import Argument
from scrappybara.semantics.semantic_tuple import SemanticTuple

out = Out()
CODES = list('ACLINOPRSTU')
WORDS = ['dog', 'be', 'eat up', 'NOT', 'not go', 'i', 'x, y', 'a (b)', 'New York', '', "n't", 'zzz', ' ', ' dog', 'eat  up ', 'Élan', '3']
WRONG = ['X', 'a', 'n', '', 'NT', 'NOUN', 'ADJ', ' N', 'N ', 'Z', 'B', '1', 'TI']


def arg():
    return {'w': RNG.choice(WORDS), 'c': RNG.choice(CODES), 'a': RNG.random() < .6}


def make(a):
    return Argument(a['w'], a['c']) if a['a'] and RNG.random() < .5 else Argument(a['w'], a['c'], a['a']) if RNG.random() < .5 else Argument(a['w'], a['c'], is_affirmative=a['a'])


def put(kind, fn, **case):
    events = []
    st, r = call(fn, events)
    if st == 'ok':
        out.put(show=dict(case, events=events), events=events, **case)
    else:
        out.put(show=dict(case, events=events, exc=r), exc=r, **case)


def bools(x):
    if not isinstance(x, bool):
        raise TypeError('%r is no boolean' % (x,))
    return x


def dec(fn):
    """Read with and without decorators, in the ways the documentation shows"""
    d = RNG.random() < .5
    r = (fn() if RNG.random() < .5 else fn(True)) if d else (fn(False) if RNG.random() < .5 else fn(with_decorators=False))
    return {'dec': d, 'res': r}


# arguments
for c in CODES + WRONG:
    def new(ev, c=c):
        for aff in (True, False):
            try:
                Argument('w', c, aff)
                ev.append({'op': 'new', 'code': c, 'res': 'made'})
            except Exception as e:
                ev.append({'op': 'new', 'code': c, 'res': 'refused'})
    put('new', new)
for k in range(scale(400, 8000)):
    a = arg()

    def reads(ev):
        x = make(a)
        for _ in range(RNG.randint(1, 12)):
            op = RNG.choice(['tag', 'flatten', 'str', 'repr', 'fields', 'fields'])
            if op == 'tag':
                ev.append({'op': 'tag', 'res': x.tag})
            elif op == 'flatten':
                ev.append(dict(op='argtext', **dec(x.flatten)))
            elif op == 'str' or op == 'repr':
                ev.append({'op': 'argtext', 'dec': True, 'res': str(x) if op == 'str' else repr(x)})
            else:
                ev.append({'op': 'fields', 'res': [x.word, x.code], 'aff': bools(x.is_affirmative)})
    put('argument', reads, arg=a)

# tuples
for k in range(scale(600, 12000)):
    args = [arg() for _ in range(RNG.choice([0, 1, 2, 2, 3, 3, 3, 4, 5, 5, 6, 8]) if RNG.random() < .97 else RNG.choice([17, 40]))]

    def reads(ev):
        xs = [make(a) for a in args]
        if len(xs) > 1 and RNG.random() < .2:
            xs[1] = xs[0]       # the same argument twice
            args[1] = args[0]
        t = SemanticTuple(*xs)
        at = lambda x: next((i + 1 for i, y in enumerate(xs) if y is x), -1)
        first = {}
        for i, y in enumerate(xs):
            first.setdefault(id(y), i + 1)

        def place(seq):
            """Positions, told from the objects themselves"""
            seq = list(seq)
            return [i + 1 if i < len(xs) and x is xs[i] else -at(x) for i, x in enumerate(seq)]
        for _ in range(RNG.randint(1, 12) if RNG.random() < .97 else 60):
            op = RNG.choice(['len', 'code', 'flatten', 'str', 'repr', 'iter', 'arg', 'arg', 'has', 'has'])
            if op == 'len':
                ev.append({'op': 'len', 'res': len(t)})
            elif op == 'code':
                ev.append({'op': 'code', 'res': t.code})
            elif op == 'flatten':
                ev.append(dict(op='text', **dec(t.flatten)))
            elif op in ('str', 'repr'):
                ev.append({'op': 'text', 'dec': True, 'res': str(t) if op == 'str' else repr(t)})
            elif op == 'iter':
                it = iter(t)
                if RNG.random() < .3 and xs:
                    next(it)        # an iteration left unfinished
                    it = iter(t)
                ev.append({'op': 'iter', 'res': place(it)})
            elif op == 'arg':
                i = RNG.randrange(len(xs) + 1)
                try:
                    x = t.arg(i)
                    r = i + 1 if i < len(xs) and x is xs[i] else -1
                except IndexError:
                    r = 0
                ev.append({'op': 'arg', 'idx': i, 'res': r})
            else:
                c = RNG.choice(CODES + WRONG[:4] + [''.join(a['c'] for a in args)[:2]])
                ev.append({'op': 'has', 'code': c, 'res': bools(t.has_any_arg_with_code(c))})
    put('tuple', reads, args=args)

# documents
for k in range(scale(300, 6000)):
    shape = [RNG.choice([0, 0, 1, 1, 2, 3, 5]) for _ in range(RNG.choice([0, 1, 2, 3, 6]) if RNG.random() < .95 else RNG.choice([40, 130]))]
    n = 0
    plan = []
    for s in shape:
        plan.append(list(range(n + 1, n + s + 1)))
        n += s
    if n > 1 and RNG.random() < .25:        # the same tuple told twice, in one sentence or two
        full = [p for p in plan if p]
        p = RNG.choice(full)
        p[RNG.randrange(len(p))] = RNG.choice(RNG.choice(full))

    def reads(ev):
        ts = [SemanticTuple(make(arg()), make(arg())) for _ in range(n)]
        num = {id(t): i + 1 for i, t in enumerate(ts)}
        d, other = Document(), Document()
        for p in plan:
            s = Sentence()
            if RNG.random() < .5:
                s.stuples = [ts[i - 1] for i in p]
            else:
                for i in p:
                    s.stuples.append(ts[i - 1])
            d.sentences.append(s)
        for _ in range(RNG.randint(1, 8)):
            op = RNG.choice(['sentences', 'iterdoc', 'stuples', 'stuples', 'other'])
            if op == 'sentences':
                ev.append({'op': op, 'res': [[num[id(t)] for t in s.stuples] for s in d.sentences]})
            elif op == 'iterdoc':
                ev.append({'op': op, 'res': [[num[id(t)] for t in s] for s in d]})
            elif op == 'stuples':
                r = d.stuples
                ev.append({'op': op, 'res': [num[id(t)] for t in r]})
                if isinstance(r, list):
                    r.append('SPOILT')
                    r.reverse()
            else:
                other.sentences.append(Sentence())       # another document changes nothing
                other.sentences[-1].stuples.append(ts[0] if ts else SemanticTuple())
    put('document', reads, doc=plan)
out.close()
