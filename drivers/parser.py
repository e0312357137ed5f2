"""The real parser and tagger with scripted networks."""
from vlib.impl import *
require_repo()
import sys as _sys
from vlib import faketf, world
from vlib.faketf import W
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.parser import Parser
from scrappybara.syntax.tagger import Tagger
from scrappybara.syntax.transitions import Trans

out = Out()
root = world.new_data_dir('parser', english=False)
world.use_data_dir(root)
MODE = P['mode']
NAMES = {d.value: d.name for d in Dep}
CODES = {d.name: d.value for d in Dep}
TR = {t.name: t.value for t in Trans}


def tree_of(tree):
    if tree is None:
        return -1, []
    arcs = [[l.name, p, c] for l, p, c in tree]
    if not isinstance(tree.root, int) or any(not isinstance(x, int) for a in arcs for x in a[1:]):
        raise TypeError('bad tree %r %r' % (tree.root, arcs))
    return int(tree.root), [{'l': l, 'p': int(p), 'c': int(c)} for l, p, c in arcs]


def tags_of(tags):
    return [int(t) for t in tags]


class Scripted(faketf.Predictor):
    """Token tTTdDDnN: its tag and dependency; transitions from the script of the sentence"""

    def __init__(self):
        self.scripts = {}

    def tags(self, tokens):
        return [int(t[1:3]) for t in tokens]

    def deps(self, tokens):
        return [int(t[4:6]) for t in tokens]

    def trans(self, tokens, i, j):
        f = self.scripts.get(tuple(tokens))
        if f is None:
            W.bad('unknown sentence %r', tokens[:5])
            return 3
        return f(i, j)


if MODE in ('behaviours', 'oracle', 'random'):
    pred = W.predictor = Scripted()
    uid = [0]
    jobs = []  # (tokens, deps)

    def add(deps, script):
        tokens = []
        for d in deps:
            uid[0] += 1
            tokens.append('t%02dd%02dn%x' % (RNG.randint(0, 16), d, uid[0]))
        pred.scripts[tuple(tokens)] = script
        jobs.append((tokens, deps))

    def table(ts):
        d = {(t['i'], t['j']): TR[t['t']] for t in ts}
        return lambda i, j: d.get((i, j), (i + 2 * j) % 4)

    if MODE == 'random':
        for k in range(scale(350, 6000)):
            n = RNG.choice([0, 1, 2, 3, 5, 8, 13, 20, 34, 49, 50, 50])
            pool = RNG.choice([[1, 24], [1, 2, 24, 18], list(range(25)), [2], [24, 18, 3], [1, 1, 1, 24], list(range(1, 25)), [1]])
            w = RNG.choice([[1, 1, 1, 1], [5, 1, 1, 1], [1, 5, 1, 1], [1, 1, 5, 1], [1, 1, 1, 8], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0],
                            [0, 0, 0, 1], [3, 3, 0, 1], [0, 2, 3, 2], [3, 2, 3, 2]])
            salt = RNG.randrange(1 << 30)
            add([RNG.choice(pool) for _ in range(n)],
                (lambda w, salt: lambda i, j: random.Random(salt + i * 64 + j).choices([0, 1, 2, 3], w)[0])(w, salt))
    else:
        with open(P['behaviours']) as f:
            for line in f:
                b = json.loads(line)
                add([CODES[d] for d in b['deps']], table(b['ts']))
    faketf.write_models(root, [t for tokens, _ in jobs for t in tokens if hash(t[7:]) % 5], ())
    RNG.shuffle(jobs)
    k = 0
    parsers = {}
    while k < len(jobs):
        size = RNG.choice([1, 7, 33, 60, 128])
        part = jobs[k:k + size]
        k += size
        conf = RNG.choice([(1, 128), (3, 16), (8, 5), (2, 50)])
        if conf not in parsers:
            parsers[conf] = Parser(*conf)
        W.reset()
        st, r = call(parsers[conf], [list(tokens) for tokens, _ in part], limit=60)
        if st == 'ok' and not (isinstance(r, tuple) and len(r) == 2 and len(r[0]) == len(r[1]) == len(part)):
            st, r = 'exc', 'results for %d sentences: %r' % (len(part), [len(x) for x in r])
        if st == 'ok' and W.anomalies:
            st, r = 'exc', W.anomalies[0]
        log = {}
        for tokens, i, j, t in W.steps:
            log.setdefault(tokens, []).append({'i': i, 'j': j, 't': Trans(t).name})
        for s, (tokens, deps) in enumerate(part):
            case = {'deps': [NAMES[d] for d in deps], 'wtags': [int(t[1:3]) for t in tokens], 'ts': log.get(tuple(tokens), [])}
            if st == 'ok':
                st2, v = call(lambda: (tags_of(r[0][s]),) + tree_of(r[1][s]))
                case.update({'tags': v[0], 'root': v[1], 'arcs': v[2]} if st2 == 'ok' else {'exc': str(v)})
            else:
                case['exc'] = str(r)
            out.put(show={'tokens': tokens, 'deps': case['deps'], 'steps': case['ts'], 'arcs': case.get('arcs'), 'root': case.get('root'),
                          'tags': case.get('tags'), 'exc': case.get('exc')}, **case)

if MODE == 'batches':
    class Formula(faketf.Predictor):

        @staticmethod
        def ids(tokens):
            return [int(t[1:]) for t in tokens]

        def tags(self, tokens):
            a = self.ids(tokens)
            return [(7 * x + 3 * (k + 1) + 5 * len(a)) % 16 + 1 for k, x in enumerate(a)]

        def deps(self, tokens):
            a = self.ids(tokens)
            return [(5 * x + 2 * (k + 1) + len(a)) % 24 + 1 for k, x in enumerate(a)]

        def trans(self, tokens, i, j):
            a = self.ids(tokens)
            return (3 * a[i] + 5 * a[j] + 7 * len(a) + i * j) % 4

    W.predictor = Formula()
    faketf.write_models(root, ['w%d' % i for i in range(60)], {'w%d' % i for i in range(0, 60, 7)})
    _sys.setswitchinterval(1e-5)
    tagger = Tagger()

    def sentence(n):
        return [RNG.randrange(60) for _ in range(n)]

    def lists():
        n = RNG.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 24]) if RNG.random() < .9 else RNG.choice([70, 130, 270])
        longest = RNG.choice([0, 2, 5, 12, 50]) if n < 50 else RNG.choice([1, 3, 6])
        sents = [sentence(RNG.randint(0, longest)) for _ in range(n)]
        for k in range(1, n):
            if RNG.random() < .2:
                sents[k] = list(RNG.choice(sents[:k]))  # Same sentence twice
        if sents and RNG.random() < .15:
            sents[RNG.randrange(n)] = sentence(RNG.choice([48, 49, 50, 50]))
        return sents

    parsers = {}
    for k in range(scale(130, 2500)):
        conf = (RNG.choice([1, 1, 2, 3, 4, 8, 16]), RNG.choice([1, 2, 3, 4, 5, 8, 16, 128]))
        sents = lists()
        if len(sents) > 50 and RNG.random() < .7:
            conf = conf[0], RNG.choice([60, 100, 128, 300])
        if conf not in parsers or RNG.random() < .1:
            parsers[conf] = Parser(*conf)
        arg = [['w%d' % x for x in s] for s in sents]
        use_tagger = k % 4 == 3
        W.reset()
        if use_tagger:
            st, r = call(tagger.tag, arg, limit=60)
            if st == 'ok':
                st, r = call(lambda: [{'tags': tags_of(t), 'root': -1, 'arcs': []} for t in r])
        else:
            st, r = call(parsers[conf], arg, limit=60)
            if st == 'ok':
                def read():
                    tags, trees = r
                    if len(tags) != len(trees):
                        raise ValueError('%d lists of tags and %d trees' % (len(tags), len(trees)))
                    res = []
                    for t, u in zip(tags, trees):
                        ro, arcs = tree_of(u)
                        res.append({'tags': tags_of(t), 'root': ro, 'arcs': arcs})
                    return res
                st, r = call(read)
        if arg != [['w%d' % x for x in s] for s in sents]:
            st, r = 'exc', 'the sentences given were changed: %r' % (arg,)
        if st == 'ok' and W.anomalies:
            st, r = 'exc', W.anomalies[0]
        biggest = max([n for _, n in W.calls] or [0])
        out.put(tagger=use_tagger, sents=sents, batch=conf[1], biggest=0 if use_tagger else biggest,
                show={'what': 'tagger' if use_tagger else 'parser', 'workers': conf[0], 'batch_size': conf[1], 'sentences': sents, 'result': r,
                      'biggest call': biggest}, **({'res': r} if st == 'ok' else {'exc': str(r)}))
out.close()
