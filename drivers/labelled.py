"""Labelled sentences: accessors, derived transitions, and the real parser replaying them."""
from vlib.impl import *
require_repo()
from vlib import faketf, world
from vlib.faketf import W
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.labelled_data import LabelledSentence
from scrappybara.syntax.parser import Parser
from scrappybara.syntax.tags import Tag
from scrappybara.syntax.transitions import Trans

out = Out()
root = world.new_data_dir('labelled', english=False)
world.use_data_dir(root)
LABELS = [d.name for d in Dep if d.name not in ('PAD', 'NODEP', 'ROOT')]
TAGS = [t.name for t in Tag if t.name != 'PAD']


def projective(lo, hi, parent, heads):
    """Random projective tree over the positions lo..hi-1"""
    if lo >= hi:
        return
    r = RNG.randrange(lo, hi) if RNG.random() < .6 else RNG.choice([lo, hi - 1])
    heads[r] = parent
    for a, b in ((lo, r), (r + 1, hi)):
        k = a
        while k < b:
            e = b if RNG.random() < .5 else RNG.randint(k + 1, b)
            projective(k, e, r, heads)
            k = e


jobs = []
with open(P['behaviours']) as f:
    for line in f:
        b = json.loads(line)
        jobs.append((b['deps'], b['head']))
for _ in range(scale(150, 4000)):
    n = RNG.choice([1, 6, 8, 12, 20, 35, 50])
    keep = sorted(RNG.sample(range(n), RNG.randint(max(1, n - n // 3), n)))
    heads = {}
    projective(0, len(keep), -1, heads)
    head = [-1] * n
    deps = ['NODEP'] * n
    for k, w in enumerate(keep):
        head[w] = -1 if heads[k] == -1 else keep[heads[k]]
        deps[w] = 'ROOT' if heads[k] == -1 else RNG.choice(LABELS)
    jobs.append((deps, head))

# several roots, and words of the tree that are given no parent: only what the sentence exposes
odd = []
for _ in range(scale(40, 600)):
    n = RNG.randint(2, 8)
    deps = [RNG.choice(['ROOT', 'NODEP', RNG.choice(LABELS), RNG.choice(LABELS)]) for _ in range(n)]
    if 'ROOT' not in deps:
        deps[RNG.randrange(n)] = 'ROOT'
    head = [-1] * n
    for k in range(n):
        up = [w for w in range(k) if deps[w] != 'NODEP']
        if deps[k] not in ('ROOT', 'NODEP') and up and RNG.random() < .7:
            head[k] = RNG.choice(up)
    odd.append((deps, head))
jobs += odd


class Pred(faketf.Predictor):
    scripts = {}

    def tags(self, tokens):
        return [int(t[1:3]) for t in tokens]

    def deps(self, tokens):
        return [int(t[4:6]) for t in tokens]

    def trans(self, tokens, i, j):
        t = self.scripts.get(tuple(tokens), {}).get((i, j))
        if t is None:
            W.bad('no transition recorded for words %d and %d of %r', i, j, tokens)
            return 3
        return t


W.predictor = Pred()
uid = 0
sents = []
for deps, head in jobs:
    tuples = []
    for k, d in enumerate(deps):
        uid += 1
        tag = RNG.choice(TAGS)
        tuples.append(('t%02dd%02dn%x' % (Tag[tag].value, Dep[d].value, uid), tag, d, head[k]))
    sents.append((tuples, deps, head))
faketf.write_models(root, [t[0] for tuples, _, _ in sents for t in tuples])
parser = Parser(4, 32)


def read(tuples, deps, head):
    n = len(tuples)
    ls = LabelledSentence(11, tuples)
    ts = [[int(i), int(j), Trans(t)] for i, j, t in ls.transitions]
    W.scripts = None
    Pred.scripts[tuple(t[0] for t in tuples)] = {(i, j): int(t) for i, j, t in ts}
    inside = [k for k in range(n) if deps[k] != 'NODEP']
    linked = [k for k in inside if head[k] >= 0 or k == deps.index('ROOT')]
    pairs = [(a, b) for a in linked for b in linked if a != b]
    pairs = RNG.sample(pairs, min(len(pairs), 12))
    acc = {'tokens': list(ls.tokens), 'tags': [t.name for t in ls.tags], 'deps': [d.name for d in ls.deps],
           'len': len(ls), 'iter': [t for t in ls], 'items': [ls[k] for k in range(n)], 'str': str(ls), 'id': ls.id,
           'valid': [int(k) for k in ls.valid_idxs], 'leaves': [k for k in inside if ls.is_leaf(k)], 'root': int(ls.tree.root),
           'arcs': [{'l': l.name, 'p': int(p), 'c': int(c)} for l, p, c in ls.tree],
           'cross': [{'a': a, 'b': b, 'r': bool(ls.have_crossing_arcs(a, b))} for a, b in pairs]}
    given = [(RNG.randrange(n), RNG.choice(['crossing', 'é?', 'no "verb"']), [RNG.randrange(n) for _ in range(RNG.randrange(3))]) for _ in range(RNG.choice([0, 0, 1, 2, 5]))]
    none = ls.warnings_json is None
    for w in given:
        ls.register_warning(*w)
    text = ls.warnings_json
    got = {} if text is None else json.loads(text)
    acc['warned'] = {'given': [{'i': w[0], 'c': w[1], 'f': w[2]} for w in given], 'before': none, 'none': text is None,
                     'got': [{'i': int(i), 'c': w['comment'], 'f': w['focusIdxs']} for i, ws in got.items() for w in ws],
                     'keys': [int(i) for i in got]}
    ts2 = [[int(i), int(j), Trans(t)] for i, j, t in ls.transitions]  # Reading twice
    if ts2 != ts:
        raise ValueError('transitions differ when read again')
    return acc, [{'i': i, 'j': j, 't': t.name} for i, j, t in ts]


rows = []
for tuples, deps, head in sents:
    st, r = call(read, tuples, deps, head)
    row = {'deps': deps, 'head': head, 'tokens': [t[0] for t in tuples], 'tags': [t[1] for t in tuples]}
    row['odd'] = (deps, head) in odd
    row.update({'acc': r[0], 'ts': r[1]} if st == 'ok' else {'exc': str(r)})
    rows.append(row)
for k in range(0, len(rows), 64):
    part = [r for r in rows[k:k + 64] if 'exc' not in r and not r['odd']]
    if not part:
        continue
    W.reset()
    st, r = call(parser, [list(x['tokens']) for x in part], limit=60)
    if st == 'ok' and W.anomalies:
        bad = W.anomalies[0]
        # only the sentences concerned
        for x in part:
            W.reset()
            st1, r1 = call(parser, [list(x['tokens'])], limit=60)
            if W.anomalies or st1 != 'ok':
                x['exc'] = (W.anomalies or [str(r1)])[0]
        part2 = [x for x in part if 'exc' not in x]
        r = (None, [r[1][i] for i, x in enumerate(part) if 'exc' not in x])
        part = part2
    for i, x in enumerate(part):
        if st != 'ok':
            x['exc'] = str(r)
            continue
        def read_tree():
            t = r[1][i]
            return [] if t is None else [{'l': l.name, 'p': int(p), 'c': int(c)} for l, p, c in t]
        st2, v = call(read_tree)
        x.update({'rebuilt': v} if st2 == 'ok' else {'exc': str(v)})
for x in rows:
    out.put(show=x if len(x['deps']) < 12 else {k: v for k, v in x.items() if k != 'acc'}, **x)
out.close()
