from vlib.impl import *
require_repo()
import itertools
from scrappybara.utils.tree import Tree

out = Out()
LABELS = ['A', 'B', 'C']


def F(x):
    """A node equal to every other F(x), but never the same object"""
    return int('1%06d' % x)


def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, int) and not isinstance(x, bool):
        return x - 1000000
    return x


def ask(tree, op, x, l, ls):
    x = F(x)
    if op == 'parent':
        r = tree.parent(x)
        return [] if r is None else norm(r)
    if op == 'parent_via':
        return bool(tree.has_parent_via(x, l))
    if op == 'parent_set':
        return bool(tree.has_parent_via_set(x, set(ls)))
    if op == 'children':
        return norm(tree.children(x))
    if op == 'children_via':
        return norm(tree.children_via(x, l))
    if op == 'child_via':
        r = tree.child_via(x, l)
        return [] if r is None else [norm(r)]
    if op == 'has_child':
        return bool(tree.has_child_via(x, l))
    if op == 'has_child_set':
        return bool(tree.has_child_via_set(x, set(ls)))
    if op == 'descendants':
        return norm(tree.descendants_via(x, l))
    if op == 'ancestors':
        return norm(tree.ancestors_via(x, l))
    if op == 'siblings':
        return norm(tree.siblings(x))
    if op == 'has':
        return bool(tree.has_node(x))
    if op == 'nodes':
        return norm(tree.nodes)
    if op == 'len':
        return len(tree)
    if op == 'iter':
        return norm(list(tree))
    if op == 'iter2':
        return [[norm(c), len([1 for _ in tree])] for _, _, c in tree]
    if op == 'root':
        return norm(tree.root)


OPS = ['parent', 'parent_via', 'parent_set', 'children', 'children_via', 'child_via', 'has_child', 'has_child_set', 'descendants', 'ancestors',
       'siblings', 'has', 'nodes', 'len', 'iter', 'iter2', 'root']
SEQ = {'parent', 'children', 'children_via', 'child_via', 'descendants', 'ancestors', 'siblings', 'nodes', 'iter', 'iter2'}
BOOL = {'parent_via', 'parent_set', 'has_child', 'has_child_set', 'has'}


def run(root, arcs, n, qrate, final, spots=()):
    tree = Tree(F(root))
    ops = []

    def query(op, x, l, ls):
        st, r = call(ask, tree, op, x, l, ls, limit=5)
        if st == 'ok' and not (isinstance(r, list) if op in SEQ else isinstance(r, bool) if op in BOOL else isinstance(r, int)):
            st, r = 'exc', 'bad answer %r' % (r,)
        ops.append(dict({'op': op, 'x': x, 'l': l, 'ls': ls}, **({'r': r} if st == 'ok' else {'exc': str(r)})))

    def rand_query():
        query(RNG.choice(OPS), RNG.randrange(n + 1), RNG.choice(LABELS), RNG.sample(LABELS, RNG.randint(0, 3)))

    for l, p, c in arcs:
        st, r = call(tree.register_child, l, F(p), F(c))
        ops.append(dict({'op': 'register', 'l': l, 'p': p, 'c': c}, **({} if st == 'ok' else {'exc': str(r)})))
        if RNG.random() < .15:
            x, lab = RNG.choice([p, c, RNG.randrange(n + 1)]), RNG.choice(LABELS)
            st, r = call(tree.register_child, lab, F(x), F(x))
            ops.append({'op': 'self', 'l': lab, 'x': x, 'r': st == 'exc'})
        while RNG.random() < qrate:
            rand_query()
    for x in spots:
        for op in ('descendants', 'ancestors', 'children', 'children_via', 'siblings', 'parent', 'parent_via'):
            for l in 'AB':
                query(op, x, l, [])
    if final:
        for op in OPS:
            if op in ('nodes', 'len', 'iter', 'iter2', 'root'):
                query(op, 0, 'A', [])
                continue
            for x in range(n + 1):
                if op in ('parent', 'children', 'siblings', 'has'):
                    query(op, x, 'A', [])
                elif op in ('parent_set', 'has_child_set'):
                    query(op, x, 'A', ['A', 'C'])
                else:
                    for l in LABELS[:2]:
                        query(op, x, l, [])
        for op in ('children', 'nodes', 'iter'):
            query(op, root, 'A', [])
    out.put(root=root, ops=ops, show={'root': root, 'arcs': arcs, 'ops': [o for o in ops if o['op'] != 'register'][:60]})


# every labelled rooted tree of up to 4 nodes, registered in every order (quick: a sample of the orders)
def trees(n):
    for root in range(n):
        others = [x for x in range(n) if x != root]
        for parents in itertools.product(range(n), repeat=n - 1):
            arcs = list(zip(parents, others))
            up = {c: p for p, c in arcs}
            ok = True
            for c in others:
                seen, y = set(), c
                while y in up and y not in seen:
                    seen.add(y)
                    y = up[y]
                ok = ok and y == root
            if ok:
                yield root, arcs


run(0, [], 2, 0, True)
for n in (2, 3, 4):
    for root, arcs in trees(n):
        labs = list(itertools.product(LABELS[:2], repeat=len(arcs)))
        for lab in (labs if n < 4 or THOROUGH else RNG.sample(labs, 3)):
            perm = list(zip(lab, [p for p, _ in arcs], [c for _, c in arcs]))
            RNG.shuffle(perm)
            run(root, perm, n, .2, True)
for _ in range(scale(150, 3000)):
    n = RNG.randint(5, 14)
    ids = list(range(n))
    RNG.shuffle(ids)
    arcs = []
    for k in range(1, n):
        if RNG.random() < .92:
            arcs.append((RNG.choice(LABELS), ids[RNG.randrange(k) if RNG.random() < .5 else k - 1], ids[k]))
    if RNG.random() < .7:
        RNG.shuffle(arcs)
    run(ids[0], arcs, n, .6, RNG.random() < .3)
# long chains and broad nodes
for _ in range(scale(24, 300)):
    n = RNG.choice([12, 20, 33, 60])
    ids = list(range(n))
    RNG.shuffle(ids)
    kind = RNG.randrange(4)
    arcs = []
    for k in range(1, n):
        lab = 'A' if RNG.random() < (1 if kind == 0 else .93) else RNG.choice(LABELS)
        arcs.append((lab, ids[k - 1] if kind < 2 else ids[0] if kind == 2 else ids[RNG.randrange(max(0, k - 3), k)], ids[k]))
    if RNG.random() < .6:
        RNG.shuffle(arcs)
    run(ids[0], arcs, n, .1, n <= 20, [ids[0], ids[1], ids[n // 2], ids[-2], ids[-1]])
out.close()
