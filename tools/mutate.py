#!/usr/bin/env python3
"""mutate.py <file relative to repo> <n> <check> [<check>...]: plants n random small mutations, one at a time, in a
scratch copy of /repo and tells which ones no check reports. For measuring the checks only; no check uses it."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def docstrings(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            yield n.body[0].value


def mutants(src):
    tree = ast.parse(src)
    skip = set(map(id, docstrings(tree)))
    res = []

    def add(node, new, what):
        seg = ast.get_source_segment(src, node)
        if seg is not None and new != seg:
            res.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, new, what))

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            m = ast.Compare(n.left, [CMP[type(n.ops[0])]()], n.comparators)
            add(n, ast.unparse(m), 'cmp')
        elif isinstance(n, ast.Constant) and id(n) not in skip:
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'int+1')
                add(n, '(%d)' % (n.value - 1), 'int-1')
            elif isinstance(n.value, str) and n.value:
                add(n, repr(n.value + 'q'), 'str+')
                add(n, repr(n.value[1:]), 'str-')
        elif isinstance(n, (ast.List, ast.Set)) and len(n.elts) > 1:
            for k in range(len(n.elts)):
                c = type(n)(n.elts[:k] + n.elts[k + 1:])
                if isinstance(n, ast.List):
                    c.ctx = ast.Load()
                add(n, ast.unparse(c), 'drop elt %d' % k)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, b in (('append', 'extend'), ('extend', 'append'), ('LEFT', 'RIGHT'), ('SUBJ', 'OBJ'), ('OBJ', 'IOBJ'), ('and_cconjs', 'or_cconjs'),
                         ('subjs', 'objs'), ('objs', 'iobjs'), ('lemma', 'canon'), ('canon', 'lemma'), ('NOUN', 'PROPN'), ('VERB', 'ADJ'), ('CPL', 'PROP')):
                if n.attr == a:
                    add(n, ast.unparse(ast.Attribute(n.value, b, ast.Load())), 'attr')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(' + ast.unparse(n.operand) + ')', 'not')
        elif isinstance(n, ast.BoolOp):
            add(n, '(' + ast.unparse(ast.BoolOp(ast.And() if isinstance(n.op, ast.Or) else ast.Or(), n.values)) + ')', 'boolop')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, '(' + ast.unparse(ast.BinOp(n.left, ast.Sub() if isinstance(n.op, ast.Add) else ast.Add(), n.right)) + ')', 'binop')
        elif isinstance(n, ast.Call) and len(n.args) > 1:
            a = list(n.args)
            a[0], a[1] = a[1], a[0]
            add(n, ast.unparse(ast.Call(n.func, a, n.keywords)), 'swap args')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('any', 'all'):
            add(n, ast.unparse(ast.Call(ast.Name('all' if n.func.id == 'any' else 'any', ast.Load()), n.args, [])), 'any/all')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n, 'pass', 'del stmt')
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, 'pass', 'del return')
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, 'True', 'if True')
            add(n.test, 'False', 'if False')
    return res


def apply(src, m):
    l1, c1, l2, c2, new, _ = m
    lines = src.split('\n')
    enc = [x.encode() for x in lines]
    head = enc[l1 - 1][:c1].decode()
    tail = enc[l2 - 1][c2:].decode()
    return '\n'.join(lines[:l1 - 1] + [head + new + tail] + lines[l2:])


def main():
    rel, n, checks = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    seed = int(os.environ.get('MSEED', '1'))
    lo, hi = (int(x) for x in os.environ.get('LINES', '1-100000').split('-'))
    work = tempfile.mkdtemp(prefix='mut_')
    repo = os.path.join(work, 'repo')
    shutil.copytree('/repo', repo, symlinks=True)
    path = os.path.join(repo, rel)
    src = open(path).read()
    ms = [m for m in mutants(src) if lo <= m[0] <= hi]
    random.Random(seed).shuffle(ms)
    caught, missed = 0, []
    for m in ms[:n]:
        new = apply(src, m)
        try:
            compile(new, rel, 'exec')
        except SyntaxError:
            continue
        open(path, 'w').write(new)
        outcome = []
        for c in checks:
            r = subprocess.run(['python3', os.path.join(HERE, 'check.py'), c], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_EVID=os.path.join(work, 'evid')))
            outcome.append(r.returncode)
            if r.returncode == 1:
                break
            if r.returncode not in (0, 1):
                print('  ?? %s rc=%d %s' % (c, r.returncode, (r.stdout + r.stderr)[-400:]))
        desc = '%s:%d %s: %s -> %s' % (rel, m[0], m[5], src.split('\n')[m[0] - 1].strip()[:90], m[4][:90])
        if 1 in outcome:
            caught += 1
        else:
            missed.append(desc)
            print('MISSED', outcome, desc, flush=True)
    print('caught %d of %d' % (caught, caught + len(missed)))
    shutil.rmtree(work)


main()
