"""Histories of writes and reads in a scratch data folder."""
import os
import pathlib
import random
import shutil
import tempfile
from vlib.impl import *
require_repo()
import scrappybara.config as cfg
from scrappybara.utils import files

out = Out()
BASE = tempfile.mkdtemp(prefix='files_', dir=P['scratch'])
PATHS = [['a.txt'], ['english', 'a.txt'], ['english', 'b.txt'], ['x', 'y', 'a.txt'], ['b.pkl'], ['english', 'b.pkl']]
WORDS = ['go', 'went', 'New York', 'caf\u00e9', '\u4e2d', 'A', 'a', 'x-y', "n't", '1', '\u0142\u0436', 'i', '\U0001f600', 'e\u0301', '#c', 'a,b', '"q"', 'ﬁ', 'ß', '\ufeffx']
PAD = ['', '', '', '', ' ', '  ', '\u00a0', '\t', '\u3000']
VALUES = [0, 7, [], [1, 2, 3], 'word', {'a': 1, 'b': [1, 2]}, [[1], ['x', 'y']], {'deep': {'er': [{}]}}, list(range(300)), 'caf\u00e9']


def line(table):
    w = RNG.choice(WORDS)
    if table and RNG.random() < .985:
        w = w + '\t' + RNG.choice(WORDS)
    elif RNG.random() < .05:
        w = ''
    return RNG.choice(PAD) + w + RNG.choice(PAD)


def text(table):
    ls = [line(table) for _ in range(RNG.choice([0, 1, 2, 3, 5, 8, 20, 60]) if RNG.random() < .985 else RNG.choice([300, 1100]))]
    if ls and table and RNG.random() < .15:
        k = RNG.randrange(len(ls))
        ls[k] = ls[k].strip() + '\t' + RNG.choice(WORDS)       # a column too many
    return ls


def attempt(o, fn):
    st, r = call(fn)
    o['res'] = 'ok' if st == 'ok' else 'exc'
    if st != 'ok':
        o['why'] = str(r)
    return r if st == 'ok' else None


for k in range(scale(400, 6000)):
    cfg.DATA_DIR = pathlib.Path(BASE) / str(k)
    for p in PATHS:
        os.makedirs(cfg.DATA_DIR.joinpath(*p[:-1]), exist_ok=True)
    ops = []
    paths = RNG.sample(PATHS, RNG.randint(1, len(PATHS)))
    for _ in range(RNG.randint(2, 14)):
        p = RNG.choice(paths)
        k = RNG.choice(['write', 'write', 'store', 'read', 'set', 'dict', 'set', 'dict', 'value', 'value', 'where'])
        o = {'op': k, 'path': p}
        if k == 'write':
            ls = text(RNG.random() < .6)
            end = RNG.choice(['\n', '\n', '\r\n'])
            last = RNG.random() < .8        # does the last line end?
            raw = end.join(ls) + (end if ls and last else '')
            if ls and not last and ls[-1] == '':
                ls = ls[:-1]        # a last line of nothing is no line

            def w():
                if end == '\n' and RNG.random() < .6:
                    with files.txt_file_writer(*p) as f:
                        f.write(raw)
                else:
                    with open(cfg.DATA_DIR.joinpath(*p), 'wb') as f:
                        f.write(raw.encode('utf-8'))
            attempt(o, w)
            o['lines'] = [codes(x) for x in ls]
        elif k == 'store':
            v = RNG.choice(VALUES)
            o['v'] = json.dumps(v, sort_keys=True)
            attempt(o, lambda: files.save_pkl_file(json.loads(json.dumps(v)), *p))
        elif k == 'read':
            def r():
                with files.txt_file_reader(*p) as f:
                    return [x[:-1] if x.endswith('\n') else x for x in f]
            x = attempt(o, r)
            o['lines'] = [codes(y) for y in x or []]
        elif k == 'set':
            x = attempt(o, lambda: files.load_set_from_txt_file(*p))
            o['items'] = [codes(y) for y in x or []]
        elif k == 'dict':
            x = attempt(o, lambda: files.load_dict_from_txt_file(*p))
            o['items'] = [[codes(a), codes(b)] for a, b in (x or {}).items()]
        elif k == 'value':
            x = attempt(o, lambda: files.load_pkl_file(*p))
            o['v'] = json.dumps(x, sort_keys=True, default=repr)
        else:
            x = attempt(o, lambda: files.file_path(*p))
            o['at'] = list(pathlib.Path(str(x)).relative_to(cfg.DATA_DIR).parts) if x and str(x).startswith(str(cfg.DATA_DIR)) else ['<elsewhere>', str(x)]
        ops.append(o)
    out.put(ops=[{a: b for a, b in o.items() if a != 'why'} for o in ops], show=ops)
    shutil.rmtree(cfg.DATA_DIR, ignore_errors=True)
out.close()
