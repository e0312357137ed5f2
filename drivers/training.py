"""Training data extracted from labelled sentences, and what reaches the networks during training."""
from vlib.impl import *
require_repo()
import numpy as np
from vlib import faketf, world
from vlib.faketf import W
from scrappybara.syntax import labelled_data as ld
from scrappybara.syntax.charset import Charset
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.models import PDepsModel, PTagsModel, TransModel
from scrappybara.syntax.tags import Tag
from scrappybara.syntax.wordset import Wordset

out = Out()
root = world.new_data_dir('training', english=False)
world.use_data_dir(root)
LABELS = [d.name for d in Dep if d.name not in ('PAD', 'NODEP', 'ROOT')]
TAGS = [t.name for t in Tag if t.name != 'PAD']
NB = 400
faketf.write_models(root, ['w%d' % k for k in range(NB)])
IDS = {int(v[0]): w for w, v in W.vectors.items()}
cs, ws = Charset().load(), Wordset().load()


def labelled(n):
    r = RNG.randrange(n)
    order = [k for k in range(n)]
    sent = []
    head = [-1] * n
    # chain-shaped and star-shaped projective trees around the root
    for k in range(n):
        if k != r:
            head[k] = r if RNG.random() < .4 else k + 1 if k < r else k - 1
    # heads must stay projective: a word attached over a gap must not jump over words attached elsewhere
    deps = []
    for k in range(n):
        d = 'ROOT' if k == r else RNG.choice(LABELS)
        deps.append(d)
    for k in range(n):
        if k != r and RNG.random() < .2 and k not in head:
            head[k], deps[k] = -1, 'NODEP'
    return [('w%d' % RNG.randrange(NB), RNG.choice(TAGS), deps[k], head[k]) for k in range(n)]


def decode_chars(rows):
    text = []
    for row in rows:
        cc = [int(c) for c in row]
        while cc and cc[-1] == 0:
            cc.pop()
        text.append(''.join(W.chars.get(c, '?') for c in cc)[1:-1] if cc else '')
    return text


def decode_words(rows):
    return [IDS.get(int(round(float(r[0]))), '?') if np.asarray(r).any() else '' for r in rows]


KINDS = {'tags': (ld.extract_ptags_training_data, ['chars', 'words', 'tags']),
         'deps': (ld.extract_pdeps_training_data, ['tags', 'chars', 'words', 'deps']),
         'trans': (ld.extract_trans_training_data, ['tags', 'deps', 'chars', 'words', 'm1', 'm2', 'answer'])}
READ = {'chars': decode_chars, 'words': decode_words, 'tags': lambda a: [int(x) for x in a], 'deps': lambda a: [int(x) for x in a],
        'm1': lambda m: [k for k, x in enumerate(m) if x], 'm2': lambda m: [k for k, x in enumerate(m) if x], 'answer': int}
DEFAULT = {'tags': [], 'deps': [], 'm1': [], 'm2': [], 'answer': -1}


def extract(kind, sents):
    fn, fields = KINDS[kind]
    lists = fn(sents, cs, ws)
    if len(lists) != len(fields):
        raise ValueError('%d lists' % len(lists))
    if len({len(l) for l in lists}) != 1:
        raise ValueError('lists of lengths %r' % [len(l) for l in lists])
    return [dict(DEFAULT, **{f: READ[f](lists[k][i]) for k, f in enumerate(fields)}) for i in range(len(lists[0]))], lists, fields


MODELS = {'tags': (PTagsModel, ['chars', 'words']), 'deps': (PDepsModel, ['tags', 'chars', 'words']),
          'trans': (TransModel, ['tags', 'deps', 'chars', 'words', 'mask1', 'mask2'])}


def train(kind, lists, fields):
    """What reaches the network when training with the extracted lists"""
    data = dict(zip(fields, lists))
    y = data.pop({'tags': 'tags', 'deps': 'deps', 'trans': 'answer'}[kind])
    model = MODELS[kind][0](len(cs))
    W.reset()
    split = RNG.choice([.1, .25, 0])
    W.history = {m: [RNG.randrange(65) / 64 for _ in range(4)] for m in ('accuracy', 'val_accuracy', 'loss', 'val_loss')}
    got_acc = float(model.learn(32, 2, 5, y, split, *data.values()))
    acc = {'split': split > 0, 'acc': [int(x * 64) for x in W.history['accuracy']], 'val': [int(x * 64) for x in W.history['val_accuracy']],
           'got': int(got_acc * 64) if got_acc * 64 == int(got_acc * 64) else -1}
    k, got, gy, kw = W.fits[-1]
    if k != kind:
        raise ValueError('another network is trained')
    for f, arr in data.items():
        role = {'m1': 'mask1', 'm2': 'mask2'}.get(f, f)
        if role not in got or not np.array_equal(np.asarray(got[role]), np.asarray(arr)):
            return False, acc
    return np.array_equal(np.asarray(gy), np.asarray(y)), acc


for k in range(scale(60, 900)):
    kind = ['tags', 'deps', 'trans'][k % 3]
    n = RNG.choice([1, 1, 2, 3, 5] if kind == 'trans' else [1, 2, 3, 8, 15])
    if k // 3 % 10 == 7:
        n = 40 if kind == 'trans' else 150
    sents = [labelled(RNG.choice([1, 2, 3, 5, 9] if n < 40 else [1, 2, 3]) if n >= 40 else RNG.choice([1, 2, 3, 5, 9] if kind == 'trans' else [1, 2, 4, 10, 48, 49, 50])) for _ in range(n)]
    if kind == 'trans' and RNG.random() < .35:
        sents = [labelled(RNG.choice([24, 40, 49, 50]))] + sents[:1]
    if n > 2 and RNG.random() < .3:
        sents[-1] = list(sents[0])
    random.seed(k)
    st, r = call(extract, kind, sents)
    rec = []
    for s in sents:
        st2, t = call(lambda: [{'i': int(i), 'j': int(j), 't': int(t)} for i, j, t in ld.LabelledSentence(0, s).transitions])
        if st2 != 'ok':
            st, r, t = st2, t, []
        rec.append({'tokens': [x[0] for x in s], 'tags': [Tag[x[1]].value for x in s], 'deps': [Dep[x[2]].value for x in s], 'ts': t})
    case = {'kind': kind, 'sents': rec}
    if st == 'ok' and kind == 'trans' and sum(len(x['ts']) for x in rec) == 0:
        continue
    if st == 'ok':
        samples, lists, fields = r
        st2, fed = call(train, kind, lists, fields)
        case.update({'samples': samples, 'fed': bool(fed[0]), 'learnt': fed[1]} if st2 == 'ok' else {'exc': str(fed)})
    elif kind == 'trans' and sum(len(x['ts']) for x in rec) == 0:
        continue  # Nothing to extract
    else:
        case['exc'] = str(r)
    out.put(show={'kind': kind, 'sentences': sents, 'exc': case.get('exc'), 'nb samples': len(case.get('samples', []))}, **case)
out.close()
