"""Stand-in for tensorflow: the network definitions build a symbolic graph; asking a network for a prediction decodes the
sentences from the numeric inputs it is given (checking that all inputs describe the same sentences) and answers what the
predictor installed by the driver wants. Nothing here looks at how the code under test is written: only at the graph it
builds with the public tensorflow API and at the arrays it feeds it."""
import contextlib
import os
import sys
import threading
import types

import numpy as np

LOCK = threading.RLock()
START, END = 'ʃʃʃ', 'ʄʄʄ'


class Predictor(object):
    """Answers of the networks for a sentence; drivers override"""

    def tags(self, tokens):
        return [1] * len(tokens)

    def deps(self, tokens):
        return [1] * len(tokens)

    def trans(self, tokens, i, j):
        return 3


class World(object):
    """Shared by all the networks of a run"""

    def __init__(self):
        self.predictor = Predictor()
        self.chars = {}  # Char code => char
        self.unk = None
        self.vectors = {}  # Word => vector
        self.anomalies = []
        self.calls = []  # (kind, number of sentences)
        self.steps = []  # (tokens, i, j, trans)
        self.fits = []
        self.history = {'accuracy': [.5, .75, .25], 'val_accuracy': [.5, .625, .25]}
        self.on_call = None  # Called for each prediction

    @property
    def nb_tags(self):
        from scrappybara.syntax.tags import Tag
        return len(Tag)

    @property
    def nb_deps(self):
        from scrappybara.syntax.dependencies import Dep
        return len(Dep)

    def reset(self):
        self.anomalies, self.calls, self.steps, self.fits = [], [], [], []

    def bad(self, msg, *args):
        with LOCK:
            if len(self.anomalies) < 20:
                self.anomalies.append(msg % args)


W = World()


class T(object):
    """Symbolic tensor"""

    def __init__(self, op, layer=None, inputs=(), shape=None, dtype=None):
        self.op, self.layer, self.inputs, self.shape, self.dtype = op, layer, list(inputs), shape, dtype

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return None

    def _bin(self, *others):
        return T('op', None, [self] + _tensors(others))

    __getitem__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __truediv__ = __eq__ = __ne__ = _bin
    __lt__ = __gt__ = __le__ = __ge__ = __and__ = __or__ = __invert__ = __neg__ = _bin
    __hash__ = object.__hash__


def _tensors(x):
    if isinstance(x, T):
        return [x]
    if isinstance(x, (list, tuple)):
        return [t for y in x for t in _tensors(y)]
    if isinstance(x, dict):
        return [t for y in x.values() for t in _tensors(y)]
    return []


class Layer(object):

    def __init__(self, op, args, kw):
        self.op, self.args, self.kw = op, args, kw

    def __call__(self, *args, **kw):
        return T(self.op, self, _tensors(args) + _tensors(kw))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *args, **kw: T(self.op + '.' + name, None, _tensors(args) + _tensors(kw))

    def number(self, pos, *names):
        for n in names:
            if n in self.kw:
                return self.kw[n]
        return self.args[pos] if len(self.args) > pos else None


class Ns(object):
    """Any name of the tensorflow API"""

    def __init__(self, path):
        self.__dict__['path'] = path

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        path = self.path + '.' + name
        if name == 'Input':
            return _input
        if name == 'Model':
            return Model
        if name == 'device':
            return lambda *a, **k: contextlib.nullcontext()
        return Ns(path)

    def __call__(self, *args, **kw):
        ts = _tensors(args) + _tensors(kw)
        op = self.path.rsplit('.', 1)[-1]
        return T(op, None, ts) if ts else Layer(op, args, kw)


def _input(shape=None, dtype=None, **kw):
    return T('Input', None, [], tuple(shape), getattr(dtype, 'path', str(dtype)).rsplit('.', 1)[-1])


def _walk(t, seen, out):
    if id(t) in seen:
        return
    seen.add(id(t))
    out.append(t)
    for u in t.inputs:
        _walk(u, seen, out)


def _units(layer):
    if layer is None:
        return None
    if layer.op == 'Dense':
        return layer.number(0, 'units')
    for a in list(layer.args) + list(layer.kw.values()):
        if isinstance(a, Layer) and _units(a):
            return _units(a)
    return None


class Model(object):

    def __init__(self, inputs=None, outputs=None, **kw):
        self.inputs = _tensors(inputs)
        self.input = inputs
        self.output = self.outputs = outputs
        self.weights = None
        self._plan = None

    def plan(self):
        """Kind of network & role of each input"""
        if self._plan is None:
            nodes = []
            _walk(_tensors(self.output)[0], set(), nodes)
            units = next((_units(t.layer) for t in nodes if _units(t.layer)), None)
            kind = {W.nb_tags: 'tags', W.nb_deps: 'deps', 4: 'trans'}.get(units)
            if kind is None:
                W.bad('network with %r outputs', units)
            roles = []
            masks = []
            for t in nodes:
                if t.op == 'boolean_mask':
                    masks.extend(u for u in t.inputs if u.op == 'Input')
            order = {id(m): k for k, m in enumerate(masks)}
            nb_masks = 0
            for t in self.inputs:
                if t.dtype == 'bool':
                    roles.append('mask%d' % (order.get(id(t), nb_masks) + 1))
                    nb_masks += 1
                elif len(t.shape) == 2:
                    roles.append('words' if 'float' in t.dtype else 'chars')
                else:
                    dims = [u.layer.number(0, 'input_dim') for u in nodes if u.op == 'Embedding' and any(v is t for v in u.inputs)]
                    roles.append('tags' if dims == [W.nb_tags] else 'deps' if dims == [W.nb_deps] else '?')
            dims = [u.layer.number(0, 'input_dim') for u in nodes if u.op == 'Embedding' and
                    any(v.op == 'Input' and len(v.shape) == 2 for v in u.inputs)]
            self._plan = kind, roles, dims
        return self._plan

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *args, **kw: None

    def load_weights(self, path, *args, **kw):
        self.weights = os.path.basename(str(path))

    def save_weights(self, path, *args, **kw):
        with open(str(path), 'w') as f:
            f.write('weights')

    def fit(self, x, y, **kw):
        kind, roles, _ = self.plan()
        W.fits.append((kind, dict(zip(roles, x)), y, kw))
        hist = types.SimpleNamespace()
        hist.history = dict(W.history)
        return hist

    def _decode(self, data):
        """Tokens of each sentence"""
        chars, words = data['chars'], data['words']
        sents = []
        for s in range(len(chars)):
            row, tokens, closed = 0, [], False
            for row in range(chars.shape[1]):
                codes = [int(c) for c in chars[s][row]]
                while codes and codes[-1] == 0:
                    codes.pop()
                if not codes:
                    break
                text = ''.join(W.chars.get(c, '\uffff') for c in codes)
                if len(text) < 2 or text[0] != '†' or text[-1] != '‡':
                    W.bad('row %d of the characters is not a word: %r', row, text)
                    return None
                tokens.append(text[1:-1])
            if chars[s][row if not codes else row + 1:].any():
                W.bad('characters after the end of the sentence')
            if len(tokens) < 2 or tokens[0] != START or tokens[-1] != END:
                W.bad('no start or end row: %r', tokens[:3] + tokens[-3:])
                return None
            for k in range(chars.shape[1]):
                want = W.vector(tokens[k]) if k < len(tokens) else np.zeros(words.shape[2], dtype=np.float32)
                if not np.array_equal(np.asarray(words[s][k], dtype=np.float32), want):
                    W.bad('row %d of the word vectors is not the one of %r', k, tokens[k] if k < len(tokens) else None)
                    break
            sents.append(tokens[1:-1])
        return sents

    def predict(self, x, *args, **kw):
        kind, roles, dims = self.plan()
        if W.on_call:
            W.on_call(kind)
        if isinstance(x, dict):
            x = list(x.values())
        x = [np.asarray(a) for a in x]
        data = dict(zip(roles, x))
        n = len(x[0])
        if len(x) != len(roles) or len(data) != len(roles) or any(len(a) != n for a in x):
            W.bad('%s network: %d inputs of lengths %r', kind, len(x), [len(a) for a in x])
            raise ValueError('inputs of the %s network' % kind)
        if n == 0:
            raise ValueError('Unexpected result of `predict_function` (Empty batch_outputs)')
        for role, a, t in zip(roles, x, self.inputs):
            if a.shape[1:] != tuple(t.shape):
                W.bad('%s network: %s has shape %r', kind, role, a.shape)
                raise ValueError('shape of an input of the %s network' % kind)
            if (a.dtype.kind == 'f') != ('float' in t.dtype) or (t.dtype == 'bool') != (a.dtype.kind == 'b'):
                W.bad('%s network: %s has type %s', kind, role, a.dtype)
        want = {'tags': 'ptags_weights.h5', 'deps': 'pdeps_weights.h5', 'trans': 'trans_weights.h5'}[kind]
        if self.weights != want:
            W.bad('%s network: weights %r', kind, self.weights)
        if dims and (data['chars'].max() >= dims[0] or data['chars'].min() < 0):
            W.bad('%s network: char code out of its %r codes', kind, dims)
        with LOCK:
            W.calls.append((kind, n))
        sents = self._decode(data)
        size = {'tags': W.nb_tags, 'deps': W.nb_deps, 'trans': 4}[kind]
        if sents is None:
            return np.full((n, x[0].shape[1], size) if kind != 'trans' else (n, size), .1)
        for role, f in (('tags', W.predictor.tags), ('deps', W.predictor.deps)):
            if role in data:
                for s, tokens in enumerate(sents):
                    got = [int(c) for c in data[role][s][1:len(tokens) + 1]]
                    if got != list(f(tokens)):
                        W.bad('%s network: %s of %r are %r', kind, role, tokens, got)
        res = np.full((n, x[0].shape[1], size) if kind != 'trans' else (n, size), .01, dtype=np.float32)
        for s, tokens in enumerate(sents):
            if kind == 'trans':
                pos = []
                for role in ('mask1', 'mask2'):
                    where = [int(k) for k in np.nonzero(data[role][s])[0]]
                    if len(where) != 1 or not 1 <= where[0] <= len(tokens):
                        W.bad('%s of a sentence of %d words selects rows %r', role, len(tokens), where)
                        where = [1]
                    pos.append(where[0] - 1)
                t = W.predictor.trans(tokens, *pos)
                with LOCK:
                    W.steps.append((tuple(tokens), pos[0], pos[1], t))
                res[s, t] = .9
            else:
                codes = W.predictor.tags(tokens) if kind == 'tags' else W.predictor.deps(tokens)
                # the rows that are not words get arbitrary predictions
                row = [3] + list(codes) + [7] + [(k * 5 + s) % size for k in range(res.shape[1])]
                for k in range(res.shape[1]):
                    res[s, k, row[k]] = .9
        return res

    predict_on_batch = predict

    def __call__(self, x, *args, **kw):
        if _tensors(x):
            return T('Model', None, _tensors(self.output) + _tensors(x))
        return self.predict(x)


def _vector(word):
    v = W.vectors.get(word.lower())
    return np.zeros(100, dtype=np.float32) if v is None else np.asarray(v, dtype=np.float32)


W.vector = _vector


def install():
    """Before importing scrappybara.syntax.models"""
    tf = types.ModuleType('tensorflow')
    ns = Ns('tensorflow')
    tf.__getattr__ = lambda name: getattr(ns, name)
    keras = types.ModuleType('tensorflow.keras')
    kns = Ns('tensorflow.keras')
    keras.__getattr__ = lambda name: getattr(kns, name)
    tf.keras = keras
    tf.__path__ = []
    keras.__path__ = []
    sys.modules['tensorflow'] = tf
    sys.modules['tensorflow.keras'] = keras
    for sub in ('layers', 'models', 'callbacks'):
        m = types.ModuleType('tensorflow.keras.' + sub)
        m.__getattr__ = (lambda mns: lambda name: getattr(mns, name))(Ns('tensorflow.keras.' + sub))
        setattr(keras, sub, m)
        sys.modules['tensorflow.keras.' + sub] = m


def write_models(root, words, unknown=()):
    """Writes the model files of a scratch data folder: word vectors of the words, except those meant to be unknown"""
    import pickle
    with open(os.path.join(root, 'models', 'char_codes.pkl'), 'rb') as f:
        codes = pickle.load(f)
    W.chars = {v: k for k, v in codes.items()}
    vecs = {}
    for k, w in enumerate(sorted({w.lower() for w in words} | {START, END})):
        if w not in unknown:
            v = np.zeros(100, dtype=np.float32)
            v[0], v[1], v[99] = k + 1, (k * 37) % 101, k % 7 - 3
            vecs[w] = v
    with open(os.path.join(root, 'models', 'word_vectors.pkl'), 'wb') as f:
        pickle.dump(vecs, f)
    W.vectors = vecs
