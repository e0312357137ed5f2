"""The real pipeline from texts to documents, with scripted networks."""
import threading
import time
from vlib.impl import *
require_repo()
from vlib import faketf, sched, sentgen
from vlib.faketf import W
from vlib.logicworld import read, root
import scrappybara as sb
from scrappybara.langmodel.language_model import LanguageModel
from scrappybara.pipeline.logic_pipeline import LogicPipeline
from scrappybara.pipeline.pipeline import Pipeline
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.labelled_data import LabelledSentence
from scrappybara.syntax.tags import Tag

out = Out()
MODE = P['mode']
SEPS = [':', '"', ';', '(', ')', '[', ']', '{', '}', '-']
LAB = {}        # tokens => labelled sentence
ids = {}


def intern(x):
    return ids.setdefault(x, len(ids) + 1)


class Labelled(faketf.Predictor):
    """Networks that know the labels of the sentences"""

    def tags(self, tokens):
        s = LAB.get(tuple(tokens))
        return [Tag[t[1]].value for t in s] if s else [1] * len(tokens)

    def deps(self, tokens):
        s = LAB.get(tuple(tokens))
        return [Dep[t[2]].value for t in s] if s else [Dep.NODEP.value] * len(tokens)

    def trans(self, tokens, i, j):
        s = LAB.get(tuple(tokens))
        if not s:
            return 3
        head = [t[3] if t[2] != 'ROOT' else -1 for t in s]
        if head[i] == j:
            return 0
        if head[j] == i:
            return 1
        if any(head[k] == j or head[j] == k for k in range(i)):
            return 2
        return 3


W.predictor = Labelled()
faketf.write_models(root, [w for ws in sentgen.VOC.values() for w in ws] + ['zq%d' % k for k in range(0, 400, 3)] + ['.', ','])
logic = LogicPipeline(LanguageModel(1, 1))
serial = [0]


def name():
    serial[0] += 1
    return 'zq%d' % serial[0]


def template(plain=False):
    """A sentence that is told apart from all others by its tuples"""
    z = name()
    return RNG.choice([
        [(z, 'NOUN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1), ('cake', 'NOUN', 'OBJ', 1)],
        [(z, 'PROPN', 'SUBJ', 1), ('love', 'VERB', 'ROOT', -1)],
        [('big', 'ADJ', 'CPL', 1), (z, 'NOUN', 'ROOT', -1)],
        [('infant', 'NOUN', 'CPL', 1), (z, 'NOUN', 'SUBJ', 3), ('not', 'ADV', 'NEG', 3), ('eats', 'VERB', 'ROOT', -1), ('gold', 'NOUN', 'CPL', 5), ('cake', 'NOUN', 'OBJ', 3)],
        [(z, 'NOUN', 'SUBJ', 1), ('is', 'VERB', 'ROOT', -1), ('tired', 'ADJ', 'PROP', 1)],
        [('tax', 'NOUN', 'CPL', 1), (z, 'NOUN', 'SUBJ', 4), ('and', 'CONJ', 'NODEP', -1), ('dogs', 'NOUN', 'AND', 1), ('argued', 'VERB', 'ROOT', -1)],
        [(z, 'NOUN', 'SUBJ', 1), ('tries', 'VERB', 'ROOT', -1), ('to', 'FRAG', 'PART', 3), ('eat', 'VERB', 'OBJ', 1), ('light', 'NOUN', 'CPL', 5), ('cake', 'NOUN', 'OBJ', 3)],
    ])


# not separators, whatever they begin or end with
NEAR = ('((', '--', ':-)', ';)', '""', '[1]', '-ing', 'x-', 'a:', ':b', '))', '{}', '(s)', '::')


def pad(sent, n, where=None, words=('cake', 'quickly', ',')):
    """Adds words outside the tree up to length n"""
    sent = list(sent)
    while len(sent) < n:
        k = RNG.randint(0, len(sent)) if where is None else where
        sent = [(t[0], t[1], t[2], t[3] + 1 if t[3] >= k else t[3]) for t in sent]
        sent.insert(k, (RNG.choice(words), 'PUNCT', 'NODEP', -1))
    return sent


def natural(n):
    nodes = sentgen.tree(RNG, n)
    order = []

    def place(k):      # projective, as the parser can only build projective trees
        kids = [i for i, x in enumerate(nodes) if x['par'] == k]
        RNG.shuffle(kids)
        cut = RNG.randint(0, len(kids))
        for i in kids[:cut]:
            place(i)
        order.append(k)
        for i in kids[cut:]:
            place(i)
    place(0)
    pos = {k: i for i, k in enumerate(order)}
    return [(RNG.choice(sentgen.VOC[nodes[k]['tag']]), nodes[k]['tag'], nodes[k]['dep'], -1 if nodes[k]['par'] < 0 else pos[nodes[k]['par']]) for k in order]


def register(sent):
    """Tokens of a labelled sentence, once its labels are known to the networks; None if the same words have other labels already"""
    tokens = tuple(t[0] for t in sent)
    if LAB.setdefault(tokens, sent) != sent:
        return None
    return tokens


def sentence():
    while True:
        r = RNG.random()
        s = template() if r < .6 else natural(RNG.choice([1, 2, 3, 5, 8, 12])) if r < .9 else pad(template(), RNG.choice([5, 20, 49, 50]), words=('cake', '"', ';', '(', '-'))
        t = register(s)
        if t is not None:
            return t


def long_sentence():
    """More than fifty tokens: labelled pieces between separators, some of them too long themselves"""
    n = RNG.choice([1, 1, 2, 2, 3, 4])
    raw = []
    for k in range(n):
        size = RNG.choice([0, 0, 20, 49, 50, 50, 51, 51, 52, 70])
        piece = pad(template(), size, words=RNG.choice([('cake', 'quickly', ','), ('cake', 'quickly') + NEAR])) if size or n > 2 or RNG.random() < .7 else []
        if piece and size <= 50 and register(piece) is None:
            continue
        raw += [t[0] for t in piece]
        if k < n - 1 or RNG.random() < .3:
            raw += [RNG.choice(SEPS) for _ in range(RNG.choice([1, 1, 1, 2, 3]))]
    if RNG.random() < .2:
        raw = [RNG.choice(SEPS)] + raw
    if len(raw) <= 50:
        # not over-long after all: analysed as it is, separators and all
        tokens = tuple(raw)
        if tokens not in LAB:
            LAB[tokens] = [(w, 'PUNCT', 'NODEP', -1) for w in raw]
    return tuple(raw)


def text(long=0.):
    return [long_sentence() if RNG.random() < long else sentence() for _ in range(RNG.choice([0, 0, 1, 1, 2, 3, 5]))]


def split(raw):
    """All the runs a sentence could be cut into"""
    res, cur = [], []
    for w in list(raw) + ['-']:
        if w in SEPS:
            res.append(tuple(cur))
            cur = []
        else:
            cur.append(w)
    return res


def bag(rows):
    return tuple(sorted(tuple((a['w'], a['c'], a['a']) for a in t) for t in rows))


refs_cache = {}


def ref(tokens):
    """Tuples of the sentence alone, with and without chunks"""
    if tokens not in refs_cache:
        s = LAB[tokens]
        if not any(t[3] >= 0 for t in s):
            rows = [[], []]
        else:
            rows = []
            for chunk in (True, False):
                if chunk:
                    rows.append(read(logic.test_sample(list(s))))
                else:
                    try:
                        ls = LabelledSentence(0, list(s))
                        rows.append(read(logic._logic_process([ls.tokens], [ls.tags], [ls.tree], False)[1][0]))
                    except (AttributeError, TypeError, ValueError, IndexError):    # internal: where it differs, the pipeline itself tells about the sentence alone
                        TEXTS['alone'] = [tokens]
                        (doc,) = pipe((1, 1, False, False))(['alone'], chunk_common_nouns=False)
                        (only,) = doc.sentences
                        rows.append(read(only.stuples))
        refs_cache[tokens] = [intern(('r', bag(r))) for r in rows]
    return refs_cache[tokens]


def docs_of(docs):
    if not isinstance(docs, list):
        raise TypeError('%r is no list' % type(docs))
    res = []
    for d in docs:
        rows = [read(s.stuples) for s in d.sentences]
        if read(d.stuples) != [t for r in rows for t in r] or [read(s) for s in d] != rows:
            raise ValueError('a document does not contain the tuples of its sentences')
        res.append([intern(('r', bag(r))) for r in rows])
    return res


def put(texts, chunk, st, r, how):
    known = sorted({s for t in texts for raw in t for s in [raw] + split(raw) if s in LAB and len(s) <= 50})
    case = {'texts': [[[intern(('w', w)) for w in s] for s in t] for t in texts], 'chunk': chunk, 'sep': [intern(('w', w)) for w in SEPS],
            'refs': [{'s': [intern(('w', w)) for w in s], 'on': ref(s)[0], 'off': ref(s)[1]} for s in known]}
    if st == 'ok' and W.anomalies:
        st, r = 'exc', W.anomalies[0]
    shown = {v: k for k, v in ids.items()}
    show = {'how': how, 'chunk_common_nouns': chunk, 'texts': [[' '.join(s) for s in t] for t in texts],
            'documents': [[[t[1] for t in [shown.get(i, ('', ()))]] for i in d] for d in r] if st == 'ok' else str(r)}
    out.put(show=show, **dict(case, **({'res': r} if st == 'ok' else {'exc': str(r)})))


class Sentences(object):
    """A custom sentencizer: texts are names"""

    def __init__(self):
        self.gate = None

    def __call__(self, key):
        if self.gate:
            self.gate.pass_(key)
        return [list(s) for s in TEXTS[key]]


TEXTS = {}


def add(t):
    key = 'T%d' % len(TEXTS)
    TEXTS[key] = t
    return key


custom = Sentences()
pipes = {}


def pipe(conf):
    if conf not in pipes:
        cores, batch, gpu, default = conf
        kw = {}
        if cores:
            kw['nb_cores'] = cores
        if batch:
            kw['batch_size'] = batch
        if not gpu:
            kw['use_gpu'] = False
        pipes[conf] = Pipeline(**kw) if default else Pipeline(custom, **kw) if RNG.random() < .5 else Pipeline(sentencizer=custom, **kw)
    return pipes[conf]


def config(default=False):
    return RNG.choice([1, 2, 3, 4, 8, 16, 0]), RNG.choice([1, 2, 3, 5, 8, 128, 0]), RNG.random() < .5, default


KEPT = []      # documents given out earlier


def run(conf, texts, chunk=True, default=False, keys=None):
    keys = keys or [add(t) for t in texts]
    W.reset()
    p = pipe(conf)
    given = list(keys)

    def go():
        docs = p(keys) if chunk and RNG.random() < .5 else p(keys, chunk) if RNG.random() < .5 else p(keys, chunk_common_nouns=chunk)
        KEPT.append((given, chunk, docs))
        return docs_of(docs)
    st, r = call(go, limit=60)
    if keys != given:
        st, r = 'exc', 'the list of texts was changed'
    return st, r


if MODE in ('docs', 'long'):
    for k in range(scale(140 if MODE == 'docs' else 220, 3000)):
        conf = config()
        texts = [text(0 if MODE == 'docs' else .5) for _ in range(RNG.choice([0, 1, 1, 2, 3, 4, 6, 9]))]
        if texts and RNG.random() < .2:
            texts.append(RNG.choice(texts))      # the same text twice
        if k % 70 == 7:       # many texts, most of them seen before
            few = [text(0 if MODE == 'docs' else .2)[:2] for _ in range(12)]
            texts = [RNG.choice(few) for _ in range(RNG.choice([150, 270]))]
        elif k % 70 == 41:    # texts of many sentences
            few = [sentence() for _ in range(15)]
            texts = [[RNG.choice(few) for _ in range(RNG.choice([1, 40, 75]))] for _ in range(3)]
        chunk = RNG.random() < .7
        st, r = run(conf, texts, chunk)
        put(texts, chunk, st, r, {'cores': conf[0], 'batch': conf[1], 'gpu': conf[2]})
    # real texts through the default sentencizer
    sen = sb.Sentencizer()
    n = 0
    while n < scale(60, 1000):
        texts, keys = [], []
        for _ in range(RNG.choice([1, 2, 3])):
            sents = []
            for _ in range(RNG.choice([0, 1, 2, 3])):
                if MODE == 'long' and RNG.random() < .5:
                    sep = RNG.choice([';', '[', ']', '{', '}', '-'])
                    a, b = [pad(template(), RNG.choice([0, 25, 50, 50, 51]), words=('cake', 'dog')) for _ in range(2)]
                    b = pad(b, len(b) + 1, len(b), ('.',)) if RNG.random() < .8 else b
                    raw = [t[0] for t in a] + [sep] + [t[0] for t in b]
                    if len(raw) <= 50 or register(a) is None or register(b) is None:
                        continue
                    sents.append(tuple(raw))
                else:
                    s = template()
                    s = pad(s, len(s) + 1, len(s), ('.',))
                    if register(s) is not None:
                        sents.append(tuple(t[0] for t in s))
            t = RNG.choice([' ', '\n']).join(' '.join(s) for s in sents)
            got = [tuple(s) for s in sen(t)]
            for raw in got:
                # a text the sentencizer cuts otherwise than it was composed still has labels for every piece
                for s in [raw] + (split(raw) if len(raw) > 50 else []):
                    if 0 < len(s) <= 50 and s not in LAB:
                        LAB[s] = [(w, 'PUNCT', 'NODEP', -1) for w in s]
            texts.append(got)
            keys.append(t)
        n += 1
        conf = config(True)
        chunk = RNG.random() < .7
        st, r = run(conf, texts, chunk, keys=keys)
        put(texts, chunk, st, r, {'cores': conf[0], 'batch': conf[1], 'gpu': conf[2], 'sentencizer': 'default', 'text': keys})

if MODE == 'par':
    # Histories: the document of a text never changes. The first answer is that of a pipeline with one core, one sentence at a time, for that text alone.
    known = set()
    events, shows = [], []

    def note(keys, chunk, st, r, how):
        if st == 'ok' and W.anomalies:
            st, r = 'exc', W.anomalies[0]
        if st == 'ok' and len(r) != len(keys):
            st, r = 'exc', '%d documents for %d texts' % (len(r), len(keys))
        if st != 'ok':
            hist['bad'] = [how, str(r)]
            return
        for key, doc in zip(keys, r):
            events.append({'op': 'on' if chunk else 'off', 'text': intern(('x', key)), 'res': doc})
            shows.append([how, 'chunks' if chunk else 'no chunks', key, doc])

    class Interrupt(object):
        """The v-th worker thread stops after k lines until the others have gone as far as they can"""
        inside = os.path.join(os.path.abspath(REPO), 'scrappybara') + os.sep

        def __init__(self, v, k):
            self.v, self.k, self.n, self.seen, self.lock, self.hit = v, k, 0, {}, threading.Lock(), False

        def __call__(self, frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.inside):
                return None
            me = threading.get_ident()
            with self.lock:
                num = self.seen.setdefault((me, threading.current_thread().name), len(self.seen) + 1)
            return self.local if num == self.v and not self.hit else None

        def local(self, frame, event, arg):
            if event == 'line' and not self.hit:
                self.n += 1
                if self.n == self.k:
                    self.hit = True
                    end = time.time() + .3
                    me = threading.current_thread()
                    while time.time() < end and any(t is not me and t is not threading.main_thread() and not t.daemon for t in threading.enumerate()):
                        time.sleep(.0005)
            return self.local

        def __enter__(self):
            threading.settrace(self)
            return self

        def __exit__(self, *a):
            threading.settrace(None)

    old = sys.getswitchinterval()
    hits = 0
    for k in range(scale(14, 200)):
        hist = {'bad': None}
        events, shows, known = [], [], set()
        keys = [add(text(.1)) for _ in range(RNG.choice([2, 3, 5, 7]))]
        single = {}
        for key in keys:
            for chunk in (True, False):
                fresh = Pipeline(custom, nb_cores=1, batch_size=1, use_gpu=False) if RNG.random() < .3 else pipe((1, 1, False, False))
                W.reset()
                st, r = call(lambda: docs_of(fresh([key], chunk)), limit=60)
                note([key], chunk, st, r, 'alone')
        del KEPT[:]
        for step in range(18):
            conf = config()
            some = [RNG.choice(keys) for _ in range(RNG.choice([1, 2, 4, len(keys), len(keys) + 3]))]
            chunk = RNG.random() < .6
            how = {'cores': conf[0], 'batch': conf[1], 'gpu': conf[2], 'texts': some}
            way = step % 4 if step < 16 else 9
            if step == 4 and k % 4 == 1:      # many at once
                some = [RNG.choice(keys) for _ in range(RNG.choice([140, 270]))]
                how['texts'] = some
            if way == 0:
                sys.setswitchinterval(1e-6)
                st, r = run(conf, None, chunk, keys=list(some))
                sys.setswitchinterval(old)
            elif way == 9:
                # several calls of one pipeline at the same time
                p = pipe((RNG.choice([1, 2, 3]), conf[1], conf[2], False))
                calls = [([RNG.choice(keys) for _ in range(RNG.choice([1, 2, len(keys)]))], RNG.random() < .6) for _ in range(3)]
                got = {}

                def one(i):
                    try:
                        got[i] = 'ok', p(list(calls[i][0]), calls[i][1])
                    except BaseException as e:
                        got[i] = 'exc', repr(e)
                W.reset()
                sys.setswitchinterval(1e-6 if step % 2 else 1e-4)
                ths = [threading.Thread(target=one, args=(i,), daemon=True) for i in range(len(calls))]
                for th in ths:
                    th.start()
                for th in ths:
                    th.join(60)
                sys.setswitchinterval(old)
                for i, (ks, ch) in enumerate(calls):
                    st, r = got.get(i, ('exc', 'no answer within 60 s'))
                    if st == 'ok':
                        st, r = call(docs_of, r)
                    note(ks, ch, st, r, {'at the same time': i, 'texts': ks})
                continue
            elif way == 1 and len(set(some)) == len(some) and len(some) > 1:
                ranks = list(some)
                RNG.shuffle(ranks)
                with sched.Gate(lambda key: ranks.index(key) if key in ranks else 0) as g:
                    custom.gate = g
                    st, r = run((len(some), conf[1], conf[2], False), None, chunk, keys=list(some))
                    custom.gate = None
                how['sentencizing order'] = ranks
            else:
                # a worker interrupted anywhere in its work (sentencizing, vectorizing, building trees, analysing)
                cores = RNG.choice([2, 2, 3])
                v, line = RNG.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 10, 11, 12, 13]), int(2 ** RNG.uniform(0, 10))
                with Interrupt(v, line) as i:
                    st, r = run((cores, conf[1], conf[2], False), None, chunk, keys=list(some))
                hits += i.hit
                how.update(cores=cores, interrupted=[v, line])
            note(some, chunk, st, r, how)
        for ks, ch, docs in KEPT:      # nothing that came later changes what was given out
            W.reset()
            st, r = call(docs_of, docs)
            note(ks, ch, st, r, {'read again': ks})
        if hist['bad']:
            out.put(show={'texts': {k: [' '.join(s) for s in TEXTS[k]] for k in keys}, 'failed': hist['bad'], 'events': shows}, exc=hist['bad'][1][:300])
        else:
            out.put(show={'texts': {k: [' '.join(s) for s in TEXTS[k]] for k in keys}, 'events': shows, 'interruptions': hits}, events=events)
out.close()
