"""Labelled sentences through the logical part of the pipeline."""
from vlib.impl import *
require_repo()
from vlib import sentgen
from vlib.logicworld import ADJS, NOUNS, read, root, table
from scrappybara.langmodel.language_model import LanguageModel
from scrappybara.normalization.inflector import Inflector
from scrappybara.normalization.lemmatizer import Lemmatizer
from scrappybara.normalization.standardizer import Standardizer
from scrappybara.normalization.suffixes import Suffix
from scrappybara.pipeline.logic_pipeline import LogicPipeline
from scrappybara.syntax.tags import Tag

out = Out()
lm = LanguageModel(1, 1)
pipe = LogicPipeline(lm)
irr = {n: table('irregular_%s.txt' % n) for n in ('preterits', 'past_participles', 'plurals', 'comparatives', 'superlatives')}
rev = {v: k for k, v in irr['past_participles'].items()}
std = Standardizer(lm)
lem = Lemmatizer(lm, set(ADJS), irr['preterits'], irr['past_participles'], irr['plurals'], irr['comparatives'], irr['superlatives'], rev)
inf = Inflector(lm, rev)
cache = {}
# The same components one by one.  Their interface is internal: where it differs from what is read here, the whole pipeline alone is judged.
try:
    from scrappybara.normalization.canonicalizer import Canonicalizer
    from scrappybara.semantics.semantic_tuple_extractor import SemanticTupleExtractor
    from scrappybara.syntax.arg_finder import ArgFinder
    from scrappybara.syntax.chunker import Chunker
    from scrappybara.syntax.fixer import Fixer
    from scrappybara.syntax.labelled_data import LabelledSentence
    from scrappybara.syntax.nodifier import Nodifier
    from scrappybara.syntax.dependencies import Dep
    from scrappybara.utils.tree import Tree
    nodify, fix, chunk, canonize = Nodifier(), Fixer(set(ADJS), set(NOUNS)), Chunker(), Canonicalizer(lem)
    attach, extract = ArgFinder(), SemanticTupleExtractor(lm, rev)
    composed = True
except Exception:
    composed = False


def string(x):
    assert isinstance(x, str)
    return x


def row(n, tree):
    up = tree.parent(n)
    assert isinstance(n.is_inf_to, bool)
    return {'i': n.idx + 1, 'text': string(n.original), 'tag': n.tag.name, 'parts': [string(p) for p in n.particles], 'to': n.is_inf_to,
            'par': 0 if up is None else up[1].idx + 1, 'dep': '' if up is None else up[0].name,
            'kids': [[d.name, c.idx + 1] for d, c in tree.children(n)]}


def stages(sent, chunking):
    """What each stage produced, as far as it can be read"""
    obs = {}
    if not composed:
        return obs
    try:
        ls = LabelledSentence(0, list(sent))
        nd, tree = nodify(ls.tokens, ls.tags, ls.tree)
        nodes = list(nd.values())
        obs['nodes'] = [row(n, tree) for n in nodes]
        if ls.tree is not None:       # the order in which the arcs were found does not matter
            arcs = [(d, p, c) for c, (_, _, d, p) in enumerate(sent) if d not in ('NODEP', 'ROOT') and p > -1]
            RNG.shuffle(arcs)
            again = Tree(ls.tree.root)
            for d, p, c in arcs:
                again.register_child(Dep[d], p, c)
            nd2, tree2 = nodify(ls.tokens, ls.tags, again)
            obs['shuffled'] = [row(n, tree2) for n in nd2.values()]
        for n in nodes:
            n.standard = std(n.standard)
            n.lemma, n.suffix = lem(n.standard, n.tag)
        for n in nodes:
            fix(n, tree)
        if chunking:
            chunk(nodes, tree)
        for n in nodes:
            canonize(n)
        obs['canon'] = [{'i': n.idx + 1, 'tag': n.tag.name, 'canon': string(n.canon), 'active': string(n.active_verb or '')} for n in nodes]
        attach(nodes, tree)
        k = lambda n: 0 if n is None else n.idx + 1
        args = {}
        for a in ('subjs', 'objs', 'iobjs', 'exists', 'props', 'iprops', 'adjs', 'agents'):
            args[a] = [[k(n), k(x)] for n in nodes for x in getattr(n, a)]
        args['copulas'] = [[k(n), k(c), k(x)] for n in nodes for c, x in n.copulas_props]
        args['owned'] = [[k(n), k(s), k(v), k(x)] for n in nodes for s, v, x in n.subjs_verbs_iprops]
        args['pps'] = [[k(n), k(c), k(x)] for n in nodes for c, x in n.pps_props]
        args['neg'] = [[k(n)] for n in nodes if not n.is_aff]
        obs['args'] = args
        obs['comp'] = read(extract(nodes))
    except Exception as e:
        obs['stopped'] = '%s: %s' % (type(e).__name__, e)
    return obs


def tables(sent):
    """Answers of the normalization components (verified on their own) for all the texts of a sentence"""
    key = tuple(sent)
    texts = {t[0].lower() for t in sent}
    for k in range(len(sent)):
        chain, i = [sent[k][0]], k
        for _ in sent:
            nxt = [j for j, t in enumerate(sent) if t[2] == 'FLAT' and t[3] == i]
            if not nxt:
                break
            i = nxt[0]
            chain.append(sent[i][0])
            texts.add(' '.join(chain).lower())
    tags = {t[1] for t in sent} | {'VERB'}
    S, L = {}, {t: {} for t in tags}
    lemmas = set()
    for x in texts:
        if x not in cache:
            s = std(x)
            cache[x] = s, {t: lem(s, Tag[t]) for t in sentgen.ALL_TAGS}
        s, ls = cache[x]
        S[x] = s
        for t in tags:
            a, b = ls[t]
            L[t][s] = [a, 'NONE' if b is None else Suffix(b).name]
            lemmas.add(a)
    return {'std': S, 'lem': L, 'pp': {a: inf.past_participle(a) for a in lemmas}, 'adjs': [a for a in ADJS if a in lemmas], 'nouns': [a for a in NOUNS if a in lemmas]}


def run(sent, wild=False, chunking=True):
    given = list(sent)
    st, r = call(lambda: read(pipe.test_sample(given)))
    if given != sent:
        st, r = 'exc', 'the sentence was changed'
    case = {'wild': wild, 'tok': [t[0] for t in sent], 'tag': [t[1] for t in sent], 'dep': [t[2] for t in sent], 'par': [t[3] + 1 for t in sent],
            'root': [t[2] for t in sent].index('ROOT') + 1 if 'ROOT' in [t[2] for t in sent] else 0}
    st2, T = call(tables, sent)
    if st2 != 'ok':
        st, r, T = 'exc', T, {}
    case['T'] = T
    case['chunk'] = chunking
    obs = {} if wild or st2 != 'ok' else stages(sent, chunking)
    case['obs'] = obs
    if not chunking:
        case['res'] = obs.get('comp', [])
    shown = [''.join(a['c'] for a in t) + '(' + ', '.join(('' if a['a'] else 'NOT ') + a['w'] for a in t) + ')' for t in r] if st == 'ok' else None
    out.put(show={'sentence': sent, 'chunking': chunking, 'stages': obs, 'tuples': shown, 'exc': None if st == 'ok' else str(r)}, **(dict({'res': r}, **case) if st == 'ok' else dict(case, exc=str(r))))


seen = set()
if P.get('behaviours'):
    with open(P['behaviours']) as f:
        for line in f:
            b = json.loads(line)
            run([tuple(x) for x in b['sent']])
with open(os.path.join(os.path.dirname(os.path.abspath(sentgen.__file__)), 'samples.json')) as f:
    for sample in json.load(f):       # the labelled sentences of the project's own samples, also with one word negated or a word's label changed
        sample = [tuple(t) for t in sample]
        run(sample)
        run(sample, chunking=False)
        for k in range(scale(2, 20)):
            i = RNG.randrange(len(sample))
            run(sample + [('not', 'ADV', 'NEG', i)] if sample[i][3] >= 0 and sample[i][2] not in ('FLAT', 'PART') else sample[:i] + [(RNG.choice(['it', 'Bob', 'him']),) + sample[i][1:]] + sample[i + 1:])
sizes = [1, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 12, 15]
for k in range(scale(2400, 50000)):
    run(sentgen.sentence(RNG, RNG.choice(sizes), RNG.choice([0, 0, 0, 1, 2])))
for k in range(scale(24, 500)):       # as long as sentences get
    run(sentgen.sentence(RNG, RNG.choice([25, 35, 50]), RNG.choice([0, 1])))
for k in range(scale(700, 14000)):
    run(sentgen.clauses(RNG))
for k in range(scale(700, 14000)):
    run(sentgen.loose(RNG, RNG.choice(sizes)))
for k in range(scale(600, 12000)):
    run(sentgen.wild(RNG, RNG.choice(sizes)), True)
for k in range(scale(2700, 48000)):
    run(sentgen.motif(RNG, k))
for k in range(scale(500, 10000)):
    run(sentgen.sentence(RNG, RNG.choice(sizes), RNG.choice([0, 0, 0, 1, 2])), chunking=False)
out.close()
