from vlib.impl import *
from vlib import world
require_repo()
import json
from scrappybara.langmodel.language_model import LanguageModel
from scrappybara.normalization.standardizer import Standardizer
from scrappybara.normalization.lemmatizer import Lemmatizer
from scrappybara.normalization.inflector import Inflector
from scrappybara.normalization.suffixes import Suffix
from scrappybara.syntax.tags import Tag

MODE = P['mode']
CONTEXTS = ['i', 'you', 'we', 'they', 'may', 'might', 'can', 'could', 'would', 'should']
OFF = ['he', 'she', 'must', 'will', 'it', 'to', 'the']  # not among the contexts

STARTS = ['a', 'e', 'y', 'b', 'l', 'th', 'ob', 'ax', 'be', 'fr', 'dy', 'us', 'fox', 'fre', 'par', 'sin', 'lar', 'fat', 'big',
          'bak', 'tri', 'obe', 'fatt', 'tall', 'bark', 'bake', 'free', 'larg', 'roll', 'picn', 'happ', 'happi', 'sing',
          'stopp', 'kiss', 'buzz', 'formatt', 'travell', 'criteri', 'nucle', 'analys', 'argu', 'agree', 'appl', 'panicc',
          'berr', 'talk', 'wol', 'wi', 'wo', 'police', 'gam', 'class', 'boss', 'remix', 'refin', 'remark', 'unroll', 'untal',
          'misfir', 'disobey', 'outru', 'cowork', 'submen', 'grandchil', 're-forg', 're-rol', 'x-ra', 'a-b-c', 're', 'un',
          'mis', 'grand', 'sub', 'co-', '-co', 'ree', "o'b", 'r2d', 'qu', 'equ', 'vv', 'ayy', 'ebb', 'trekk', 'playy', 'dyy', 'synn', 'gyll', 'symm']
ENDS = ['', 'e', 'est', 'er', 'iest', 'ier', 'icking', 'icked', 'icks', 'ing', 'ied', 'ies', 'ed', 'es', 's', 'ss', 'a', 'ieves',
        'i', 'ves', 'men', 'man', 'is', 'y', 'eed', 'eing', 'ings', 'ers', 'ic', 'ick', 'ves', 'aves', 'amen', 'n', 'ses', 'xes']
ADDS = ['', 'e', 'y', 'ie', 'ic', 'on', 'us', 'f', 'fe', 've', 'man', 'is', 'ief', 'es', 'ed']
SPECIALS = ["'m", 'am', "'re", 'are', "'s", 'is', 'being', 'has', 'doing', 'need', 'better', 'best', "'", 'acumen', 'was', 'be', 'have',
            'needed', 'needs', 'does', 'do', 'goes', 'good', 'well', 'needing', 'unneed', 'abdomen', 'rebest']
TAGS = ['ADJ', 'VERB', 'NOUN', 'ADV', 'PROPN', 'PRON', 'NUM', 'SYM', 'MAT', 'DET', 'PREP']

SSTARTS = ['', 'c', 'co', 'col', 'colo', 'colon', 'fav', 'flav', 'our', 'tour', 'real', 'rea', 'anal', 'para', 'crit', 'defen', 'def', 'de',
           'offen', 'licen', 'catal', 'dial', 'di', 'anal', 'trav', 'tra', 'model', 'mod', 'can', 'leuk', 'foet', 'aest', 'haem', 'oe', 'ae', 'laev',
           'isis', 'yoy', 'elel', 'ogog', 'r2', 'x-y', 'oror', 'coloris', 'favorit']
SMIDS = ['our', 'or', 'ys', 'yz', 'is', 'iz', 'c', 's', 'og', 'ogue', 'el', 'ell', 'ae', 'oe', 'z', 'aeae', 'aoe', 'e', 'ourour']
SENDS = ['', 'ing', 'ed', 's', 'ations', 'ation', 'ers', 'er', 'es', 'e', 'ives', 'ive', 'or', 'mia', 'gens', 'ized', 'isation', 'ely', 'ling', 'led', 'ic']


def std_candidates(w):
    out = {w, w.replace('ae', 'e'), w.replace('oe', 'e'), w.replace('ae', 'e').replace('oe', 'e'), w.replace('ae', 'e', 1), w.replace('oe', 'e', 1)}
    for n in range(2, len(w)):
        s = w[:n]
        rest = w[n:]
        for m in ('our', 'or', 'og', 'ogue', 'el', 'ell'):
            if rest.startswith(m):
                out |= {s + x for x in ('or', 'our', 'og', 'ogue')} | {s + x + rest[len(m):] for x in ('el', 'ell', 'or', 'our')}
        for m in ('ys', 'yz', 'is', 'iz'):
            if rest.startswith(m):
                out |= {s + m[0] + x for x in ('se', 'ze', 'ce')} | {s + m[0] + x + rest[2:] for x in 'sz'}
        if rest[0] in 'cs':
            out |= {s + 'se', s + 'ce', s + 'ze', s + 's' + rest[1:], s + 'c' + rest[1:]}
    return out


def lem_candidates(w):
    out = {w, w + 'es', w + 'e'}
    bases = {w}
    for p in ('re', 'un', 'mis', 'dis', 'out', 'co', 'sub', 'grand'):
        if w.startswith(p):
            bases.add(w[len(p):])
    if '-' in w:
        bases.add(w.split('-')[1])
    for b in bases:
        for k in range(1, min(6, len(b)) + 1):
            for a in ADDS:
                out.add(b[:-k] + a)
                if len(b) > k:
                    out.add(b[:-k] + b[len(b) - k - 1] + a)
    return {x for x in out if x}


def pp_words():
    import itertools
    ws = [''.join(t) for n in (2, 3) for t in itertools.product('aeybtw', repeat=n)]
    ws += [s + e for s in STARTS for e in ('', 'e', 'y', 'ie', 'ue', 'ee', 'ye', 'ay', 'oe', 'w', 'x', 'at', 'op', 'el')] + ['a', 'b', 'e', 'y']
    return list(dict.fromkeys(ws))


def make_lm(idx, cands, bigrams):
    """Random language model over the candidates; distinct probabilities"""
    n = len(cands) + len(bigrams)
    ps = RNG.sample(range(1, 999999), n)
    uni = [(c, RNG.choice([1, 1, 2, 4, 5, 6, 20]), ps[i]) for i, c in enumerate(sorted(cands))]
    bi = [(c, RNG.choice([1, 1, 2, 5]), ps[len(uni) + i]) for i, c in enumerate(sorted(bigrams))]
    if not uni:
        uni = [('zzz', 1, 1)]
    root = world.new_data_dir('n%d' % idx, english=False)
    world.write_grams(root, {1: uni, 2: bi})
    world.use_data_dir(root)
    return LanguageModel(1, 1), {t: {'c': c, 'p': p} for t, c, p in uni + bi}


def run_world(idx, words, out, worlds):
    density = RNG.choice([.15, .4, .7])
    cands, bigrams = set(), set()
    for w in words:
        cs = sorted(std_candidates(w) if MODE == 'standard' else lem_candidates(w.lower()) if MODE == 'lemma' else
                    {w + 'ed', w + w[-1] + 'ed', w + 'd', w[:-1] + 'ied', w + w[-1] * 2 + 'ed'})
        kept = [c for c in cs if c and ' ' not in c and RNG.random() < density]
        cands |= set(kept)
        if MODE == 'lemma':
            d2 = RNG.choice([0, .03, .15])
            for c in cs:
                for x in CONTEXTS + OFF:
                    if RNG.random() < d2 / 3:
                        bigrams.add(x + ' ' + c)
                if RNG.random() < d2:
                    bigrams.add(RNG.choice(cs) + ' ' + c)
        elif MODE == 'pp' and RNG.random() < .1:
            bigrams.add('the ' + w + 'ed')
    lm, lmrec = make_lm(idx, cands, bigrams)
    # tables
    irr = {n: {'qqq': 'qq'} for n in ('preterits', 'pps', 'plurals', 'comparatives', 'superlatives', 'irregular')}
    adjs = ['qqqq']
    for w in words:
        lw = w.lower()
        if MODE != 'standard' and RNG.random() < .12:
            b = lw
            for p in ('re', 'un', 'mis', 'dis', 'out', 'co', 'sub', 'grand'):
                if lw.startswith(p) and len(lw) > len(p) and RNG.random() < .7:
                    b = lw[len(p):]
            if '-' in lw and RNG.random() < .7 and lw.split('-')[1]:
                b = lw.split('-')[1]
            for n in irr:
                if RNG.random() < .35:
                    irr[n][b] = 'irr' + n[:4] + b[:2]
        if RNG.random() < .25:
            adjs.append(lw)
    rec = {'lm': lmrec, 'adjs': adjs}
    rec.update(irr)
    worlds.append(rec)
    std = Standardizer(lm)
    lem = Lemmatizer(lm, set(adjs), irr['preterits'], irr['pps'], irr['plurals'], irr['comparatives'], irr['superlatives'],
                     irr['irregular'])
    inf = Inflector(lm, irr['irregular'])
    for w in words:
        if MODE == 'standard':
            qs = [('standard', w, None)]
        elif MODE == 'pp':
            qs = [('pp', w, None)]
        else:
            tags = ['ADJ', 'VERB', 'NOUN'] + RNG.sample(TAGS[3:], 1)
            if w.lower() in SPECIALS:
                tags = TAGS
            qs = [('lemma', w, t) for t in tags]
        for op, word, tag in qs:
            if op == 'standard':
                st, r = call(std, word)
            elif op == 'pp':
                st, r = call(inf.past_participle, word)
            else:
                st, r = call(lem, word, Tag[tag])
                if st == 'ok':
                    try:
                        r = [r[0], 'NONE' if r[1] is None else Suffix(r[1]).name]
                    except Exception as e:
                        st, r = 'exc', 'bad answer %r' % (r,)
            if st == 'ok' and op != 'lemma' and not isinstance(r, str):
                st, r = 'exc', 'bad answer %r' % (r,)
            case = {'w': idx, 'op': op, 'word': word, 'tag': tag or '-', 'show': {'op': op, 'word': word, 'tag': tag, 'observed': r,
                    'known': {k: lmrec[k] for k in list(std_candidates(word) | lem_candidates(word.lower()))[:400] if k in lmrec} if len(word) < 9 else '...'}}
            out.put(**dict(case, **({'res': r} if st == 'ok' else {'exc': str(r)})))


def main():
    if MODE == 'standard':
        words = [s + m + e for s in SSTARTS for m in SMIDS for e in SENDS]
        n, size = scale(2600, 40000), 60
    elif MODE == 'lemma':
        words = [s + e for s in STARTS for e in ENDS]
        n, size = scale(2600, 40000), 50
    else:
        words = pp_words()
        n, size = scale(2400, 20000), 60
    words = [w for w in dict.fromkeys(words) if w]
    pool = []
    while len(pool) < n:
        RNG.shuffle(words)
        pool.extend(words)
    pool = pool[:n]
    if MODE == 'standard':
        # Every rule around its length limits, in several language models
        rules = [(('our', 'or'), ('ing', 'ed', 's', '')), (('ys', 'yz', 'is', 'iz'), ('ations', 'ation', 'ers', 'er', 'ing', 'ed', 'es', 'e')),
                 (('c', 's'), ('ives', 'ive', 'es', 'e')), (('og', 'ogue'), ('s', '')), (('el', 'ell'), ('ing', 'ers', 'ed', 'er'))]
        core = [s + m + e for s in ('d', 'di', 'dia', 'cata') for ms, es in rules for m in ms for e in es]
        core += [a + v + b for v in ('ae', 'oe') for a in ('', 'l', 'le') for b in ('', 'm', 'mi', 'mia')]
        for _ in range(scale(4, 12)):
            RNG.shuffle(core)
            pool[0:0] = core
    if MODE == 'lemma':
        pool = [w.upper() if RNG.random() < .04 else w.capitalize() if RNG.random() < .06 else w for w in pool]
        for _ in range(scale(2, 6)):
            pool[0:0] = SPECIALS
    out = Out()
    worlds = []
    for k in range(0, len(pool), size):
        run_world(len(worlds) + 1, list(dict.fromkeys(pool[k:k + size])), out, worlds)
    out.close()
    with open(P['out'] + '.worlds', 'w') as f:
        for w in worlds:
            f.write(json.dumps(w) + '\n')


main()
