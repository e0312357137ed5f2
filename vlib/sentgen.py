"""Random labelled sentences: lists of (token, tag, dep, parent idx)."""
VOC = {
    'VERB': ['eat', 'ate', 'eats', 'running', 'have', 'get', 'is', 'be', 'does', 'argued', 'tries', 'love', 'Saw', 'have', 'stopped', 'organise', 'gave'],
    'NOUN': ['dog', 'Dogs', 'infant', 'mortality', 'cake', 'tax', 'policies', 'low', 'colour', 'women', 'analysis', 'big', 'light', 'gold'],
    'ADJ': ['big', 'eaten', 'Broken', 'tired', 'bigger', 'low', 'light', 'gold', 'running', 'painted', 'dog', 'happiest'],
    'PRON': ['i', 'me', 'him', 'them', 'that', 'which', 'who', 'Who', 'myself', 'themselves', 'it', 'you', 'her', 'us', 'himself', 'everyone'],
    'PROPN': ['New', 'York', 'Bob', 'Acme', 'Sales', 'low', 'That'],
    'NUM': ['3', 'two', 'light', '1951'], 'SYM': ['#win', 'x.com', 'low'],
    'ADV': ['not', 'quickly', "n't", 'never', 'very'], 'PREP': ['by', 'with', 'By', 'of', 'but', 'as', 'than'], 'FRAG': ['to', 'up', 'To', 'off', 'out', 'down'],
    'DET': ['the', 'a', 'her'], 'CONJ': ['and', 'or', 'but', 'that'], 'MAT': ['will', 'was', 'can'], 'EXPR': ['wow'], 'PUNCT': [',', '.'],
    'THERE': ['there'],
}
NOUNISH = ['NOUN'] * 6 + ['PRON'] * 5 + ['PROPN'] * 2 + ['NUM', 'SYM']
# Children of a word by its tag: (label, tags, weight)
COMMON = [('NEG', ['ADV'], 3), ('AND', None, 2), ('OR', None, 1), ('MARK', ['PREP', 'CONJ'], 2), ('CMARK', ['PREP'], .6), ('IMARK', ['CONJ'], .6),
          ('PART', ['FRAG'], 1.2), ('INTJ', ['EXPR'], .2), ('FLAT', ['PROPN', 'NOUN', 'ADV'], .5), ('SPLIT', ['VERB', 'NOUN'], .3)]
VERBK = [('SUBJ', NOUNISH + ['VERB', 'VERB', 'ADJ'], 8), ('OBJ', NOUNISH + ['VERB'] * 6 + ['ADJ'], 8), ('IOBJ', NOUNISH + ['VERB', 'ADJ'], 2), ('EXIST', NOUNISH + ['VERB'], .7),
         ('PROP', ['ADJ', 'ADJ', 'ADJ', 'NOUN', 'PRON', 'VERB', 'ADV'], 3), ('IPROP', ['ADJ', 'NOUN', 'VERB', 'ADV'], 2), ('AUX', ['MAT'], .5), ('MODAL', ['MAT'], .5), ('CPL', ['VERB', 'VERB', 'NOUN', 'ADV', 'ADJ'], 4), ('CALLEE', ['PROPN'], .3)]
NOUNK = [('CPL', ['VERB'] * 4 + ['NOUN'] * 4 + ['ADJ'] * 6 + ['PROPN', 'NUM'], 10), ('ART', ['DET', 'NOUN'], 2), ('ORPHAN', ['NOUN'], .2)]
ADJK = [('CPL', ['NOUN', 'PROPN', 'PRON', 'ADV', 'VERB'], 5), ('PROP', ['NOUN', 'ADJ', 'PROPN'], 2)]
UNIQUE = {'SUBJ', 'OBJ', 'MARK', 'CMARK', 'IMARK', 'PROP', 'FLAT', 'IPROP'}
ALL_LABELS = ['AND', 'ART', 'AUX', 'CALLEE', 'CMARK', 'CPL', 'EXIST', 'FLAT', 'IMARK', 'INTJ', 'IOBJ', 'IPROP', 'MARK', 'MODAL', 'NEG', 'OBJ', 'OR', 'ORPHAN', 'PART',
              'PROP', 'SPLIT', 'SUBJ']
ALL_TAGS = ['ADJ', 'PREP', 'ADV', 'MAT', 'CONJ', 'DET', 'EXPR', 'NOUN', 'NUM', 'FRAG', 'PRON', 'PROPN', 'PUNCT', 'VERB', 'SYM', 'THERE']


def kinds(tag):
    return COMMON + (VERBK if tag == 'VERB' else NOUNK if tag in NOUNISH else ADJK if tag == 'ADJ' else [('CPL', ['ADV', 'ADJ', 'VERB', 'NOUN'], 2)])


def tree(rng, n):
    """n words as dicts: tag, dep, par (index in this list)"""
    nodes = [{'tag': rng.choice(['VERB'] * 6 + ['NOUN', 'NOUN', 'ADJ', 'PRON']), 'dep': 'ROOT', 'par': -1}]
    while len(nodes) < n:
        p = rng.randrange(len(nodes)) if rng.random() < .6 else len(nodes) - 1 - rng.randrange(min(3, len(nodes)))
        par = nodes[p]
        if par['dep'] in ('FLAT', 'PART') and rng.random() < .95:
            p = par['par']
            par = nodes[p]
            if par['dep'] in ('FLAT', 'PART'):
                continue
        ks = kinds(par['tag'])
        label, tags, _ = rng.choices(ks, [k[2] for k in ks])[0]
        if par['dep'] == 'FLAT' and label != 'FLAT' or par['dep'] == 'PART':
            continue
        mine = {x['dep'] for x in nodes if x['par'] == p}
        if label in UNIQUE and label in mine or label == 'FLAT' and 'PART' in mine or label == 'PART' and 'FLAT' in mine:
            continue
        nodes.append({'tag': rng.choice(tags) if tags else par['tag'] if rng.random() < .8 else rng.choice(['VERB', 'NOUN', 'ADJ']), 'dep': label, 'par': p})
    return nodes


def linear(rng, nodes, extra=0):
    """Puts the words in a random but mostly natural order, with words outside the tree in between"""
    order = []

    def place(k):
        kids = [i for i, x in enumerate(nodes) if x['par'] == k]
        rng.shuffle(kids)
        left = [i for i in kids if (rng.random() < .5 if nodes[i]['dep'] != 'FLAT' else rng.random() < .1)]
        for i in left:
            place(i)
        order.append(k)
        for i in kids:
            if i not in left:
                place(i)

    place(0)
    if rng.random() < .15:
        rng.shuffle(order)
    for _ in range(extra):
        order.insert(rng.randint(0, len(order)), None)
    pos = {k: i for i, k in enumerate(order) if k is not None}
    sent = []
    for k in order:
        if k is None:
            tag = rng.choice(['PUNCT', 'CONJ', 'NOUN'])
            sent.append([rng.choice(VOC[tag]), tag, 'NODEP', -1])
        else:
            x = nodes[k]
            sent.append([x.get('tok') or rng.choice(VOC[x['tag']]), x['tag'], x['dep'], -1 if x['par'] < 0 else pos[x['par']]])
    return [tuple(x) for x in sent]


def sentence(rng, n, extra=0):
    return linear(rng, tree(rng, n), extra)


def wild(rng, n):
    """Any tags, labels and tree"""
    nodes = [{'tag': rng.choice(ALL_TAGS), 'dep': 'ROOT', 'par': -1}]
    while len(nodes) < n:
        nodes.append({'tag': rng.choice(ALL_TAGS), 'dep': rng.choice(ALL_LABELS), 'par': rng.randrange(len(nodes))})
    return linear(rng, nodes, rng.randrange(3))


def loose(rng, n):
    """Any tags, labels and tree, but names and particles as they should be"""
    nodes = [{'tag': rng.choice(ALL_TAGS), 'dep': 'ROOT', 'par': -1}]
    tags = rng.choice([ALL_TAGS, ['VERB', 'VERB', 'NOUN', 'ADJ', 'PRON'], ['VERB', 'NOUN', 'ADJ', 'PRON', 'PROPN', 'ADV', 'NUM', 'SYM', 'PREP']])
    while len(nodes) < n:
        p = rng.randrange(len(nodes))
        label = rng.choice(ALL_LABELS)
        mine = {x['dep'] for x in nodes if x['par'] == p}
        if nodes[p]['dep'] == 'PART' or nodes[p]['dep'] == 'FLAT' and label != 'FLAT' or label == 'FLAT' and mine & {'FLAT', 'PART'} or label == 'PART' and 'FLAT' in mine:
            continue
        nodes.append({'tag': rng.choice(tags), 'dep': label, 'par': p})
    return linear(rng, nodes, rng.choice([0, 0, 0, 1, 2]))


def clauses(rng):
    """Two clauses one inside the other: all kinds of dependents on either side"""
    def some(options, p):
        return [(rng.choice(t), d, at) for t, d, at in options if rng.random() < p]

    noun, any_ = ['NOUN', 'PRON', 'PROPN', 'NUM'], ['NOUN', 'PRON', 'VERB', 'ADJ', 'ADV', 'SYM']
    nodes = [('VERB', 'ROOT', -1), ('VERB', rng.choice(['OBJ', 'OBJ', 'OBJ', 'CPL', 'SUBJ', 'PROP', 'IOBJ', 'IPROP', 'AND', 'OR']), 0)]
    nodes += some([(noun, 'SUBJ', 0), (noun, 'SUBJ', 1)], .75) + some([(any_, 'OBJ', 1), (any_, 'SUBJ', 1), (any_, 'OBJ', 0), (noun, 'IOBJ', 1)], .3)
    nodes += some([(['ADJ', 'NOUN', 'VERB', 'ADV'], 'PROP', 1), (['ADJ', 'NOUN'], 'IPROP', 1), (['NOUN'], 'EXIST', 1), (['FRAG'], 'PART', 1), (['PREP', 'CONJ'], 'MARK', 1),
                   (['VERB', 'NOUN'], 'AND', 1), (['ADV'], 'NEG', 1), (['ADV'], 'NEG', 0)], .18)
    uniq, out = set(), []
    for tag, dep, at in nodes:
        if dep not in UNIQUE or (dep, at) not in uniq:
            uniq.add((dep, at))
            out.append({'tag': tag, 'dep': dep, 'par': at})
    for k in range(2, len(out)):
        if out[k]['dep'] != 'NEG' and out[k]['dep'] != 'PART' and rng.random() < .15:
            out.append(rng.choice([{'tag': 'ADV', 'dep': 'NEG', 'par': k}, {'tag': out[k]['tag'], 'dep': 'AND', 'par': k}, {'tag': 'ADJ', 'dep': 'CPL', 'par': k}]))
    return linear(rng, out, 0)


# Constructions each rule is about, with every word it names and its neighbours
REFLEXIVE = ['myself', 'yourself', 'yourselves', 'himself', 'herself', 'itself', 'ourself', 'ourselves', 'theirself', 'themselves', 'oneself', 'Himself', 'themself', 'him', 'self']
RELATIVE = ['that', 'which', 'who', 'That', 'Who', 'Which', 'whom', 'whose', 'what', 'where', 'this', 'it']
LIGHT = ['have', 'get', 'be', 'do', 'is', 'has', 'does', 'gets', 'got', 'had', 'was', 'eat', 'love', 'gave']
MARKS = ['by', 'By', 'BY', 'with', 'of', 'but', 'to', 'near']
PRONS = ['i', 'me', 'you', 'he', 'him', 'she', 'her', 'it', 'we', 'us', 'they', 'them', 'Me', 'Them', 'mine']


class _Motif:

    def __init__(self, rng):
        self.rng = rng
        self.nodes = []

    def add(self, tag, dep, par=-1, tok=None):
        tag = self.rng.choice(tag) if isinstance(tag, list) else tag
        tok = self.rng.choice(tok) if isinstance(tok, list) else tok
        if tag == 'PRON' and tok is None and self.rng.random() < .4:
            tok = self.rng.choice(PRONS)
        self.nodes.append(dict({'tag': tag, 'dep': dep, 'par': par}, **({'tok': tok} if tok else {})))
        return len(self.nodes) - 1

    def odds(self, p):
        return self.rng.random() < p

    def conj(self, k, p=.4):
        """Coordinates up to three (possibly nested) words to a word"""
        at = k
        while self.odds(p) and len(self.nodes) < 14:
            j = self.add([self.nodes[k]['tag']] * 4 + ['NOUN', 'VERB', 'ADJ'], self.rng.choice(['AND', 'AND', 'OR']), at)
            if self.odds(.15):
                at = j
            if self.odds(.2):
                self.add(['NOUN', 'PRON'], self.rng.choice(['SUBJ', 'OBJ', 'CPL', 'IOBJ']), j)

    def noun(self, dep, par, p=.3):
        k = self.add(NOUNISH, dep, par)
        self.conj(k, p)
        return k


def _reflexive(m):
    head = m.add('NOUN', 'ROOT') if m.odds(.4) else -1
    if head >= 0:
        v = m.add('VERB', m.rng.choice(['CPL', 'CPL', 'SUBJ']), head)
        s = m.add('PRON', 'SUBJ', v, RELATIVE)
    else:
        v = m.add('VERB', 'ROOT')
        s = m.noun('SUBJ', v) if m.odds(.8) else -1
    if m.odds(.6):
        m.add(['PRON', 'PRON', 'NOUN'], m.rng.choice(['OBJ', 'OBJ', 'OBJ', 'IOBJ', 'IPROP']), v, REFLEXIVE)
    else:
        w = m.add(['VERB', 'VERB', 'ADJ'], m.rng.choice(['OBJ', 'OBJ', 'CPL', 'IOBJ']), v)
        m.add(['PRON', 'PRON', 'NOUN'], m.rng.choice(['SUBJ', 'SUBJ', 'OBJ']), w, REFLEXIVE)
        if m.odds(.5):
            m.add(['NOUN', 'ADJ'], m.rng.choice(['PROP', 'OBJ']), w) if not any(x['par'] == w and x['dep'] == 'OBJ' for x in m.nodes) else m.conj(w)
    m.conj(v, .2)


def _relative(m):
    head = m.noun(m.rng.choice(['ROOT']), -1, .25)
    v = m.add(['VERB'] * 5 + ['ADJ'], m.rng.choice(['CPL', 'CPL', 'CPL', 'CPL', 'AND', 'SUBJ']), head)
    role = m.rng.choice(['SUBJ', 'SUBJ', 'OBJ'])
    m.add(['PRON'] * 5 + ['DET', 'CONJ', 'NOUN'], role, v, RELATIVE)
    if m.odds(.5):
        m.noun('OBJ' if role == 'SUBJ' else 'SUBJ', v)
    if m.odds(.4):
        p = m.add(['ADJ', 'NOUN', 'VERB'], m.rng.choice(['PROP', 'IPROP']), v)
        m.conj(p, .3)
        if m.odds(.2):
            m.add('PREP', m.rng.choice(['MARK', 'CMARK', 'IMARK']), p, MARKS)
    if m.odds(.15):
        m.add('CONJ', m.rng.choice(['MARK', 'CMARK', 'IMARK']), v)
    if m.odds(.5):      # a second verb that shares the subject
        w = m.add(['VERB'] * 4 + ['ADJ'], m.rng.choice(['CPL', 'CPL', 'CPL', 'AND', 'OR']), v)
        if m.odds(.85):
            m.add('CONJ', m.rng.choice(['MARK', 'MARK', 'MARK', 'CMARK', 'IMARK']), w, ['but', 'and', 'to'])
        if m.odds(.4):
            m.noun(m.rng.choice(['OBJ', 'OBJ', 'SUBJ']), w)
        m.conj(w, .2)
    m.conj(v, .2)


def _agent(m):
    kind = m.rng.choice(['PROP', 'PROP', 'CPL', 'CPL', 'IPROP', 'ROOT', 'OBJ', 'SUBJ', 'AND'])
    if kind == 'CPL':
        at = m.add(NOUNISH, 'ROOT')
    elif kind == 'ROOT':
        at = -1
    else:
        at = m.add('VERB', 'ROOT', -1, LIGHT)
        if m.odds(.85):
            m.noun('SUBJ', at)
        if kind == 'IPROP' and m.odds(.8):
            m.noun('OBJ', at)
    a = m.add(['ADJ'] * 5 + ['NOUN', 'VERB'], kind, at)
    if m.nodes[a]['tag'] == 'ADJ':
        m.nodes[a]['tok'] = m.rng.choice(['eaten', 'Broken', 'painted', 'tired', 'loved', 'big', 'running', 'taken'])
    if m.odds(.2):
        m.conj(a, .5)
    for _ in range(m.rng.choice([1, 1, 1, 2])):
        g = m.add(NOUNISH + ['VERB', 'ADJ'], m.rng.choice(['CPL'] * 6 + ['IOBJ']), a)
        m.conj(g, .6)
        if m.odds(.92):
            m.add('PREP', m.rng.choice(['MARK'] * 6 + ['IMARK', 'CMARK']), g, MARKS[:3] * 2 + MARKS)
    if m.odds(.25):
        m.add(['NOUN', 'ADJ', 'ADV'], 'PROP', a)
    if m.odds(.2):
        m.add('FRAG', 'PART', a)


def _coordination(m):
    v = m.add('VERB', 'ROOT', -1, LIGHT if m.odds(.3) else None)
    for d in m.rng.sample(['SUBJ', 'OBJ', 'IOBJ', 'EXIST', 'PROP', 'IPROP'], m.rng.randint(1, 3)):
        k = m.add(NOUNISH + ['ADJ', 'ADJ', 'VERB'], d, v)
        m.conj(k, .6)
    m.conj(v, .5)


def _particles(m):
    v = m.add(['VERB'] * 4 + ['ADJ', 'NOUN'], 'ROOT', -1, LIGHT if m.odds(.5) else None)
    for _ in range(m.rng.randint(1, 4)):
        m.add(['FRAG', 'FRAG', 'PREP', 'ADV'], 'PART', v, ['to', 'To', 'TO', 'up', 'Off', 'OUT', 'down', 'back'])
    for d in m.rng.sample(['SUBJ', 'OBJ', 'CPL', 'IPROP'], m.rng.randint(0, 3)):
        m.noun(d, v, .15)
    if m.odds(.3):
        w = m.add('VERB', 'OBJ' if not any(x['dep'] == 'OBJ' for x in m.nodes) else 'CPL', v, LIGHT)
        for _ in range(m.rng.randint(0, 3)):
            m.add('FRAG', 'PART', w, ['to', 'To', 'up', 'Off', 'out'])
        if m.odds(.4):
            m.noun('OBJ', w)


def _compounds(m):
    at = m.add('VERB', 'ROOT') if m.odds(.5) else -1
    head = m.add(['NOUN'] * 4 + ['PROPN', 'PRON', 'NUM'], 'OBJ' if at >= 0 else 'ROOT', at)
    todo = [head]
    while len(m.nodes) < 9 and m.odds(.8):
        k = m.add(['NOUN'] * 5 + ['PROPN', 'NUM', 'ADJ', 'SYM'], m.rng.choice(['CPL'] * 7 + ['AND', 'FLAT']), m.rng.choice(todo))
        if m.nodes[k]['dep'] == 'FLAT' and any(x['dep'] == 'FLAT' and x['par'] == m.nodes[k]['par'] for x in m.nodes[:k]):
            m.nodes.pop()
            continue
        if m.nodes[k]['dep'] != 'FLAT':
            todo.append(k)
            if m.odds(.2):
                m.add('PREP', m.rng.choice(['MARK', 'CMARK', 'IMARK']), k, MARKS)


def _comparison(m):
    n = m.noun('ROOT', -1) if m.odds(.5) else m.add('VERB', 'ROOT', -1, ['is', 'be', 'was'])
    if m.nodes[n]['tag'] == 'VERB':
        m.noun('SUBJ', n)
    a = m.add(['ADJ'] * 5 + ['ADV', 'NOUN'], 'CPL' if m.nodes[n]['tag'] != 'VERB' else 'PROP', n)
    m.conj(a, .3)
    c = m.add(NOUNISH + ['VERB', 'ADJ'], 'CPL', a)
    m.add('PREP', m.rng.choice(['CMARK'] * 4 + ['MARK', 'IMARK']), c, ['than', 'as', 'by'])
    if m.odds(.15):
        m.add('PREP', 'MARK', c, MARKS)
    m.conj(c, .3)


def _wishes(m):
    """Clauses inside clauses, coordinated and nested in every way"""
    v = m.add('VERB', 'ROOT')
    if m.odds(.9):
        m.noun('SUBJ', v, .2)
    verbs, at = [v], v
    for k in range(m.rng.randint(1, 4)):
        dep = 'OBJ' if not k else m.rng.choice(['AND', 'AND', 'OR', 'OBJ', 'OBJ', 'SUBJ', 'CPL'])
        if dep in UNIQUE and any(x['par'] == at and x['dep'] == dep for x in m.nodes):
            dep = 'AND'
        w = m.add(['VERB'] * 5 + ['NOUN', 'ADJ'], dep, at)
        verbs.append(w)
        for d, p in (('SUBJ', .35), ('OBJ', .35), ('PROP', .12), ('IPROP', .08), ('IOBJ', .12), ('PART', .1)):
            if m.odds(p):
                m.add({'PROP': ['ADJ', 'NOUN'], 'IPROP': ['ADJ', 'NOUN'], 'PART': ['FRAG']}.get(d, NOUNISH), d, w)
        at = m.rng.choice([w, w, w, m.rng.choice(verbs)])


def decorate(m):
    """Adjectives, subjects and objects on any words"""
    for _ in range(m.rng.randint(1, 3)):
        k = m.rng.randrange(len(m.nodes))
        tag, dep = m.nodes[k]['tag'], m.nodes[k]['dep']
        if dep in ('FLAT', 'PART', 'NEG', 'MARK', 'CMARK', 'IMARK'):
            continue
        if tag == 'VERB':
            m.add(NOUNISH + ['VERB'], m.rng.choice(['SUBJ', 'OBJ', 'IOBJ', 'AND']), k)
        elif tag == 'ADJ':
            m.add(['ADJ', 'NOUN'], m.rng.choice(['AND', 'OR', 'PROP', 'CPL']), k)
        else:
            m.add(['ADJ', 'ADJ', 'NOUN', 'VERB'], m.rng.choice(['CPL', 'CPL', 'CPL', 'AND']), k)


MOTIFS = [_wishes, _reflexive, _relative, _agent, _coordination, _particles, _compounds, _comparison]


def motif(rng, kind):
    while True:
        m = _Motif(rng)
        MOTIFS[kind % len(MOTIFS)](m)
        if rng.random() < .35:
            decorate(m)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            k = rng.randrange(len(m.nodes))
            if m.nodes[k]['dep'] not in ('FLAT', 'PART', 'NEG'):
                m.add('ADV', 'NEG', k, ['not', "n't", 'never'])
        if sound(m.nodes):
            return linear(rng, m.nodes, rng.choice([0, 0, 0, 1]))


def sound(nodes):
    """One word per label where the rules speak of the word, and no name with particles"""
    seen = set()
    for x in nodes:
        if x['dep'] in UNIQUE:
            if (x['dep'], x['par']) in seen:
                return False
            seen.add((x['dep'], x['par']))
        p = x['par']
        if p >= 0 and (nodes[p]['dep'] == 'PART' or nodes[p]['dep'] == 'FLAT' and x['dep'] != 'FLAT'):
            return False
        if x['dep'] == 'PART' and ('FLAT', p) in seen or x['dep'] == 'FLAT' and any(y['dep'] == 'PART' and y['par'] == p for y in nodes):
            return False
    return True
