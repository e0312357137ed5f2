"""Texts for the tokenizer & the sentencizer: fragments aimed at every rule and at its boundary, mutations, random
strings over small alphabets. Every character belongs to the sets declared in spec/Text.tla."""
import ast
import itertools
import os

ABBR = ['m', 'mr', 'mrs', 'ms', 'sr', 'dr', 'prof', 'rev', 'gov', 'sen', 'rep', 'lt', 'sgt', 'ave', 'st', 'ed', 'feat']
CONTR = ["n't", "'re", "'ll", "'ve", "'m", "'d", "'s"]
WORDS = ['a', 'I', 'be', 'He', 'cat', 'Dog', 'USA', 'word', 'Paris', 'said', 'x', 'Z', 'tall', 'can', 'not', 'do', 'caf\u00e9',
         '\u0436\u0436', '\u4e2d\u4e2d', 'na\u00efve'.replace('\u00ef', '\u00e4'), '1', '42', '3.5', '1,000', '007', 'e.g', 'U.S', 'A.B.C']
SYMS = list(".,:;!?'\"()[]{}<>=+-*/\\|&%#@$_~^`") + ['\u2026', '\u2013', '\u2014', '\u2018', '\u2019', '\u201c', '\u201d', '\u2032', '\u2033', '\u00b6']
SPACES = [' ', '  ', '\t', '\n', '\r\n', '\u00a0', '\u2009', '\n\n', ' \n ']

FRAGS = [
    # sanitization
    '\u2018hi\u2019 he said', 'don\u2019t', '\u201cHi\u201d', '6\u2032 tall', ' 6\u20323\u2033 tall', 'a\u2013b', 'a \u2014 b', 'a\u2014\u2013\u2014b', '\u2013', 'x\u2014',
    # protected
    "rock 'n' roll", "Rock 'N' Roll", "rock 'n roll", "rock n' roll", "rock N' roll 'n' x", "'n' roll", "rock 'n'", "a 'n' 'n' b",
    'http://foo.com', 'https://foo.bar.com/x?y=1&z=2', 'HTTP://FOO.COM/', 'www.foo.com', 'WWW.foo.co.uk/a/b.', 'http://foo',
    'see http://foo.com, and', 'foo.com/bar', 'x.y/http://www.foo.com/ now', 'www.a.b/c www.a.b/c', 'foo.com', 'a.b.c/d/e', 'www.foo', 'foo./x', 'a/b.c/d',
    ':)', ';)', ':-)', ';-)', ':(', ';(', ':-(', ';-(', 'hi :) there', 'hi:)there', ':-D', '(a :) b)', ':--)', 'x:-(y',
    # dots
    'end. then', 'end. Then', 'end.', 'end.Then', "end.'Then", 'END.Then', 'etc., and', 'etc. , and', 'etc.; x', 'etc.? x', 'etc.! x', 'etc.: x', 'No. 5', 'No. 5x', 'No. 5 x',
    'No.  5', 'a.b', 'a.b.', 'a.b.c', 'a.b.c.', '.a.b.c', 'U.S.A.', 'U.S.', 'A. Gray', '1.', '1. x', '1.2.', '1.2.3', '10.20.', '.5', '..', '...', '....', 'a...', 'a..b', '...a', 'a....b',
    'foo.bar.baz', 'foo.bar', 'foo.Bar', 'foo.Bar.', '\u4e2d.\u4e2d.', 'e.g. this', 'i.e. This', 'p.m.', 'x.y.Z', '._.', 'ab.cd.', 'a1.b2.', 'a.1.', '1.a.', 'word.. Next', 'word ...', 'no ... .', 'wait.. .',
    '.x', '. x', 'x .', 'a . b', 'A.', 'AB.', 'b. c', 'b. C',
    # measures
    "he is 6' tall", " 6' ", ' 6\'3" tall', 'is 6\'3"', ' 6" x', ' 6.5\'3,1" x', "6' x", ' 6"', "a6' x", " 1,000' x", " 6'x", ' 6\' 3"', " 6''",
    # comparisons
    'a>=b', 'a >= b', 'a > = b', 'a<=b', 'a < = b', 'a=>b', 'a = > b', 'a=<b', 'a =< b', 'a>b', 'a<b', 'a->b', 'a<-b', 'a-> b', '<-', '->', '>', '<', '>=', '<=', '=>', '=<', '>>', '<<', '>==', '==>', '<>', 'a>=<b', 'a=b', 'a==b', '-->', '<--',
    # always segmented
    'a=b', 'what!', 'what?', 'what?!', 'what!?!', 'a;b', 'a|b', 'a||b', 'a\\b', '(a)', '((a))', '{a}', '[a]', 'a\u2026', 'a\u2026\u2026b', '"a"', '""a""', 'x"y', '!', '?', '!!', '??', ';;', '[[', ']]', '{{', '}}', '\\\\', '\u2026', '[a](b)', 'a?b', 'a!b', '?!.', '.!', '!.',
    # can not
    'cannot', 'Cannot', 'CANNOT', 'cannot.', 'cannots', 'xcannot', 'can not', "cannot've", '_cannot', 'cannot-x',
    # stars, plus
    'f*ck', 'f**ck', 'f***', '*a', 'a*1', '1*a', 'a*', 'abc+def', 'ab+cde', 'abc+de', 'abc+defg', '1+a', '12+ab', '1+1', 'a+1', 'abc+1', 'C++', '18+', 'abcd+efg+hij', 'a*b*c', '2*x',
    # ampersand
    'a&b', 'A&B', 'AT&T', 'abc&def', 'Abc&Def', 'ABC&DEF', 'ab&cd', 'a &b', 'a& b', 'a & b', 'A & B', 'A B & C', 'A & B C', 'AB & C', 'A & BC', '& a', 'a &', '&', '&&', 'abcd&efgh&ijk', 'R&D', 'A & B & C', 'a.&b', 'A  &  B',
    # slash, percent
    'a/b', 'ab/c', 'a/bc', 'ab/cd', '1/2', '1/2a', '1a/2', 'a1/b2', 'and/or', '/', '//', 'a//b', 'ab//cd', '/ab', 'ab/', '5%', 'a%', '%a', 'a%b', '5%a', 'a%5', '%', '5 %', '100%.',
    # colon
    'a: b', 'a :b', 'a : b', 'abc:def', 'ab:cd', 'abc:d', 'Abc:de', 'ABC:def', 'abc:12', 'ab:12', '12:abc', '12:34', '1:a', ':', '::', 'a:', ':a', 'ABC:12', '2:Engage', 'abc:dE', 'x: ', 'a:b', 'abcd:1x',
    # comma
    'a,b', '1,2', 'a,1', '1,a', '1,', ',1', 'a, b', ',', ',,', '1,,2', '1,000,000', 'a ,b',
    # single quote
    "'a", "a'", "'a'", "a'b", "abc'def", "ab'cde", "abc'de", "'s", "'sa", "'Sa", "'S", "a's", "A'S", "a's.", "x 's y", "x 'sy z", "dogs' x", "'", "''", "' '", "'tis", "o'clock", "abc'defg'hij", "l'eau", "\u4e2d\u4e2d\u4e2d'\u4e2d\u4e2d\u4e2d", "'1", "''s",
    "don't", "DON'T", "we're", "I'll", "I've", "I'm", "he'd", "it's", "don't.", "don't,", "don'tx", "'ll", "n't", "can't've", "y'all're", "It'S", "don't-x", "xn't y",
    # bullets
    ' *abc', ' -abc', '-abc', ' -abc def', ' *1', ' -a1', ' -abc.', 'x - y', 'x -y', 'x -y z', 'a-b', '- a', ' *a *b', ' -- a', 'x *y-z',
    # other
    '#tag', '@me', '$5', '~5', 'a_b', '_a_', 'a^b', '`a`', 'x@y.com', '', ' ', '  a  ',
]

SENT_FRAGS = [
    'He said "I am. You are." Then left.', 'He said "no".', 'He said "no." and left.', 'He (said "no.") and left.', 'He left."Hi." she', '"A." "B." C', '"A."B.', '"A.",', '"A.".',
    '"a (b) c"', '(a "b" c)', '(a "b. c" d) e.', '("b.")', '"(b."', 'a "b', 'a "b" c "d', 'a (b', 'a b)', 'a (b) c) d', '((a))', '(a (b) c)', '(A. B (c) d', 'x (A. B (c) d. E) f', '(a "b) C. d" E. F) g', '"a (b" C. D) e', '(A. "b" C. D) e', 'a "b (c. D" e) F. G', '(a. b) c. d', '"a? b!" c', 'a (b? c!) d',
    'First: second. Third', 'a ? b ! c : d . e', 'a... b', 'a?! b', 'What?! No... yes: ok', 'a\nb', 'a.\nb', 'a\n\nb.', '\na', 'a\n', 'a\tb', 'a \r\n b', '"a\nb"', '(a\nb)', '"" a', '() a', 'a ""', '¶', 'a ¶ b', 'a¶b', '"a ¶ b"', '(a ¶ b)',
    'Mr. Smith went. He came.', 'J. Smith. A', 'one. two', 'No. 5 is. Six', 'e.g. this. That', 'U.S. army. We', 'http://a.b/c. Next', '"x." "y."', '" "', '( )', '(")', '"(" a ")"', '(a) (b)', '(a)(b)', '"a""b"', ':) ok. (x :) y)', 'He is 5\'10" tall. She is 5" too.',
    '"one" two "three" four "five" six "seven" eight "nine" ten "a" b "c" d "e" f "g" h "i" j "k" l "m"', '(1) (2) (3) (4) (5) (6) (7) (8) (9) (10) (11) (12) x. y', '.', '..', '!', '?', ':', 'a : b', 'a: b', '12:30 x', '. a', 'a . . b', '."', '."a', 'a."', 'a." b." c', '\u201ca. b.\u201d c. d',
    "rock 'n' roll. \"a\" 'n' (b). c", 'a "b" \'n\' "c" d', "(a) n' (b)", '"a">="b"', '(a)=(b)', '"a"/"b"', '(a)&(b)', '"a":"b"', '"a",(b)', "('a')", "'(a)'", '["a"]', '{(a)}', 'a"b"c', 'a(b)c', 'a."b"c', 'f(x). g(y)', 'x (Mr. A) y. z',
]


def harvest(path):
    """String constants of a test file: realistic texts"""
    try:
        tree = ast.parse(open(path, encoding='utf-8').read())
    except (OSError, SyntaxError):
        return []
    return [n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)]


OK_CHARS = set(map(chr, list(range(9, 14)) + list(range(32, 127)))) | set(
    '\u2026\u2013\u2014\u2018\u2019\u201c\u201d\u2032\u2033\u00b6\u00e4\u00e9\u00f1\u00fc\u0142\u0436\u4e2d\u00a0\u2003\u2009\u202f\u3000\u0085\u00a3\u20ac\u00ab\u00bb\u2122\u00b0'
    # invisible, combining & control characters, characters outside the basic plane, rarer letters & blanks
    '\u200b\u200d\u2060\u00ad\ufeff\u0301\ufe0f\x00\x07\x7f\x1c\x1f\U0001f600\U0001f3fd\U0001d400\u00b2\u00df\u05d0\u1680\u2000\u2028\u2029\u205f'
    '\u2010\u2011\u2012\u2212\u201a\u201b\u2039\u00b7\u3002\uff01\uff1f\uff0e\u00bf\u00a1\u2022\u00b4\ufffd\u201e\u201f\u2015\u2016\u2024\u2025\u2027\uff0c\uff1a\uff1b\u037e\uff02\uff07\u02bc\u2035\u2036\u203a\u00d7\u2044\u2264\u2265')
ODD = [c for c in sorted(OK_CHARS) if ord(c) > 126 or ord(c) < 32]
RESERVED = ['_NSD_', '_NSGE_', '_NSLE_', '_RNSGE_', '_RNSLE_', '_PROTECTED_']


def usable(t):
    return set(t) <= OK_CHARS and not any(r in t for r in RESERVED)


def mutate(rng, t, n):
    t = list(t)
    pool = SYMS + [' ', ' ', 'a', 'b', 'A', 'Z', '1', '2', 's', 'n', 't', '.', "'", '"']
    for _ in range(n):
        k = rng.randrange(4)
        i = rng.randrange(len(t) + 1)
        if k == 0:
            t.insert(i, rng.choice(pool))
        elif k == 1 and t:
            del t[i % len(t)]
        elif k == 2 and t:
            t[i % len(t)] = rng.choice(pool)
        elif t:
            j = i % len(t)
            t[j:j] = [t[j]]
    return ''.join(t)


def abbr_texts():
    for a in ABBR:
        for v in (a, a.capitalize(), a.upper()):
            yield v + '. Smith'
            yield 'see ' + v + '. smith'
            yield 'x ' + v + '. 5'
            yield 'x' + v + '. Smith'
            yield v + '.'
            yield v + '.Smith'
            yield v + ' Smith'
    for c in CONTR:
        for w in ('do', 'I', 'x1', 'Cat'):
            for e in ('', ' x', '.', ', x', 'x', "'"):
                yield w + c + e
                yield w.upper() + c.upper() + e
    for a in ('mt', 'jr', 'inc', 'co', 'vs', 'no', 'pm', 'gen', 'capt', 'mme', 'messrs', 'dept', 'fig'):
        yield a.capitalize() + '. Smith'


# Sequences of longer pieces
ATOMS = [['...', '.', ' .', ' ', 'a'], [' & ', 'A', 'Bc', ' '], [' 6', "'", '"', '3', ' x'], ["n't", "'s", ' ', 'do'], ['>=', ' =', '<', ' ', '>'], ['www.a.b', ' ', '/c', 'x.y/z', ':)'],
         [" 'n' ", " n' ", 'a', 'x.y/'], ['Mr.', ' ', 'A', '.', 'b'], ['abc', ':', '12', ' ', '&', '+'], ['ab', '/', '1', '%', '*', ' -']]


def stutter(f):
    """The fragment, its words and its last character again and again"""
    for sep in ('', ' '):
        yield sep.join([f, f])
        yield sep.join([f, f, f])
        if f:
            yield sep.join([f, f[-1]])
            yield sep.join([f, f[-1], f[-1]])
            yield sep.join([f[0], f])
        if ' ' in f.strip():
            for k, w in enumerate(f.split()):
                yield ' '.join(f.split()[:k] + [w + sep + w] + f.split()[k + 1:])


def recase(f):
    """Each character in turn replaced by one of another kind: rules look at kinds of neighbours"""
    for k, c in enumerate(f):
        if c.isascii() and c.isalnum():
            for d in {c.swapcase(), '1' if c.isalpha() else 'b', 'B' if c.isdigit() else ' ', '.' if k else '-'} - {c}:
                yield f[:k] + d + f[k + 1:]
        elif c == ' ':
            yield f[:k] + f[k + 1:]
            yield f[:k] + '\n' + f[k + 1:]
        else:
            yield f[:k] + ' ' + f[k:]
            yield f[:k + 1] + ' ' + f[k + 1:]


def odd(rng, n):
    """Characters no rule is about: at either end, inside a word, between words, between a word & a symbol"""
    for c in ODD:
        yield c
        for f in ('%sa', 'a%s', 'a%sb', 'a %s b', 'end.%s Then', '%s%s', 'a%s.', "don%s't", '"%s"', '(a%sb) c', 'Mr.%s A', 'x. %sA b'):
            yield f.replace('%s', c)
    for _ in range(n):
        t = rng.choice(FRAGS + SENT_FRAGS)
        for _ in range(rng.randint(1, 2)):
            i = rng.randrange(len(t) + 1)
            t = t[:i] + rng.choice(ODD) + t[i:]
        yield t


LEFT = ['end.', 'U.S.', 'a', 'Bcd', '7', " 6'", "n't", 'abc', '...', ')']
OPS = ['>=', '<=', '=>', '=<', '> =', '= <', '>', '<', '=', '+', '*', '&', '/', '%', ':', ',', "'", '"', '-', ';', '.', '|', '!', '?', '\u2013', '\u2026', "'n'", ':)', '#', '(']
RIGHT = ['x', 'Bcd', '8', 'abc', '.', "'s"]


def grid():
    """Every symbol between every kind of neighbours, apart from them or not"""
    for l in LEFT:
        for o in OPS:
            for r in RIGHT:
                yield l + o + r
                yield l + ' ' + o + ' ' + r
                yield l + ' ' + o + r
                yield l + o + ' ' + r


SMALL = ['aA.', 'a. ', 'a1.', "a' s", "a'nt ", 'aA&  ', 'ab/1', 'a:1 ', 'a,1 ', '<>=- ', '.?! a', 'a*+1', '-* a', '%a1 ', '"a .', "1'\" ", 'a"(.) ', '\u2013\u2014a ']


def tokenizer_texts(rng, n_mut, n_rand, n_comp, small_len, n_long=0):
    repo = os.environ.get('VERIF_REPO', '/repo')
    base = list(FRAGS) + list(abbr_texts()) + SENT_FRAGS
    base += [t for t in harvest(repo + '/tests/test_tokenizer.py') + harvest(repo + '/tests/test_sentencizer.py') if
             len(t) < 120]
    out = list(base)
    for f in FRAGS:
        out.append('He ' + f + ' x')
        out.append('(' + f + ')')
        out.append(f + '.')
    for al in SMALL:
        al = ''.join(dict.fromkeys(al))
        for k in range(1, small_len + 1):
            if len(al) ** k <= 1300:
                out.extend(''.join(p) for p in itertools.product(al, repeat=k))
    for f in FRAGS:
        out.extend(stutter(f))
        out.extend(recase(f))
    out.extend(grid())
    out.extend(odd(rng, n_mut // 3))
    for atoms in ATOMS:
        for k in range(1, small_len + 2):
            if len(atoms) ** k <= 1300:
                out.extend(''.join(p) for p in itertools.product(atoms, repeat=k))
    for _ in range(n_comp):
        out.append(rng.choice(FRAGS) + rng.choice(['', ' ', '  ', '\n']) + rng.choice(FRAGS))
        out.append(rng.choice(rng.choice(list(map(list, map(stutter, rng.sample(FRAGS, 3))))) or ['']) + rng.choice([' ', '']) + rng.choice(WORDS + SYMS))
    for _ in range(n_mut):
        out.append(mutate(rng, rng.choice(base), rng.randint(1, 3)))
    for _ in range(n_rand):
        out.append(''.join(rng.choice("aAb.Z1' \"&:;-/*+%,()<>=!?n_s\u2013\u2014 ") for _ in range(rng.randint(1, 12))))
    for _ in range(n_comp):
        out.append(compose(rng, base))
    seen = set()
    return list(long_texts(rng, n_long)) + [t for t in out if usable(t) and len(t) <= 160 and not (t in seen or seen.add(t))]


def long_texts(rng, n, sents=False):
    """Texts much longer than any rule looks at, and rules that fire many times in one text"""
    pool = [f for f in (SENT_FRAGS + FRAGS[::4] if sents else FRAGS) if f and usable(f)]
    safe = [f for f in pool if not set(f) & set('"()\u201c\u201d')]
    prot = ['http://a%d.b.c/d', 'www.x%d.y', 'q%d.r/s', ':)', ';-)', ':-(', 'n%d.m.o/p?q=:)', " 'n' "]
    for k in range(n):
        kind = k % (8 if sents else 7)
        size = rng.choice([300, 700, 1100, 1500, 2300])
        sep = rng.choice([' ', ' ', '  ', '. ', ', ', '\n'])
        parts = []
        if kind == 0:
            while sum(map(len, parts)) < size:
                parts.append(rng.choice(pool))
        elif kind == 1:
            while sum(map(len, parts)) < size:
                parts.append(rng.choice(WORDS + SYMS))
            sep = ' '
        elif kind == 2:
            f = rng.choice([x for x in pool if len(x) < 12])
            parts = [f] * min(rng.choice([40, 130, 260]), 1500 // (len(f) + 1))
        elif kind == 3:       # one very long word
            f = rng.choice(['a', 'ab', 'Abc', 'x1', 'a.', 'a-', 'abc:', 'a_'])
            parts = [f * rng.choice([60, 150, 300] if '.' not in f else [20, 60, 90]) + rng.choice(['', '.', "'s", "n't", '!', ' Then'])]
        elif kind == 4:       # spans that are not to be cut, more than thirty or a hundred of them
            for j in range(rng.choice([12, 35, 70, 130])):
                p = rng.choice(prot)
                parts.append(p % j if '%d' in p else p)
                if rng.random() < .3:
                    parts.append(rng.choice(['a', 'B.', ',', 'end.']))
            sep = ' '
        elif kind == 5:       # one interesting spot in the middle, at the end, anywhere
            fill = ['word', 'x,', 'Then', 'it', 'was.'] if not sents else ['word', 'x,', 'then', 'it']
            parts = [rng.choice(fill) for _ in range(size // 5)]
            for _ in range(rng.choice([1, 2, 5])):
                parts.insert(rng.choice([0, len(parts) // 2, len(parts), rng.randint(0, len(parts))]), rng.choice(pool))
            sep = ' '
        elif kind == 6:       # many passages
            m = rng.choice([12, 60, 105, 140])
            parts = [rng.choice(['"%s"', '(%s)', 'x', '"%s."', '(A "%s" b)', '(%s.)', 'y.']).replace('%s', 'a%d' % j) for j in range(m)]
            sep = rng.choice([' ', ' and '])
        else:                 # many lines
            parts = [rng.choice(safe) if rng.random() < .3 else rng.choice(['x', 'a b.', '"c. d"', '(e) f', 'G: h']) for _ in range(rng.choice([20, 60, 110]))]
            sep = rng.choice(['\n', '\n', ' \n ', '\n\n', '\t'])
        t = sep.join(parts)[:2600]
        if usable(t):
            yield t


def compose(rng, base):
    parts = []
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        parts.append(rng.choice(WORDS) if r < .45 else rng.choice(base) if r < .7 else rng.choice(SYMS))
        parts.append('' if rng.random() < .3 else ' ')
    return ''.join(parts)


def sentencizer_texts(rng, n_mut, n_comp, small_len, n_long=0):
    repo = os.environ.get('VERIF_REPO', '/repo')
    base = list(SENT_FRAGS)
    base += [t for t in harvest(repo + '/tests/test_sentencizer.py') if len(t) < 250]
    out = list(base) + [f for f in FRAGS[::3]]
    out.extend(odd(rng, n_mut // 3))
    for f in SENT_FRAGS:
        out.append('Well ' + f + ' End. More')
    for al in ['."a ', '(.)a', '".()', 'a.\n ', ':a? ', '".\u00b6 ', '"(a)', '().A ']:
        for k in range(1, small_len + 1):
            if len(al) ** k <= 1100:
                out.extend(''.join(p) for p in itertools.product(al, repeat=k))
    for _ in range(n_mut):
        out.append(mutate(rng, rng.choice(base), rng.randint(1, 3)))
    for _ in range(n_comp):
        k = rng.randint(2, 4)
        t = ''
        for _ in range(k):
            s = compose(rng, base + FRAGS)
            r = rng.random()
            t += '"%s"' % s if r < .25 else '(%s)' % s if r < .5 else s
            t += rng.choice([' ', '. ', '? ', '\n', ': ', '', ' "', '." ', ' ('])
        out.append(t)
    seen = set()
    return list(long_texts(rng, n_long, True)) + [t for t in out if usable(t) and len(t) <= 260 and not (t in seen or seen.add(t))]
