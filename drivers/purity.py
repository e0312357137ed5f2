"""Histories of calls on tokenizers and sentencizers: repeated, from many instances, from many threads, preempted anywhere."""
import threading
from vlib.impl import *
from vlib import sched, textgen
sb = require_repo()
out = Out()
ids, sids = {}, {}


def intern(x):
    return ids.setdefault(x, len(ids) + 1)


def enc(op, r):
    """A result as a sequence of small numbers (equal numbers, equal content)"""
    if r is None or not isinstance(r, list):
        return None
    if op == 'tok':
        return [intern(('t', x)) for x in r]
    return [intern(('s', tuple(x))) for x in r]


def fresh(op, text):
    """The answer of a process that has never done anything"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            fn = (sb.Tokenizer if op == 'tok' else sb.Sentencizer)()
            st, r = call(fn, text, limit=10)
            with os.fdopen(wr, 'w') as f:
                json.dump([st, r], f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        st, r = json.load(f)
    os.waitpid(pid, 0)
    return st, r


class History(object):
    def __init__(self, kind):
        self.kind, self.events, self.show, self.known, self.bad = kind, [], [], set(), None

    def ref(self, op, text):
        if (op, text) not in self.known:
            self.known.add((op, text))
            st, r = fresh(op, text)
            self.add(op, text, 'fresh', r if st == 'ok' else None, r)

    def add(self, op, text, who, r, raw=None):
        e = enc(op, r)
        if e is None:
            self.bad = '%s of %r by %s: %r' % (op, text, who, raw if raw is not None else r)
            return
        self.events.append({'op': op, 'text': intern(('x', text)), 'res': e})
        self.show.append([op, who, text, r])

    def lines(self, text, parts, r):
        e = enc('sen', r)
        if e is None:
            self.bad = repr(r)
            return
        self.events.append({'op': 'lines', 'text': intern(('x', text)), 'parts': [intern(('x', p)) for p in parts], 'res': e})
        self.show.append(['lines', parts, r])

    def put(self):
        if self.bad:
            out.put(show={'kind': self.kind, 'failed': self.bad}, exc=self.bad[:300])
        else:
            out.put(show={'kind': self.kind, 'events': self.show}, events=self.events)


def copy(r):
    return [list(x) if isinstance(x, list) else x for x in r] if isinstance(r, list) else r


def spoil(r):
    """What a caller may do with a result that belongs to it"""
    if isinstance(r, list):
        for x in r:
            if isinstance(x, list):
                x.append('SPOILT')
        r.insert(0, 'SPOILT')
        r.reverse()


base = [t for t in textgen.FRAGS if t] + textgen.SENT_FRAGS * 2


def family(t):
    """Texts a careless memory would confuse"""
    near = [t, t.upper(), t.lower(), t.swapcase(), t + ' ', ' ' + t, t + '.', t[::-1], t.replace(' ', '  '), t.replace(' ', '\u00a0'), t + '\u2019', 'x' * 40 + ' ' + t, 'x' * 40 + ' ' + t[:-1] + 'y', t[:-1]]
    return [x for x in near if x]


tok, sen = sb.Tokenizer(), sb.Sentencizer()
toks, sens = [tok, sb.Tokenizer()], [sen, sb.Sentencizer(), sb.Sentencizer(sb.Tokenizer()), sb.Sentencizer(tokenizer=tok)]


def answer(op, text, k=0):
    return call((toks if op == 'tok' else sens)[k % (2 if op == 'tok' else 4)], text, limit=10)


# 1. sequences of calls
for _ in range(scale(50, 600)):
    h = History('sequence')
    texts = []
    for t in RNG.sample(base, 3):
        texts += RNG.sample(family(t), min(4, len(family(t))))
    for step in range(30):
        t, op = RNG.choice(texts), RNG.choice(['tok', 'sen'])
        h.ref(op, t)
        st, r = answer(op, ''.join(list(t)), RNG.randrange(4))
        h.add(op, t, 'shared', copy(r) if st == 'ok' else None, r)
        if RNG.random() < .5:
            spoil(r)
    h.put()

# 2. lines
for _ in range(scale(400, 6000)):
    h = History('lines')
    parts = []
    for _ in range(RNG.choice([2, 2, 3, 4]) if RNG.random() < .97 else RNG.choice([30, 70, 120])):
        p = ''.join(RNG.choice([' ', ' ', ', ', '. ', '']) .join(RNG.sample(base, RNG.choice([1, 1, 2, 3]))))
        for c in '\t\n\r':
            p = p.replace(c, ' ')
        p = p.strip()
        if p:
            parts.append(p)
    if not parts:
        continue
    text = parts[0]
    for p in parts[1:]:
        text += RNG.choice(['\n', '\n', '\n\n', '\t', ' \n ', '\r\n', '\n \t']) + p
    for p in set(parts):
        h.ref('sen', p)
    st, r = answer('sen', text, RNG.randrange(4))
    h.lines(text, parts, r if st == 'ok' else None)
    h.put()

# 3. threads on one instance
old = sys.getswitchinterval()
sys.setswitchinterval(1e-5)
for _ in range(scale(6, 60)):
    h = History('threads')
    texts = [' '.join(RNG.sample(base, 12)) for _ in range(8)]
    got = []

    def work(k):
        rng = random.Random(k)
        for _ in range(12):
            t, op = rng.choice(texts), rng.choice(['tok', 'sen'])
            try:
                got.append((op, t, (tok if op == 'tok' else sen)(t)))
            except Exception as e:
                got.append((op, t, None, repr(e)))

    for t in texts:
        h.ref('tok', t)
        h.ref('sen', t)
    ths = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(8)]
    [t.start() for t in ths]
    [t.join(60) for t in ths]
    for g in got:
        h.add(g[0], g[1], 'thread', g[2], g[3] if len(g) > 3 else None)
    if len(got) != 96:
        h.bad = '%d of 96 calls returned' % len(got)
    h.put()
sys.setswitchinterval(old)

# 4. one call preempted by another at every line it executes
inside = os.path.join(os.path.abspath(REPO), 'scrappybara') + os.sep
pairs = [('He (said "no. x" y) and \'n\' left. www.a.b/c ok "q."', 'She "wrote (z) w" to me (a) "b" :) http://q.r.s/t. Then rock \'n\' roll.'),
         ('a\nb "c"\n(d) e', '"x" (y) "z"\n. w')]
for _ in range(scale(1, 12)):
    pairs.append((' '.join(RNG.sample(textgen.SENT_FRAGS, 2)), ' '.join(RNG.sample(base, 3))))
for a, b in pairs:
    for opa, opb in (('sen', 'sen'), ('tok', 'tok'), ('tok', 'sen'), ('sen', 'tok')):
        if opa != opb and a is not pairs[0][0] and not THOROUGH:
            continue
        h = History('preempted')
        h.ref(opa, a)
        h.ref(opb, b)
        k, step = 1, 1
        while k < 4000:
            f = lambda op, t: copy((tok if op == 'tok' else sen)(t))
            ra, rb, hit = sched.preempt(lambda: f(opa, a), lambda: f(opb, b), k, inside)
            h.add(opa, a, 'preempted at line %d' % k, ra)
            h.add(opb, b, 'preempting at line %d' % k, rb)
            if not hit or h.bad:
                break
            k += step if k < 60 or THOROUGH else 3
        h.put()

# 5. custom tokenizers
for _ in range(scale(60, 600)):
    made, mine = set(), []

    def custom(mark):
        def fn(text):
            r = [x if x[:1] in '\u0f3a\u2985' or x in ('.', '?', '!', ':', '\u00b6', '') else x + mark for x in (text.split() or [''])]
            made.update(r)
            mine.append(mark)
            return r
        return fn

    a, b = custom('+a'), custom('+b')
    sa, sb_ = sb.Sentencizer(a), sb.Sentencizer(tokenizer=b)
    for s, mark in ((sa, '+a'), (sb_, '+b'), (sa, '+a')):
        made.clear()
        mine.clear()
        t = ' '.join(RNG.sample(textgen.WORDS, 3) + [RNG.choice(['.', '?', '"q r"', '(s t)', 'u'])] + RNG.sample(textgen.WORDS, 3))
        st, r = call(s, t, limit=10)
        if st != 'ok' or not isinstance(r, list):
            out.put(show={'kind': 'custom', 'text': t, 'observed': r}, exc=str(r)[:200])
            continue
        flat = [x for x in sum(r, []) if x not in ('"', '(', ')')]
        out.put(show={'kind': 'custom', 'text': t, 'observed': r, 'custom': sorted(made)}, used=[intern(('c', m)) for m in sorted(set(mine))], want=intern(('c', mark)),
                tokens=[intern(('t', x)) for x in flat], made=[intern(('t', x)) for x in sorted(made)])
out.close()
