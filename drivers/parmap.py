from vlib.impl import *
from vlib.sched import Gate
require_repo()
import itertools
import threading
import time
from scrappybara.utils.multithreading import run_multithreads
from scrappybara.utils.mutables import divide_list, make_batches

out = Out()
VALUES = [None, 0, '', [], False, (), {}, 0.5]


class Item(object):
    """All items are equal: only positions tell them apart"""

    def __init__(self, i):
        self.i = i

    def __eq__(self, other):
        return isinstance(other, Item)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'item'


class Boom(Exception):
    pass


class Weird(BaseException):
    pass


KINDS = {k.__name__: k for k in (Boom, Weird, StopIteration, GeneratorExit, SystemExit, KeyboardInterrupt, KeyError, IndexError, RuntimeError, AssertionError, MemoryError, StopAsyncIteration)}


def value(i, style):
    if style == 'falsy' and i <= len(VALUES):
        return VALUES[i - 1]
    if style == 'same':
        return 'x'
    return 'v%d' % i


def run_case(n, k, fails, order, style, kind='Boom', op='gate', arg=list):
    """order: rank of each item in the wanted order of completion"""
    items = [Item(i) for i in range(1, n + 1)]
    before = list(items)
    events = []
    lock = threading.Lock()

    def log(**e):
        with lock:
            events.append(e)

    gate = Gate(lambda i: order[i - 1])

    def fn(item):
        log(e='call', i=item.i)
        if op == 'gate':
            gate.pass_(item.i)
        elif op == 'sleep':
            time.sleep(order[item.i - 1] * .0007)
        if item.i in fails:
            log(e='raise', i=item.i)
            raise KINDS[kind]('item %d' % item.i)
        log(e='ret', i=item.i)
        return value(item.i, style)

    state = {}

    def target():
        try:
            state['res'] = run_multithreads(items, fn, k)
            log(e='result')
        except BaseException as e:
            state['err'] = repr(e)
            log(e='error')

    hook, threading.excepthook = threading.excepthook, lambda a: None
    try:
        with gate:
            th = threading.Thread(target=target, daemon=True)
            th.start()
            th.join(20)
    finally:
        threading.excepthook = hook
    with lock:
        evs = [dict(e) for e in events]
    res = state.get('res')
    try:
        res = [repr(x) for x in res] if res is not None else []
    except TypeError:
        res = ['not a list']
    same = len(items) == len(before) and all(a is b for a, b in zip(items, before))
    out.put(op='map', n=n, k=k, events=evs, res=res, expected=[repr(value(i, style)) for i in range(1, n + 1)], same=same,
            show={'n': n, 'workers': k, 'failing': sorted(fails), 'order': list(order), 'style': style, 'observed': res,
                  'error': state.get('err'), 'events': [' '.join(map(str, e.values())) for e in evs][:60]})


# behaviours generated by the specification: order of completions & failing items
for b in P.get('behaviours', []):
    order = [0] * b['n']
    for rank, i in enumerate(b['order']):
        order[i - 1] = rank
    run_case(b['n'], b['k'], set(b['fail']), order, 'plain')
# all orders, small
for n, k in [(0, 1), (0, 3), (1, 1), (1, 4), (2, 2), (2, 5), (3, 2), (3, 3)] + scale([], [(4, 2), (4, 4)]):
    for order in itertools.permutations(range(n)):
        run_case(n, k, set(), order, 'plain')
for _ in range(scale(60, 900)):
    n = RNG.randint(0, 12)
    k = RNG.randint(1, 9)
    order = list(range(n))
    RNG.shuffle(order)
    fails = set(RNG.sample(range(1, n + 1), min(n, RNG.choice([0, 0, 0, 1, 1, 2, n]))))
    run_case(n, k, fails, order, RNG.choice(['plain', 'falsy', 'same']), RNG.choice(['Boom', 'Weird'] + sorted(KINDS)),
             RNG.choice(['gate', 'gate', 'sleep']))
for kind in KINDS:
    for n, k, bad in [(1, 1, 1), (3, 2, 3), (4, 4, 2), (5, 3, 1)]:
        run_case(n, k, {bad}, list(range(n)), 'plain', kind, 'free')
for _ in range(scale(60, 400)):
    n, k = RNG.randint(0, 90), RNG.randint(1, 100)
    order = [RNG.randint(0, 3) for _ in range(n)]
    fails = {RNG.randint(1, n)} if n and RNG.random() < .3 else set()
    run_case(n, k, fails, order, RNG.choice(['plain', 'falsy']), op=RNG.choice(['sleep', 'free', 'free']))
for n, k in [(600, 3), (1100, 16), (520, 2)] + [(RNG.randint(300, 900), RNG.choice([1, 4, 32, 64])) for _ in range(scale(2, 20))]:
    run_case(n, k, set(), [RNG.choice([1, 1, 2]) for _ in range(n)], 'plain', op='sleep')
    run_case(n, k, {RNG.randint(1, n)}, [0] * n, 'plain', op='free')


def cut(op, fn, n, k):
    items = [Item(i) for i in range(1, n + 1)]
    st, r = call(fn, items, k)
    case = {'op': op, 'n': n, 'k': k, 'show': {'op': op, 'n': n, 'k': k, 'observed': str(r)[:300]}}
    try:
        if st == 'ok':
            case['parts'] = [[x.i for x in p] for p in r]
            case['show']['observed'] = case['parts']
    except Exception as e:
        st, r = 'exc', repr(e)
    if st != 'ok':
        case['exc'] = str(r)
    out.put(**case)


for n in (1000, 1023, 2049, 3001, 4099, 5003):
    for k in (1, 3, 7, 16, 99, 1024, 2500):
        cut('divide', divide_list, n, k)
        cut('batch', make_batches, n, k)
for n in range(0, scale(26, 70)):
    for k in range(1, scale(28, 75)):
        cut('divide', divide_list, n, k)
        cut('batch', make_batches, n, k)
for _ in range(scale(60, 600)):
    n = RNG.choice([97, 100, 127, 128, 129, 255, 256, 300, 499, 512])
    k = RNG.randint(1, n + 3)
    cut('divide', divide_list, n, k)
    cut('batch', make_batches, n, k)
out.close()
