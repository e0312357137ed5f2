"""Histories of a Timer on a clock that only moves when told to."""
import time
import timeit
from vlib.impl import *

NOW = [0]      # quarters of a second


def clock():
    return NOW[0] / 4


REAL = {n: getattr(time, n) for n in ('perf_counter', 'monotonic', 'time', 'process_time', 'perf_counter_ns', 'monotonic_ns', 'time_ns')}


def fake(on):
    for n in ('perf_counter', 'monotonic', 'time', 'process_time'):
        setattr(time, n, clock if on else REAL[n])
    for n in ('perf_counter_ns', 'monotonic_ns', 'time_ns'):
        setattr(time, n, (lambda: NOW[0] * 250000000) if on else REAL[n])
    timeit.default_timer = clock if on else REAL['perf_counter']


fake(True)
try:
    require_repo()
    from scrappybara.utils.timer import Timer
finally:
    fake(False)
out = Out()


def run(ops, start):
    res = []
    NOW[0] = start
    fake(True)
    try:
        t, spare = Timer(), Timer()
        for o in ops:
            o = dict(o)
            if o['op'] == 'advance':
                NOW[0] += o['d']
            else:
                if o.pop('spare', False):
                    spare.lap_time       # another timer changes nothing
                st, r = call(lambda: t.lap_time if o['op'] == 'lap' else t.total_time)
                if st == 'ok':
                    o['res'] = r
                else:
                    res.append({'op': 'raised ' + str(r)})
                    break
            res.append(o)
    finally:
        fake(False)
    out.put(start=start, ops=res, show={'start': start, 'ops': res})


for b in map(json.loads, open(P['behaviours'])):
    run(b['ops'], RNG.choice([0, 0, 7, 4000001]))
STEPS = [0, 1, 2, 3, 4, 5, 100, 235, 236, 237, 239, 240, 241, 14395, 14396, 14399, 14400, 14401, 143999, 144000, 400000, 4000000]
for _ in range(scale(400, 6000)):
    ops = []
    for _ in range(RNG.randint(1, 25) if RNG.random() < .97 else RNG.choice([120, 300])):
        k = RNG.choice(['advance', 'advance', 'lap', 'total'])
        ops.append({'op': k, 'd': RNG.choice(STEPS) if RNG.random() < .8 else RNG.randrange(2000000)} if k == 'advance'
                   else {'op': k, 'd': 0, 'spare': RNG.random() < .2})
    run(ops, RNG.choice([0, 1, 3, 123456789]))
out.close()
