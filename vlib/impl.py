"""Used by the drivers, in the process that runs the real code."""
import json
import os
import random
import signal
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
P = json.loads(sys.argv[1]) if len(sys.argv) > 1 and sys.argv[1].startswith('{') else {}
RNG = random.Random(P.get('seed', 1) * 7919 + 13)
THOROUGH = P.get('tier') == 'thorough'
if REPO not in sys.path:
    sys.path.insert(0, REPO)
from vlib import faketf
faketf.install()  # No network is ever trained or loaded here


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def call(fn, *args, limit=20, **kw):
    """Returns ('ok', result) or ('exc', description)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return 'ok', fn(*args, **kw)
    except Hang:
        return 'exc', 'no answer within %d s' % limit
    except Exception as e:
        return 'exc', '%s: %s' % (type(e).__name__, str(e)[:200])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def codes(s):
    return [ord(c) for c in s]


def scale(quick, thorough):
    return thorough if THOROUGH else quick


def _clean(x):
    """TLC cannot read null or floats: what should never be there becomes a string no specification accepts"""
    if x is None:
        return '<null>'
    if isinstance(x, dict):
        return {k: _clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_clean(v) for v in x]
    if isinstance(x, float):
        return '<float %r>' % x
    return x


class Out(object):
    """Two files: what TLC reads, and the same with the fields meant for humans (show, key)"""

    def __init__(self):
        self.f = open(P['out'], 'w', encoding='utf-8')
        self.full = open(P['out'] + '.full', 'w', encoding='utf-8')
        self.n = 0

    def put(self, **case):
        self.f.write(json.dumps({k: _clean(v) for k, v in case.items() if k not in ('show', 'key')}) + '\n')
        self.full.write(json.dumps(case, default=str) + '\n')
        self.n += 1

    def close(self):
        self.f.close()
        self.full.close()


def require_repo():
    import scrappybara
    if not os.path.abspath(scrappybara.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print('VDRIVER-MACHINERY: scrappybara imported from %s' % scrappybara.__file__)
        sys.exit(3)
    return scrappybara
