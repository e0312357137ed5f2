"""Schedules: lets the driver decide in which order concurrently blocked calls go on."""
import threading
import time


class Gate(object):
    """Every call of `pass_(key)` blocks until it is released. `play` releases, each time nothing new arrives any more,
    the blocked call that comes first in the wanted order; it never needs to know how the code under test is threaded."""

    def __init__(self, priority, settle=0.004, limit=30):
        self.priority = priority  # key -> rank
        self.cond = threading.Condition()
        self.waiting = {}
        self.arrivals = 0
        self.over = False
        self.settle = settle
        self.limit = limit

    def pass_(self, key):
        ev = threading.Event()
        with self.cond:
            self.arrivals += 1
            tag = (self.priority(key), self.arrivals)
            self.waiting[tag] = ev
            self.cond.notify_all()
        ev.wait(self.limit)

    def play(self):
        """Runs in its own thread until `stop`"""
        while not self.over:
            with self.cond:
                if not self.waiting:
                    self.cond.wait(0.02)
                    continue
                seen = -1
                while seen != self.arrivals:
                    seen = self.arrivals
                    self.cond.wait(self.settle)
                if self.waiting:
                    tag = min(self.waiting)
                    self.waiting.pop(tag).set()

    def __enter__(self):
        self.thread = threading.Thread(target=self.play, daemon=True)
        self.thread.start()
        return self

    def __exit__(self, *args):
        self.over = True
        with self.cond:
            for ev in self.waiting.values():
                ev.set()
            self.cond.notify_all()
        self.thread.join(5)


def preempt(first, second, k, inside):
    """Runs `first` in a thread until it has executed k lines of files under `inside`, then `second` in another thread to its end, then the rest of `first`.
    Returns (result of first, result of second, whether first was interrupted)"""
    import sys
    res = {}
    reached, go = threading.Event(), threading.Event()
    state = {'n': 0, 'hit': False}

    def local(frame, event, arg):
        if event == 'line':
            state['n'] += 1
            if state['n'] == k:
                state['hit'] = True
                reached.set()
                go.wait(20)
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(inside) else None

    def run_first():
        sys.settrace(tracer)
        try:
            res['a'] = first()
        finally:
            sys.settrace(None)
            reached.set()

    def run_second():
        res['b'] = second()

    a = threading.Thread(target=run_first, daemon=True)
    a.start()
    reached.wait(20)
    b = threading.Thread(target=run_second, daemon=True)
    b.start()
    b.join(.3)    # a lock held by `first` is legitimate: then it goes on first
    go.set()
    a.join(20)
    b.join(20)
    return res.get('a'), res.get('b'), state['hit']
