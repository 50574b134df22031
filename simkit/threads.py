"""Threads of one process under a seeded scheduler.

Exactly one thread runs at a time.  At every yield point (a source line of the code under test, or a file or process
operation) the scheduler decides who continues, so one seed - or one explicit list of switches - is one interleaving."""
import os
import random
import sys
import threading
import zlib

from . import core

CURRENT = [None]                       # the active scheduler
_REAL_LOCK, _REAL_RLOCK = threading.Lock, threading.RLock


class Deadlock(BaseException):
    pass


class Sched(object):
    """mean: source lines between switches, or ['lines', n] / ['func', n]: at one in n lines / any line of one in n
    functions.  switches: None (seeded choice) or [[k, thread], ...]: at the k-th yield point continue with that thread."""

    def __init__(self, n, seed, mean, op_chance, switches=None, files=None, limit=1500000):
        self.n = n
        self.r = random.Random(seed)
        self.seed = seed
        self.places_mode, self.every = mean if isinstance(mean, (list, tuple)) else (None, 1)
        self.mean, self.op_chance = 1 << 50 if self.places_mode else mean, op_chance
        self.given = dict((k, t) for k, t in switches) if switches is not None else None
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.blocked = [False] * n
        self.cur = 0
        self.k = 0
        self.hits = {}
        self.trace = []                # switches taken
        self.places = set()
        self.limit = limit
        self.prefix = files or os.path.join(core.REPO, 'pyverilog')
        self.known = {}
        self.next = self._gap()
        self.dead = False
        self.ident = {}

    def _gap(self):
        return self.k + 1 + int(self.r.expovariate(1.0 / self.mean)) if self.mean > 0 else 1 << 60

    def _chosen(self, place):
        """Switch at the first times a chosen place is reached."""
        c = self.hits.get(place, 24)
        self.hits[place] = max(c - 1, 0)
        return c > 0 and self.r.random() < 0.6

    def _pick(self, code):
        """The lines of a function at which switches may happen; depends on the seed only."""
        base = '%s:%s:%s' % (self.seed, os.path.basename(code.co_filename), code.co_name)
        if self.places_mode == 'func':
            return True if zlib.crc32(base.encode()) % self.every == 0 else None
        r = set(l for _, _, l in code.co_lines()
                if l is not None and zlib.crc32(('%s:%d' % (base, l - code.co_firstlineno)).encode()) % self.every == 0)
        return r or None

    def runnable(self):
        return [i for i in range(self.n) if not self.done[i]]

    def me(self):
        return self.ident.get(threading.get_ident())

    def point(self, place, op=False):
        me = self.me()
        if me is None or me != self.cur:
            return
        self.k += 1
        if self.k > self.limit:
            sys.settrace(None)         # long sessions go on without further switches
            return
        if self.given is not None:
            to = self.given.get(self.k)
            if to is None or to == me or self.done[to]:
                return
        else:
            if op:
                if self.r.random() >= self.op_chance:
                    return
            elif self.places_mode:
                if not self._chosen(place):
                    return
            elif self.k < self.next:
                return
            else:
                self.next = self._gap()
            others = [i for i in self.runnable() if i != me]
            if not others:
                return
            to = self.r.choice(others)
        self.trace.append([self.k, to])
        self.places.add(place)
        self._switch(me, to)

    def _switch(self, me, to):
        self.cur = to
        self.sem[to].release()
        self.sem[me].acquire()

    def block(self):
        """The current thread waits for a lock: anyone else continues."""
        me = self.me()
        self.blocked[me] = True
        others = [i for i in self.runnable() if i != me and not self.blocked[i]]
        if not others:
            self.dead = True
            raise Deadlock('every thread waits for a lock')
        self.trace.append([self.k, others[0]])
        self._switch(me, others[0])
        self.blocked[me] = False

    def unblock(self):
        for i in range(self.n):
            self.blocked[i] = False

    def _mine(self, code):
        m = self.known.get(code)
        if m is None:
            m = code.co_filename.startswith(self.prefix)
            if m and self.places_mode:
                m = self._pick(code) or False
            self.known[code] = m
        return m

    def _global(self, frame, event, arg):
        m = self._mine(frame.f_code)
        return self._local if m is True else self._some if m else None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.point('%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self._local

    def _some(self, frame, event, arg):
        if event == 'line' and frame.f_lineno in self.known[frame.f_code]:
            self.point('%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self._some

    def run(self, bodies):
        """bodies: one function per thread; returns [(result, exception)]."""
        res = [None] * self.n

        def main(i):
            self.ident[threading.get_ident()] = i
            self.sem[i].acquire()
            try:
                if self.mean or self.given is not None:
                    sys.settrace(self._global)
                try:
                    res[i] = (bodies[i](), None)
                finally:
                    sys.settrace(None)
            except BaseException as e:
                res[i] = (None, e)
            self.done[i] = True
            self.unblock()
            rest = self.runnable()
            if rest:
                to = rest[0] if self.given is not None else self.r.choice(rest)
                self.cur = to
                self.sem[to].release()
            else:
                finished.release()
        finished = threading.Semaphore(0)
        ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(self.n)]
        CURRENT[0] = self
        try:
            for t in ts:
                t.start()
            self.sem[0].release()
            finished.acquire()
        finally:
            CURRENT[0] = None
        return res


class SimLock(object):
    """A lock made by the code under test: waiting for it is a scheduling decision, not a standstill."""

    def __init__(self, real):
        self.real = real

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT[0]
        if s is None or s.me() is None:
            return self.real.acquire(blocking, timeout)
        while not self.real.acquire(False):
            if not blocking:
                return False
            s.block()
        return True

    def release(self):
        self.real.release()
        s = CURRENT[0]
        if s is not None:
            s.unblock()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self.real, name)


def install_locks():
    """Locks created from /repo's files become SimLocks (call before importing it)."""
    def make(real):
        def f(*a, **k):
            l = real(*a, **k)
            here = sys._getframe(1).f_code.co_filename
            return SimLock(l) if here.startswith(core.REPO) else l
        return f
    threading.Lock = make(_REAL_LOCK)
    threading.RLock = make(_REAL_RLOCK)
