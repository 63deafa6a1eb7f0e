"""
Cooperative scheduler: real threads, exactly one of which runs at any moment.

Threads hand over only at `point()`: at every storage step of the seams, at
every contended lock, and (when line preemption is on) at line events of library
code.  Who runs next is drawn from a seeded generator, or prescribed by an
explicit list of switches [[point, thread], ...] (a minimised replay).
"""
from __future__ import annotations

import random
import sys
import threading

from . import seams

_HELD = {}


class SchedAbort(BaseException):
    """unwinds parked threads when a run is abandoned"""


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, seed, *, p_line=0.0, p_io=0.6, trace_pref=None,
                 trace_skip=(), trace_also=(), max_points=3_000_000, switches=None,
                 park=None, record=None):
        self.rng = random.Random(f"sched:{seed}")
        self.p_line = p_line
        self.p_io = p_io
        self.plan = None if switches is None else {int(a): int(b) for a, b in switches}
        # park: (thread, n): at its n-th point the thread, which goes first, is set
        # aside until no other can go on.  record: list that gets all places
        self.park = park if switches is None else None
        self.parked = None
        self.record = record
        self.counts = {}
        self.tracing = p_line > 0 or park is not None or record is not None
        self.trace_pref = trace_pref
        self.trace_skip = tuple(trace_skip)
        self.trace_also = tuple(trace_also)
        self.max_points = max_points
        self.threads = {}      # ident -> index
        self.gates = []
        self.state = []        # 'ready' | 'done'
        self.current = None
        self.points = 0
        self.switches = []     # (point number, to)
        self.trace_log = []    # what each switch interrupted
        self.abort = None
        self.spins = 0
        self.freed = 0         # times a thread was stuck outside the scheduler
        self.mine = {}
        self.contended = 0

    def managed(self):
        return threading.get_ident() in self.threads

    def _ready(self, but=None):
        rest = [i for i, s in enumerate(self.state) if s == "ready" and i != but]
        if self.parked in rest and len(rest) > 1:
            rest.remove(self.parked)
        return rest

    def point(self, what, blocked=False, line=False):
        me = self.threads.get(threading.get_ident())
        if me is None:
            return
        if self.abort:
            raise SchedAbort()
        if self.current != me:
            # (was stuck in a lock of C code while another thread went on)
            self.gates[me].acquire()
            if self.abort:
                raise SchedAbort()
        self.points += 1
        if self.points > self.max_points:
            self.abort = "scheduler point budget exceeded"
            raise SchedAbort()
        if self.record is not None:
            self.record.append(what)
        k = self.counts[me] = self.counts.get(me, 0) + 1
        if self.park is not None and self.park == (me, k) and not blocked and \
                len(self.state) > 1:
            self.parked = me
        if blocked:
            self.contended += 1
            self.spins += 1
            if self.spins > 20:
                # (it holds what all others wait for)
                self.parked = None
            ready = self._ready(but=me)
            if self.spins > 3000 or not ready:
                self.abort = "deadlock: every thread waits for a lock"
                raise SchedAbort()
            nxt = self.plan.get(self.points, ready[0]) if self.plan is not None \
                else self.rng.choice(ready)
            if nxt not in ready:
                nxt = ready[0]
        else:
            self.spins = 0
            if self.plan is not None:
                nxt = self.plan.get(self.points)
                if nxt is None or nxt not in self._ready():
                    return
            elif self.parked == me and self.park == (me, k):
                rest = self._ready(but=me)
                if not rest:
                    return
                nxt = self.rng.choice(rest)
            else:
                if self.rng.random() >= (self.p_line if line else self.p_io):
                    return
                nxt = self.rng.choice(self._ready())
            if nxt == me:
                return
        self.switches.append((self.points, nxt))
        if len(self.trace_log) < 4000:
            self.trace_log.append(f"{me}>{nxt}@{what}")
        self.current = nxt
        self.gates[nxt].release()
        self.gates[me].acquire()
        if self.abort:
            raise SchedAbort()

    def _tracer(self, frame, event, arg):
        co = frame.f_code
        m = self.mine.get(co)
        if m is None:
            fn = co.co_filename
            m = self.mine[co] = (
                fn.startswith(self.trace_pref) and not fn.endswith(self.trace_skip)
                or fn.endswith(self.trace_also))
        return self._local if m else None

    def _local(self, frame, event, arg):
        if event == "line":
            self.point(f"{frame.f_code.co_name}:{frame.f_lineno}", line=True)
        return self._local

    def run(self, fns, wall=40.0):
        """run the callables to completion under the schedule; returns results"""
        n = len(fns)
        results = [None] * n
        self.gates = [seams.real_Lock() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.state = ["ready"] * n
        done = seams.real_Lock()
        done.acquire()
        leave = seams.real_Lock()
        leave.acquire()
        started = seams.real_Lock()
        started.acquire()

        def finish(me):
            self.state[me] = "done"
            del self.threads[threading.get_ident()]
            rest = self._ready()
            if not rest:
                done.release()
                return
            if self.abort:
                nxt = rest[0]
            elif self.plan is not None:
                nxt = self.plan.get(-1 - self.points, rest[0])
                if nxt >= n or self.state[nxt] != "ready":
                    nxt = rest[0]
            else:
                nxt = self.rng.choice(rest)
            self.switches.append((-1 - self.points, nxt))
            self.current = nxt
            self.gates[nxt].release()

        def body(i):
            self.threads[threading.get_ident()] = i
            if self.tracing:
                # (tracing goes on and off only while no thread is at work: the
                # interpreter re-instruments running code at either, not safely)
                sys.settrace(self._tracer)
            started.release()
            work(i)
            finish(i)
            leave.acquire()
            sys.settrace(None)
            leave.release()

        def work(i):
            self.gates[i].acquire()
            try:
                if self.abort:
                    raise SchedAbort()
                results[i] = ("ok", fns[i]())
            except SchedAbort:
                results[i] = ("abort", self.abort)
            except BaseException as ex:  # noqa
                results[i] = ("exc", ex)

        ts = []
        for i in range(n):
            t = threading.Thread(target=body, args=(i,), daemon=True)
            t.start()
            started.acquire()
            ts.append(t)
        first = self.rng.randrange(n) if self.plan is None else \
            min(self.plan.get(0, 0), n - 1)
        if self.park is not None:
            first = self.park[0]
        self.switches.append((0, first))
        self.current = first
        self.gates[first].release()
        waited, last = 0.0, -1
        while not done.acquire(timeout=1.5):
            waited += 1.5
            if self.points != last:
                last = self.points
                if waited > wall:
                    self.abort = "took too long"
                continue
            # the running thread is stuck in a lock outside the scheduler, held
            # by one that is parked: let another go on
            stuck = self.current
            rest = self._ready(but=stuck)
            if not rest or self.freed > 20:
                raise Deadlock(f"threads are stuck after {self.points} points")
            self.freed += 1
            nxt = rest[self.freed % len(rest)]
            self.current = nxt
            self.gates[nxt].release()
        leave.release()
        for t in ts:
            t.join(5)
        if self.abort:
            raise Deadlock(self.abort)
        return results
