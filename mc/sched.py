"""Exhaustive exploration of two threads' interleavings with bounded preemption.

Threads run one at a time: sys.settrace makes every line of the library a point
at which the running thread can be preempted. A schedule is: which thread
starts, the step at which it is preempted, and the step at which the other
thread is preempted in turn (or never); all of them are run.
"""

from __future__ import annotations

import sys
import threading

from .core import REPO_SRC, CaseTimeout, time_limit

STUCK = 0.4  # seconds after which a preempted thread runs on (the other is blocked on a lock)


class Run:
    def __init__(self, bodies, switches):
        self.bodies = bodies
        self.switches = switches  # {(thread, step)}
        self.steps = [0] * len(bodies)
        self.results = [None] * len(bodies)
        self.done = [False] * len(bodies)
        self.turn = [threading.Semaphore(0) for _ in bodies]
        self.stuck = 0
        self.free = False

    def _trace(self, me):
        def local(frame, event, arg):
            if event == "line" and not self.free:
                self.steps[me] += 1
                if (me, self.steps[me]) in self.switches:
                    other = 1 - me
                    if not self.done[other]:
                        self.turn[other].release()
                        if not self.turn[me].acquire(timeout=STUCK):
                            self.stuck += 1
                            self.free = True
            return local

        def start(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(REPO_SRC) else None

        return start

    def _thread(self, me):
        self.turn[me].acquire()
        sys.settrace(self._trace(me))
        try:
            self.results[me] = ("ok", self.bodies[me]())
        except BaseException as e:  # noqa: B036
            self.results[me] = ("exc", e)
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.turn[1 - me].release()

    def go(self, first):
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in threads:
            t.start()
        self.turn[first].release()
        for t in threads:
            t.join(20)
            if t.is_alive():
                self.free = True
                for s in self.turn:
                    s.release()
                t.join(5)
        return self.results


def lengths(make):
    """How many steps each body has when it runs alone."""
    out = []
    for i in range(2):
        bodies = make()
        other = [lambda: None, lambda: None]
        other[i] = bodies[i]
        run = Run(other, ())
        run.go(i)
        out.append(run.steps[i])
    return out


def explore(r, name, make, judge, preemptions=2, part=(0, 1), snippet="", both=True, limit=None):
    """make() -> two callables on fresh state; judge(results) -> None or what is wrong."""
    n = lengths(make)
    stuck = bad = 0
    for first in (0, 1) if both else (0,):
        other = 1 - first
        for i in range(1 + part[0], n[first] + 1, part[1]):
            for j in range(0, n[other] + 1) if preemptions > 1 else (0,):
                switches = {(first, i)} | ({(other, j)} if j else set())
                run = Run(make(), switches)
                r.transitions += 1
                run.go(first)
                stuck += run.stuck
                if stuck > 12:
                    r.notes["schedules abandoned: the code blocks on locks"] = 1
                    return
                what = judge(run.results)
                if what:
                    bad += 1
                    r.violation(f"{name} interleaved", f"{what} (thread {first} preempted at step {i}, thread {other} at {j or 'none'})", snippet)
                    if bad > 3:
                        return
                else:
                    r.traces += 1
                    r.outcomes["as alone"] += 1
    r.notes[f"steps of {name}"] = max(n)


CaseTimeout, time_limit  # noqa: B018
