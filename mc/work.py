"""Measures of the work a call does that don't depend on the machine's speed."""

from __future__ import annotations

import sys
import time
import tracemalloc

_MON = sys.monitoring
_TOOL = 4
_E = _MON.events
_EVENTS = _E.PY_START | _E.PY_RESUME | _E.JUMP | _E.BRANCH | _E.CALL


class TooMuchWork(BaseException):
    """The limit was reached (not an Exception, so code can't eat it)."""


class Counter:
    """Counts calls, branches and jumps of everything Python executes."""

    def __init__(self):
        self.n = 0
        self.limit = None
        _MON.use_tool_id(_TOOL, "work")
        for bit in range(20):
            if _EVENTS >> bit & 1:
                _MON.register_callback(_TOOL, 1 << bit, self._event)

    def _event(self, *_):
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            _MON.set_events(_TOOL, 0)
            raise TooMuchWork()

    def close(self):
        _MON.set_events(_TOOL, 0)
        for bit in range(20):
            if _EVENTS >> bit & 1:
                _MON.register_callback(_TOOL, 1 << bit, None)
        _MON.free_tool_id(_TOOL)

    def run(self, fn, limit=None):
        """(events, result or exception, kind)"""
        self.n = 0
        self.limit = limit
        _MON.set_events(_TOOL, _EVENTS)
        try:
            out = ("ok", fn())
        except TooMuchWork:
            out = ("too much", None)
        except Exception as e:
            out = ("exc", e)
        finally:
            _MON.set_events(_TOOL, 0)
        return self.n, *out


_counter = None


def count(fn, limit=None):
    global _counter
    if _counter is None:
        _counter = Counter()
    return _counter.run(fn, limit)


def peak(fn):
    """The most memory fn had allocated at any time, in bytes."""
    if not tracemalloc.is_tracing():
        tracemalloc.start()
    base = tracemalloc.get_traced_memory()[0]
    tracemalloc.reset_peak()
    try:
        out = ("ok", fn())
    except Exception as e:
        out = ("exc", e)
    most = tracemalloc.get_traced_memory()[1] - base
    tracemalloc.stop()  # it slows everything else down
    return most, *out


def cpu(fn):
    t = time.thread_time()
    fn()
    return time.thread_time() - t
