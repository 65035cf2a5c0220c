"""Explicit-state exploration of an object against a reference object.

Operations are Python statements about `a` (a result is assigned to `r`). Each
is executed on the implementation and on the reference model, which offers the
same interface; results, exceptions and what can be observed afterwards must be
the same. States (of the reference, and of the implementation's attributes) are
expanded once; objects are rebuilt by replaying the statements that led there.
"""

from __future__ import annotations

import enum
import types

from .core import CaseTimeout, exc_summary, time_limit

_code: dict[str, object] = {}


def compiled(src):
    c = _code.get(src)
    if c is None:
        c = _code[src] = compile(src, "<op>", "exec")
    return c


def fingerprint(obj):
    """A hashable description of an object's internal state."""
    ids: dict[int, int] = {}
    keep = []

    def f(v):
        t = type(v)
        if v is None or t in (int, bool, float, complex, str, bytes) or isinstance(v, enum.Enum):
            return (t.__name__, repr(v))
        if isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
            return ("code", getattr(v, "__qualname__", repr(v)))
        n = ids.get(id(v))
        if n is not None:
            return ("seen", n)
        ids[id(v)] = len(ids)
        keep.append(v)
        if isinstance(v, (dict, types.MappingProxyType)):
            return (t.__name__, tuple((f(a), f(b)) for a, b in v.items()))
        if isinstance(v, (list, tuple)):
            return (t.__name__, tuple(f(a) for a in v))
        if isinstance(v, (set, frozenset)):
            return (t.__name__, tuple(sorted(map(repr, map(f, v)))))
        if isinstance(v, (bytearray, memoryview)):
            return (t.__name__, bytes(v))
        attrs = []
        for c in t.__mro__:
            slots = c.__dict__.get("__slots__", ())
            for s in (slots,) if isinstance(slots, str) else slots:
                if s.startswith("__") and not s.endswith("__"):
                    s = f"_{c.__name__.lstrip('_')}{s}"
                if s not in ("__weakref__", "__dict__") and hasattr(v, s):
                    attrs.append((s, f(getattr(v, s))))
        attrs += [(a, f(b)) for a, b in getattr(v, "__dict__", {}).items()]
        return (t.__qualname__, tuple(attrs))

    return f(obj)


def execute(src, scope, obj):
    """('ok', result) or ('exc', exception); CaseTimeout propagates."""
    local = {"a": obj, "r": None}
    try:
        exec(compiled(src), scope, local)
    except CaseTimeout:
        raise
    except Exception as e:
        return "exc", e
    return "ok", local["r"]


def same_exception(got, want):
    return type(got) is type(want) or isinstance(got, type(want))


class Space:
    def __init__(self, r, name, scope, norm, observe, key=None, prelude="", same=None):
        """norm(x) normalises results; observe(obj) describes an object."""
        self.r, self.name, self.scope, self.norm, self.observe = r, name, scope, norm, observe
        self.key = key or (lambda m: repr(observe(m)))
        self.prelude = prelude
        self.same = same or same_exception
        self.timeouts = 0

    def build(self, init, model, path):
        obj = (init[1] if model else init[0])()
        for p in path:
            execute(p, self.scope, obj)
        return obj

    def report(self, init_name, path, what):
        code = self.prelude + "\n".join([f"a = {init_name}", *path])
        self.r.violation(f"{self.name}: {init_name}; {'; '.join(path)}"[:400], what, code)

    def explore(self, inits, ops, max_depth, max_states=10**9, keep=None, part=None):
        """inits: {source: (make impl, make model)}; ops(model) -> statements.

        keep(model): whether to expand a state further.
        """
        seen = set()
        frontier = [(name, init, ()) for name, init in inits.items()]
        complete = True
        first = True
        for depth in range(max_depth + 1):
            nxt = []
            for name, init, path in frontier:
                impl, model = self.build(init, False, path), self.build(init, True, path)
                if first:
                    bad = self.compare(impl, model)
                    if bad:
                        self.report(name, path, bad)
                        continue
                k = (self.key(model), fingerprint(impl))
                if k in seen:
                    continue
                seen.add(k)
                self.r.states += 1
                if depth == max_depth or (keep and not keep(model)):
                    continue
                if len(seen) > max_states or self.timeouts > 2:
                    complete = False
                    continue
                statements = ops(model)
                if depth == 0 and part is not None:
                    statements = statements[part[0] :: part[1]]
                for s in statements:
                    if self.step(name, init, path, s):
                        nxt.append((name, init, (*path, s)))
            frontier = nxt
            first = False
        return complete

    def step(self, name, init, path, s):
        """Execute one more statement on both; True when they agree."""
        r = self.r
        r.transitions += 1
        impl, model = self.build(init, False, path), self.build(init, True, path)
        kind, want = execute(s, self.scope, model)
        try:
            with time_limit(20):
                got_kind, got = execute(s, self.scope, impl)
                if kind == "exc":
                    if got_kind != "exc":
                        bad = f"expected {type(want).__name__}, got the result {self.norm(got)!r:.300}"
                    elif not self.same(got, want):
                        bad = f"expected {type(want).__name__}, raised {exc_summary(got)}"
                    else:
                        bad = None
                        r.outcomes[f"raises {type(want).__name__}"] += 1
                elif got_kind == "exc":
                    bad = f"raised {exc_summary(got)}, expected {self.norm(want)!r:.300}"
                else:
                    a, b = self.norm(got), self.norm(want)
                    bad = None if a == b else f"result {a!r:.300}, expected {b!r:.300}"
                if not bad:
                    bad = self.compare(impl, model)
        except CaseTimeout:
            bad = "did not terminate"
            self.timeouts += 1
        if bad:
            self.report(name, (*path, s), bad)
            return False
        r.traces += 1
        r.outcomes[s.split("(")[0].split("[")[0][:30]] += 1
        return True

    def compare(self, impl, model):
        try:
            a = self.observe(impl)
        except CaseTimeout:
            raise
        except Exception as e:
            return f"observing it raised {exc_summary(e)}"
        b = self.observe(model)
        if a == b:
            return None
        if isinstance(a, dict):
            for k in b:
                if a.get(k) != b[k]:
                    return f"{k} is {a.get(k)!r:.300}, expected {b[k]!r:.300}"
        return f"{a!r:.400}, expected {b!r:.400}"
