"""C10: dense and sparse array storage are the same list with holes."""

from __future__ import annotations

import itertools
import math

from v8serialize import SparseMutableSequence
from v8serialize._typing import Order
from v8serialize.jstypes import JSHole, JSUndefined
from v8serialize.jstypes.jsarrayproperties import (
    MAX_ARRAY_LENGTH,
    DenseArrayProperties,
    SparseArrayProperties,
)

from ..core import CaseTimeout, chunks, exc_summary, time_limit
from ..space import Space

NAN = math.nan
HOLE = JSHole


class ListModel(list):
    """The reference: a list in which a hole is an ordinary value."""

    def resize(self, n):
        if not 0 <= n <= 2**32 - 1:
            raise ValueError(n)
        del self[n:]
        self.extend([HOLE] * (n - len(self)))

    @property
    def elements_used(self):
        return sum(v is not HOLE for v in self)

    def element_indexes(self, *, order=Order.ASCENDING):
        out = [i for i, v in enumerate(self) if v is not HOLE]
        return iter(out[::-1] if order is Order.DESCENDING else out)

    def elements(self, *, order=Order.ASCENDING):
        return ModelElements(self, order)


class ModelElements:
    """A live view of the elements that aren't holes."""

    def __init__(self, array, order):
        self.array, self.order = array, order

    def _dict(self):
        return {i: self.array[i] for i in self.array.element_indexes(order=self.order)}

    def __getitem__(self, k):
        return self._dict()[k]

    def __getattr__(self, name):
        return getattr(self._dict(), name)

    def __iter__(self):
        return iter(self._dict())

    def __len__(self):
        return len(self._dict())

    def __contains__(self, k):
        return k in self._dict()


class SparseModel:
    """The same for lengths that no list can have."""

    def __init__(self, entries, length):
        self.d, self.n = dict(entries), length

    def _i(self, i):
        j = i + self.n if i < 0 else i
        if not 0 <= j < self.n:
            raise IndexError(i)
        return j

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return self.d.get(self._i(i), HOLE)

    def __setitem__(self, i, v):
        i = self._i(i)
        self.d.pop(i, None) if v is HOLE else self.d.__setitem__(i, v)

    def __delitem__(self, i):
        i = self._i(i)
        self.d.pop(i, None)
        self.d = {k - (k > i): v for k, v in self.d.items()}
        self.n -= 1

    def insert(self, i, v):
        if self.n >= 2**32 - 1:
            raise IndexError
        i = max(0, i + self.n) if i < 0 else min(i, self.n)
        self.d = {k + (k >= i): x for k, x in self.d.items()}
        self.n += 1
        self[i] = v

    def append(self, v):
        self.insert(self.n, v)

    def extend(self, vs):
        for v in list(vs):
            self.append(v)

    def pop(self, i=-1):
        v = self[i]
        del self[i]
        return v

    def clear(self):
        self.d, self.n = {}, 0

    def resize(self, n):
        if not 0 <= n <= 2**32 - 1:
            raise ValueError(n)
        self.n = n
        self.d = {k: v for k, v in self.d.items() if k < n}

    elements_used = property(lambda self: len(self.d))

    def element_indexes(self, *, order=Order.ASCENDING):
        return iter(sorted(self.d, reverse=order is Order.DESCENDING))

    def elements(self, *, order=Order.ASCENDING):
        return ModelElements(self, order)


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(i) for i in v]
    if isinstance(v, dict):
        return [(norm(a), norm(b)) for a, b in v.items()]
    if v is None or isinstance(v, (str, bool, int)):
        return v
    return repr(v)


def indexes(a):
    out = {}
    for o in Order:
        i = list(a.element_indexes(order=o))
        out[o.name] = sorted(i) if o is Order.UNORDERED else i
    return out


def observe(a):
    """Everything that can be read of it (of a fresh copy: reading may cache)."""
    asc = a.elements()
    out = {
        "list()": norm(list(a)), "len()": len(a), "elements_used": a.elements_used, "indexes": indexes(a),
        "reversed": norm(list(reversed(a))), "elements": norm(list(asc.items())), "elements len": len(asc),
        "descending": norm(list(a.elements(order=Order.DESCENDING).items())),
        "getitem": [norm(a[i]) for i in range(-len(a), len(a))],
        "get": [norm(asc.get(i, "none")) for i in range(-2, len(a) + 2)],
        "in elements": [i in asc for i in range(-2, len(a) + 2)],
    }  # fmt: skip
    return out


def observe_big(a):
    asc = a.elements()
    n = len(a)
    probes = [0, 1, 2, n - 1, n - 2, n // 2, -1, -2, -n] if n else []
    out = {
        "len()": len(a), "elements_used": a.elements_used, "indexes": indexes(a), "elements": norm(list(asc.items())),
        "descending": norm(list(a.elements(order=Order.DESCENDING).items())), "elements len": len(asc),
    }  # fmt: skip
    out["getitem"] = [norm(a[i]) for i in probes if -n <= i < n]
    return out


SCOPE = {
    "HOLE": HOLE, "Order": Order, "UNDEFINED": JSUndefined, "NAN": NAN, "MAX": 2**32 - 1,
    "Dense": DenseArrayProperties, "Sparse": SparseArrayProperties, "it": lambda xs: iter(xs),
}  # fmt: skip
PRELUDE = (
    "from v8serialize.jstypes import JSHole as HOLE, JSUndefined as UNDEFINED\nfrom v8serialize._typing import Order\n"
    "from v8serialize.jstypes.jsarrayproperties import DenseArrayProperties as Dense, SparseArrayProperties as Sparse\n"
    "NAN = float('nan'); MAX = 2**32 - 1; it = iter\n"
)
V = ["'x'", "HOLE"]


def ops(limit, values=("'x'", "'y'", "HOLE")):
    def f(a):
        n = len(a)
        out = ["a.clear()", "a.reverse()", "r = a.pop()", "r = list(a)", "r = list(reversed(a))", "r = a.elements_used"]
        out += [f"r = list(a.element_indexes(order=Order.{o}))" for o in ("ASCENDING", "DESCENDING")]
        out += ["r = sorted(a.element_indexes(order=Order.UNORDERED))"]
        out += ["e = a.elements(); a.append('x'); r = [list(e.items()), len(e)]"] if n < limit else []
        out += [f"e = a.elements(); r = e[{i}]" for i in range(-1, n + 2)]
        out += [f"e = a.elements(order=Order.DESCENDING); r = list(e); a[{i}] = HOLE; r += list(e)" for i in range(n)]
        for i in range(-n - 1, n + 1):
            out += [f"r = a[{i}]", f"del a[{i}]", f"r = a.pop({i})"] + [f"a[{i}] = {v}" for v in values]
        for v in values:
            out += [f"a.remove({v})", f"r = a.index({v})", f"r = a.count({v})", f"r = {v} in a", f"r = a.index({v}, 1)", f"r = a.index({v}, -2, -1)"]
            out += [f"r = a.index({v}, 1, 2)"]
        out += [f"a.resize({k})" for k in range(-1, limit + 1)] + ["a.resize(MAX + 1)"]
        if n < limit:
            out += [f"a.insert({i}, {v})" for i in range(-n - 2, n + 3) for v in values]
            out += [f"a.append({v})" for v in values]
        for k in range(0, limit - n + 1):
            for vs in (["'x'"] * k, ["HOLE"] * k, ["'y'", "HOLE", "'x'"][:k], ["HOLE", "'x'"][:k]):
                lit = f"[{', '.join(vs)}]"
                out += [f"a.extend({lit})", f"a.extend(it({lit}))", f"a += {lit}"]
        if 2 * n <= limit:
            out += ["a.extend(a)", "a += a"]
        return list(dict.fromkeys(out))

    return f


def small_inits(cls, contents):
    out = {}
    name = {DenseArrayProperties: "Dense", SparseArrayProperties: "Sparse"}[cls]
    for c in contents:
        src = f"{name}({repr_list(c)})"
        out[src] = (lambda c=c: cls(list(c)), lambda c=c: ListModel(c))
    return out


def repr_list(c):
    return "[" + ", ".join("HOLE" if v is HOLE else repr(v) for v in c) + "]"


def bfs_task(r, cls, limit, depth, contents, values):
    name = cls.__name__
    sp = Space(r, name, SCOPE, norm, observe, key=lambda m: repr(list(m)), prelude=PRELUDE)
    sp.explore(small_inits(cls, contents), ops(limit, values), depth)
    r.sample(f"{name} from {repr_list(contents[-1])}", 1)


def inits_task(r, limit):
    """Every way of constructing one."""
    for n in range(limit + 1):
        for c in itertools.product(["x", "y", HOLE], repeat=n):
            want = ListModel(c)
            src = repr_list(c)
            entries = [(i, v) for i, v in enumerate(c) if v is not HOLE]
            used = entries[-1][0] + 1 if entries else 0
            makes = {
                f"Dense({src})": (lambda: DenseArrayProperties(list(c)), want),
                f"Dense(it({src}))": (lambda: DenseArrayProperties(iter(c)), want),
                f"Sparse({src})": (lambda: SparseArrayProperties(list(c)), want),
                f"Sparse(it({src}))": (lambda: SparseArrayProperties(iter(c)), want),
                f"Sparse(Dense({src}))": (lambda: SparseArrayProperties(DenseArrayProperties(c)), want),
                f"Dense(Sparse({src}))": (lambda: DenseArrayProperties(SparseArrayProperties(c)), want),
                f"Sparse(entries={entries})": (lambda: SparseArrayProperties(entries=entries), ListModel(c[:used])),
                f"Sparse(entries={entries[::-1]})": (lambda: SparseArrayProperties(entries=entries[::-1]), ListModel(c[:used])),
                f"Sparse(entries=dict({entries}))": (lambda: SparseArrayProperties(entries=dict(entries)), ListModel(c[:used])),
                f"Sparse(entries={entries}, length={n})": (lambda: SparseArrayProperties(entries=entries, length=n), want),
                f"Sparse(entries=reversed {entries}, length={n})": (
                    lambda: SparseArrayProperties(entries=dict(entries[::-1]), length=n), want),
                f"Sparse(entries=it({entries}), length={n})": (lambda: SparseArrayProperties(entries=iter(entries), length=n), want),
                f"Sparse(entries=elements of {src}, length={n})": (
                    lambda: SparseArrayProperties(entries=DenseArrayProperties(c).elements(), length=n), want),
                f"Sparse(entries={entries}, length={max(n - 1, 0)})": (
                    lambda: SparseArrayProperties(entries=entries, length=max(n - 1, 0)), ListModel(c[: max(n - 1, 0)])),
                f"Sparse(entries={entries}, length={n + 2})": (
                    lambda: SparseArrayProperties(entries=entries, length=n + 2), ListModel([*c, HOLE, HOLE])),
            }  # fmt: skip
            sp = Space(r, "init", SCOPE, norm, observe, prelude=PRELUDE)
            for s, (make, model) in makes.items():
                r.states += 1
                r.transitions += 1
                try:
                    bad = sp.compare(make(), model)
                except Exception as e:
                    bad = f"raised {exc_summary(e)}"
                if bad:
                    sp.report(s, (), bad)
                else:
                    r.traces += 1
    for kw, exc in (
        ({"entries": [(-1, "x")]}, IndexError), ({"entries": [(2**32 - 1, "x")]}, IndexError), ({"length": -1}, ValueError),
        ({"length": 2**32}, ValueError), ({"entries": [(-1, "x")], "length": 3}, IndexError),
        ({"values": ["x"], "length": 3}, ValueError), ({"entries": [(0, "x"), (-2, "y")], "length": 0}, IndexError),
    ):  # fmt: skip
        r.states += 1
        try:
            got = SparseArrayProperties(**kw)
        except exc:
            r.outcomes[f"init raises {exc.__name__}"] += 1
        except Exception as e:
            r.violation(f"init {kw}", f"expected {exc.__name__}, raised {exc_summary(e)}", "")
        else:
            r.violation(f"init {kw}", f"expected {exc.__name__}, got length {len(got)}", "")
    for n in (0, 1, 5, 2**32 - 1):
        a = SparseArrayProperties(entries=[(0, "x"), (n - 1, "z")] if n > 1 else [], length=n)
        if len(a) != n:
            r.violation(f"init length {n}", f"length is {len(a)}", "")


def equality_task(r, limit):
    """== between both types and any contents; the lists decide."""
    contents = [c for n in range(limit + 1) for c in itertools.product(["x", 1, HOLE], repeat=n)]
    contents += [(1.0,), (True,), (NAN,), (None,), (JSUndefined,), ("x", 1.0)]
    made = [(c, cls(c)) for c in contents for cls in (DenseArrayProperties, SparseArrayProperties)]
    for a, x in made:
        for b, y in made:
            r.states += 1
            want = list(a) == list(b)
            if list(a) == list(b) and any(v != v for v in a):
                continue
            try:
                got = (x == y, not (x != y))
            except Exception as e:
                r.violation(f"{x!r} == {y!r}", f"raised {exc_summary(e)}", "")
                continue
            r.transitions += 2
            if got != (want, want):
                r.violation(f"equality: {x!r} == {y!r}", f"== and not != are {got}, expected {want}", f"{PRELUDE}print({x!r} == {y!r})")
        r.states += 1
        if x == list(a) or x == tuple(a) or x == 5 or x == "x":
            r.violation(f"equality: {x!r} == list", "equal to something else", "")
        if not isinstance(x, SparseMutableSequence):
            r.violation("isinstance", "not a SparseMutableSequence", "")
        s = str(x)
        if s.count("empty items") > len(a) or (a and not s.strip("[] ")):
            r.violation(f"str: {x!r}", f"shown as {s}", "")


BIG = 2**32 - 1


def big_ops(a):
    n = len(a)
    spots = sorted({i for b in (0, n // 2, n) for i in (b - 1, b, b + 1) if 0 <= i <= n + 1} | {7, 3000})
    out = ["a.clear()", "r = a.pop()", "r = a.pop(0)", "r = a.elements_used", "a.extend([HOLE, 'q'])"]
    out += ["a.append('x')", "a.append(HOLE)"]
    for i in spots:
        for j in (i, i - n):
            out += [f"r = a[{j}]", f"del a[{j}]", f"a[{j}] = 'x'", f"a[{j}] = HOLE", f"a.insert({j}, 'x')", f"a.insert({j}, HOLE)"]
    out += [f"a.resize({k})" for k in {0, 1, 5, n // 2, max(n - 1, 0), n, n + 1, BIG, BIG + 1, BIG - 1}]
    return list(dict.fromkeys(out))


def big_task(r, length, entries, depth):
    sp = Space(r, "big", SCOPE, norm, observe_big, key=lambda m: f"{m.n} {sorted(m.d.items())}", prelude=PRELUDE)
    src = f"Sparse(entries={entries}, length={length})"
    init = (lambda: SparseArrayProperties(entries=list(entries), length=length), lambda: SparseModel(entries, length))
    sp.explore({src: init}, big_ops, depth)
    r.sample(src, 1)


def model_task(r):
    """The two reference models agree (on lengths that both can have)."""
    sp = Space(r, "models", SCOPE, norm, lambda a: observe_big(a), prelude=PRELUDE)
    inits = {
        repr_list(c): (
            lambda c=c: SparseModel([(i, v) for i, v in enumerate(c) if v is not HOLE], len(c)), lambda c=c: ListModel(c))
        for n in range(4) for c in itertools.product(["x", HOLE], repeat=n)
    }  # fmt: skip

    def f(a):
        return [s for s in ops(4)(a) if s.split("(")[0] in ("a.insert", "a.append", "a.clear", "r = a.pop") or s.startswith(("a[", "del", "r = a["))]

    sp.explore(inits, f, 2)


def main(check):
    t = check.thorough
    limit = 6 if t else 4
    tasks = []
    for cls in (DenseArrayProperties, SparseArrayProperties):
        contents = [c for n in range(limit + 1) for c in itertools.product(["x", HOLE], repeat=n)]
        tasks += [(bfs_task, (cls, limit, 3 if t else 2, c, ("'x'", "'y'", "HOLE"))) for c in chunks(contents, 32)]
        odd = [("x",), (NAN, 1), (1, True, 1.0), (None, JSUndefined), (HOLE, NAN)]
        tasks += [(bfs_task, (cls, 3, 2, [c], ("NAN", "1", "1.0", "None", "UNDEFINED", "HOLE"))) for c in odd]
        # from the empty array, by operations alone
        tasks += [(bfs_task, (cls, limit, 6 if t else 4, [()], ("'x'", "HOLE")))]
    check.phase("operation sequences", tasks)
    check.phase("constructors", [(inits_task, (5 if t else 4,))])
    check.phase("equality", [(equality_task, (3,))])
    lengths = [(BIG, ((0, "x"), (5, "y"), (BIG - 1, "z"))), (BIG - 1, ((BIG // 2, "m"),)), (BIG - 2, ()), (10**6, ((999, "x"), (7, "y")))]
    check.phase("very long arrays", [(big_task, (n, e, 3 if t else 2)) for n, e in lengths])
    check.phase("models agree", [(model_task, ())])
    check.bounds = {"length": limit, "operations from the empty array": 6 if t else 4, "operations from any array": 3 if t else 2}
    check.assumptions = ["slices are documented as not implemented and are not used"]


CaseTimeout, time_limit, MAX_ARRAY_LENGTH  # noqa: B018
