"""C01: round trips preserve every value exactly."""

from __future__ import annotations

import enum
import itertools
import math
import re
from collections import abc
from dataclasses import dataclass
from datetime import datetime, timedelta, timezone
from typing import NamedTuple

from v8serialize import SerializationFeature, default_encode_steps, dumps, loads
from v8serialize.constants import JSRegExpFlag, SerializationTag
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSArrayBufferTransfer,
    JSDataView,
    JSErrorData,
    JSFloat32Array,
    JSInt8Array,
    JSInt16Array,
    JSInt32Array,
    JSMap,
    JSObject,
    JSPrimitiveObject,
    JSRegExp,
    JSSet,
    JSSharedArrayBuffer,
    JSUint8Array,
    JSUint8ClampedArray,
)
from v8serialize.jstypes._v8 import V8SharedObjectReference

from .. import gen
from ..core import CaseTimeout, chunks, exc_summary, time_limit
from ..graph import PRELUDE, Graph, build, describe_py, match, py_source, s16


def snippet(g: Graph) -> str:
    return f"{PRELUDE}{py_source(g)}\nprint('in ', v)\nprint('out', loads(dumps(v)))\n"


def fingerprint(data: bytes) -> str:
    return f"{len(data).bit_length()}"


def round_trip(r, key, g: Graph, options=None):
    """dumps -> loads -> dumps -> loads of one graph."""
    options = options or {}
    r.states += 1
    try:
        with time_limit(20):
            v = build(g)
            frozen = g.frozen()
            want = g.to_py()
            data = dumps(v, **options)
            r.transitions += 1
            got = loads(data)
            m = match(want, describe_py(got), frozen)
            if m:
                r.violation(key, f"round trip differs {m}", snippet(g))
                return None
            r.transitions += 1
            data2 = dumps(got, **options)
            again = loads(data2)
            m = match(want, describe_py(again), frozen)
            if m:
                r.violation(key, f"second round trip differs {m}", snippet(g))
                return None
            r.traces += 2
            r.outcomes[f"{data[2:3]!r}/{fingerprint(data)}"] += 1
            return data
    except CaseTimeout:
        r.violation(key, "did not terminate", snippet(g))
    except Exception as e:
        r.violation(key, f"raised {exc_summary(e)}", snippet(g))
    return None


def run_cases(r, cases):
    for key, g in cases:
        round_trip(r, key, g)
        r.sample(key, 2)


def leaves_task(r, names):
    run_cases(r, gen.single_leaf_cases(names))


def pairs_task(r, names, others, pairings):
    ps = {k: gen.PAIRINGS[k] for k in pairings}
    run_cases(r, (c for c in gen.pair_cases(names, others, ps) if not skip_pair(c)))


def skip_pair(case):
    return False


def triples_task(r, names):
    for a in names:
        for b, c in itertools.product(gen.CONFUSABLE, repeat=2):
            g = Graph()
            g.root = g.arr(
                gen.leaf(g, a), g.arr(gen.leaf(g, b), fl="tuple"), g.arr(gen.leaf(g, c), fl="tuple"),
                g.arr(gen.leaf(g, b), gen.leaf(g, c), fl="tuple"), fl="list",
            )  # fmt: skip
            round_trip(r, f"triple {a},{b},{c}", g)


WRAPS = {
    "tuple": lambda g, x: g.arr(x, fl="tuple"),
    "tuple2": lambda g, x: g.arr(g.arr(x, fl="tuple"), fl="tuple"),
    "frozenset": lambda g, x: g.jsset(x, fl="frozenset"),
    "tuple(frozenset)": lambda g, x: g.arr(g.jsset(x, fl="frozenset"), fl="tuple"),
    "frozenset(tuple)": lambda g, x: g.jsset(g.arr(x, fl="tuple"), fl="frozenset"),
}


def frozen_cases(pairs):
    """Equal-looking immutable containers of different content in one value."""
    for a, b in pairs:
        for w, f in WRAPS.items():
            g = Graph()
            g.root = g.arr(f(g, gen.leaf(g, a)), f(g, gen.leaf(g, b)), f(g, gen.leaf(g, a)), fl="list")
            yield f"{w} {a} vs {b}", g


def frozen_task(r, pairs):
    run_cases(r, frozen_cases(pairs))


BOXABLE = [n for n in gen.CONFUSABLE if n not in ("null", "undef")]


def boxed_task(r):
    for a, b in itertools.product(BOXABLE, repeat=2):
        g = Graph()
        g.root = g.arr(
            g.boxed(gen.leaf(g, a)), g.boxed(gen.leaf(g, b)), gen.leaf(g, a), gen.leaf(g, b), fl="list"
        )
        if g.nodes[0][1] == ("int", 2**53) or g.nodes[1][1] == ("int", 2**53):
            continue
        round_trip(r, f"boxed {a},{b}", g)


def nested_task(r, depth, leaves, part, parts):
    cases = gen.nested_cases(depth, leaves)
    run_cases(r, itertools.islice(cases, part, None, parts))


def sizes_task(r, sizes):
    run_cases(r, gen.size_cases(sizes))


def catalogue_task(r, part, parts, resizable=False):
    options = {"features": SerializationFeature.ResizableArrayBuffers} if resizable else None
    for key, g in gen.catalogue_cases(part, parts, resizable):
        round_trip(r, key, g, options)
        r.sample(key, 1)


def two_counts_task(r, counts, part, parts):
    run_cases(r, itertools.islice(gen.two_counts_cases(counts), part, None, parts))


def strings_task(r, strings):
    for s in strings:
        for wrap in ("top", "list[1]", "jsobject", "jsmap key", "boxed", "message", "regexp"):
            g = Graph()
            if wrap == "boxed":
                g.root = g.boxed(("str", s16(s)))
            elif wrap == "message":
                g.root = g.error("Error", s, s)
            elif wrap == "regexp":
                g.root = g.regexp(s or "(?:)")
            else:
                g.root = gen.POSITIONS[wrap](g, ("str", s16(s)))
            round_trip(r, f"string {wrap} {s!a:.60}", g)


def all_strings(alphabet, upto):
    for n in range(upto + 1):
        for t in itertools.product(alphabet, repeat=n):
            s = "".join(t)
            # a high and a low surrogate in sequence are one character
            yield s.encode("utf-16", "surrogatepass").decode("utf-16", "surrogatepass")


def ints_task(r, ints):
    for n in ints:
        g = Graph()
        g.root = g.arr(("int", n), ("int", -n), fl="list")
        round_trip(r, f"int {n.bit_length()} bits {n % 1000}", g)
        g = Graph()
        if abs(n) < 2**53:
            g.root = g.arr(("num", float(n).hex() and __import__("struct").pack(">d", float(n)).hex()), fl="list")
            round_trip(r, f"float {n}", g)


class OwnStr(str):
    pass


class OwnInt(int):
    pass


class OwnFloat(float):
    pass


class Number(enum.IntEnum):
    small = 5
    large = 2**60


class Letter(enum.StrEnum):
    a = "a"
    wide = "λ"


class Named(int, enum.Enum):
    # str() of these is not their digits
    neg = -1
    huge = 2**60
    one = 1


class NamedStr(str, enum.Enum):
    a = "x y"
    seven = "7"


class LoudFloat(float):
    def __repr__(self):
        return "loud"

    __str__ = __repr__


# instances of subclasses of primitive types, and what they stand for
OWN_PRIMITIVES = [
    (OwnStr("x"), gen.S("x")), (OwnStr(""), gen.S("")), (OwnStr("\ud800"), gen.S("\ud800")), (Letter.a, gen.S("a")),
    (Letter.wide, gen.S("λ")), (OwnInt(5), gen.I(5)), (OwnInt(-(2**31)), gen.I(-(2**31))),
    (OwnInt(2**70), gen.I(2**70)), (Number.small, gen.I(5)), (Number.large, gen.I(2**60)),
    (OwnFloat(1.5), gen.F(1.5)), (OwnFloat(-0.0), gen.F(-0.0)), (OwnFloat(5.0), gen.F(5.0)),
    (OwnFloat("nan"), gen.F(math.nan)), (Named.neg, gen.I(-1)), (Named.huge, gen.I(2**60)), (Named.one, gen.I(1)),
    (NamedStr.a, gen.S("x y")), (NamedStr.seven, gen.S("7")), (LoudFloat(2.5), gen.F(2.5)),
]  # fmt: skip
OWN_WRAPS = {
    "top": lambda v: v,
    "list": lambda v: [v, v],
    "JSObject": lambda v: JSObject(k=v),
    "JSArray": lambda v: JSArray([v], p=v),
    "JSMap": lambda v: JSMap([(v, v)]),
    "dict": lambda v: {v: v},
    "JSSet": lambda v: JSSet([v]),
    "set": lambda v: {v},
    "boxed": lambda v: JSPrimitiveObject(v),
    "cause": lambda v: JSErrorData(message="m", cause=v),
    "key": lambda v: JSObject([(v, 1)]),
    "written key": lambda v: WrittenObject(v),
    "array key": lambda v: with_key(v),
}


class WrittenObject:
    """Written with its key as it is, by written_object_step()."""

    def __init__(self, k):
        self.k = k


def written_object_step(value, /, ctx, next):
    if isinstance(value, WrittenObject):
        ctx.stream.write_js_object([(value.k, 1)], ctx=ctx)
    else:
        next(value)


def with_key(k):
    a = JSArray()
    if not isinstance(k, int) or 0 <= k < 100:
        a[k] = 1
    return a


def own_primitives_task(r):
    """A value of a subclass of a primitive type is that primitive."""
    for v, want in OWN_PRIMITIVES:
        plain = next(t for t in (str, int, float) if isinstance(v, t))
        plain = "".join(list(v)) if plain is str else plain.__pos__(v)
        if match(Graph(want).to_py(), describe_py(plain)):
            raise RuntimeError(f"{v!r} does not stand for {want}")
        for name, wrap in OWN_WRAPS.items():
            r.states += 1
            key = f"own primitive {type(v).__name__} {plain!a} {name}"
            try:
                steps = [written_object_step, *default_encode_steps]
                with time_limit(20):
                    got, alone = (loads(dumps(wrap(x), encode_steps=steps)) for x in (v, plain))
                m = match(describe_py(alone), describe_py(got))
            except CaseTimeout:
                m = "did not terminate"
            except Exception as e:
                m = f"raised {exc_summary(e)}"
            r.transitions += 1
            if m:
                r.violation(key, f"differs from the plain value: {m}", f"# {key}")


@dataclass(frozen=True)
class FrozenMap(abc.Mapping):
    """Hashable, and equal if its items are."""

    pairs: tuple

    def __getitem__(self, k):
        return dict(self.pairs)[k]

    def __iter__(self):
        return (k for k, _ in self.pairs)

    def __len__(self):
        return len(self.pairs)


@dataclass(frozen=True)
class FrozenItems(abc.Collection):
    values: tuple

    def __contains__(self, v):
        return v in self.values

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return len(self.values)


class FrozenList(FrozenItems, abc.Sequence):
    def __getitem__(self, i):
        return self.values[i]


class FrozenSet(FrozenItems, abc.Set):
    __hash__ = FrozenItems.__hash__


class Pair(NamedTuple):
    a: object
    b: object


class Named(str):
    """A str that has more to it than its characters."""

    def __new__(cls, s, extra=None):
        self = super().__new__(cls, s)
        self.extra = extra
        return self


CONFUSED = ["1", "True", "1.0", "0.0", "-0.0", "'1'", "(1,)", "(True,)", "frozenset([1])", "frozenset([1.0])"]
TZS = ["timezone.utc", "timezone(timedelta(hours=1))", "None"]


def mergeable():
    """Sources of hashable values, many of them equal without being the same."""
    out = [*CONFUSED, "2", "()", "frozenset()", "range(0, 3, 2)", "range(0, 4, 2)", "range(0)", "range(5, 5)", "(0, 2)", "Pair(1, 2)", "Pair(True, 2)", "(1, 2)"]
    for c in CONFUSED:
        out += [f"({c}, 'x')", f"(({c},),)", f"frozenset([{c}, 'x'])", f"FrozenMap((({c}, 1),))", f"FrozenMap((('a', {c}),))", f"FrozenList(({c},))"]
        out += [f"FrozenSet(({c},))", f"FrozenItems(({c},))", f"Pair({c}, 0)", f"(FrozenMap(((0, {c}),)),)"]
    out += ["FrozenMap((('a', 1), ('b', 2)))", "FrozenMap((('b', 2), ('a', 1)))"]
    out += [f"JSPrimitiveObject({v})" for v in ("1", "1.0", "True", "0.0", "-0.0", "'1'", "0", "False", "1, SerializationTag.kBigIntObject", "2**70", "float('nan')")]
    out += [f"datetime(2024, 1, 1, {h}, tzinfo={tz}, fold={f})" for h in (0, 1) for tz in TZS for f in (0, 1)]
    out += ["re.compile('a')", "re.compile('a', re.I)", "re.compile(b'a')", "JSRegExp('a')", "JSRegExp('a', JSRegExpFlag.IgnoreCase)", "JSRegExp('b')"]
    out += ["b'ab'", "b'ac'", "b''", "memoryview(b'ab')", "memoryview(b'ab').cast('b')", "memoryview(b'xab')[1:]", "memoryview(b'a\\xff')", "memoryview(b'a\\xff').cast('b')"]
    buffers = ["b'ab\\0\\0'", "b'ab\\0\\1'", "b'xxab\\0\\0'", "b'ab'", "memoryview(b'ab\\0\\0')", "JSArrayBuffer(b'ab\\0\\0', readonly=True)", "JSArrayBuffer(b'ab\\0\\1', readonly=True)"]
    out += [b for b in buffers if b[0] == "J"]
    for b in buffers:
        for cls in ("JSUint8Array", "JSInt8Array", "JSInt16Array", "JSDataView", "JSUint8ClampedArray"):
            out += [f"{cls}({b}{at})" for at in ("", ", 0, 1", ", 1, 1", ", 0, 2", ", 2, 2", ", 9")]
    out += ["JSFloat32Array(bytes(4))", "JSFloat32Array(b'\\0\\0\\0\\x80')", "JSInt32Array(bytes(4))", "JSInt8Array(b'\\0')"]
    for b in ("JSSharedArrayBuffer(1)", "JSSharedArrayBuffer(2)", "JSArrayBufferTransfer(1)", "JSArrayBufferTransfer(2)"):
        out += [b, *(f"{cls}({b}{at})" for cls in ("JSUint8Array", "JSInt16Array") for at in ("", ", 0, 1", ", 1, 1", ", 1"))]
    out += ["V8SharedObjectReference(1)", "V8SharedObjectReference(2)", "Named('a')", "Named('a', 1)", "'a'"]
    return out


MERGE_WRAPS = {
    "[a, b]": lambda a, b: [a, b],
    "[(a,), (b,)]": lambda a, b: [(a,), (b,)],
    "[a, [b, a]]": lambda a, b: [a, [b, a]],
}


def merging_task(r, part, parts):
    """Equal immutable values are written as one only if nothing tells them apart."""
    sources = mergeable()
    values = [eval(s) for s in sources]
    alone = [describe_py(loads(dumps([v]))) for v in values]
    for i in range(part, len(values), parts):
        for j in range(len(values)):
            a, b = values[i], values[j]
            if i == j or not (type(a) is type(b) and a == b):
                # only equal values can be confused
                r.outcomes["different"] += 1
                continue
            for w, wrap in MERGE_WRAPS.items():
                r.states += 1
                key = f"equal {sources[i]} {sources[j]} {w}"
                try:
                    with time_limit(20):
                        got = loads(dumps(wrap(a, b)))
                    r.transitions += 1
                    x, y = (got[0][0], got[1][0]) if "(" in w else (got[0], got[1][0] if "[b" in w else got[1])
                    m = match(alone[i], describe_py(JSArray([x]))) or match(alone[j], describe_py(JSArray([y])))
                except CaseTimeout:
                    m = "did not terminate"
                except Exception as e:
                    m = f"raised {exc_summary(e)}"
                r.outcomes["equal"] += 1
                if m:
                    r.violation(key, f"{sources[i]} and {sources[j]} are written as one value: {m}", f"a, b = {sources[i]}, {sources[j]}\nprint(loads(dumps([a, b])), loads(dumps([b])))")
    r.sample(f"equal values {part}", 1)


def main(check):
    t = check.thorough
    check.phase("equal immutable values", [(merging_task, (p, 8)) for p in range(8)])
    leaves = [*gen.PRIMS, *gen.OBJECTS, *gen.PYTHON]
    check.phase("leaf in position", [(leaves_task, (c,)) for c in chunks(leaves, 32)])
    every = [*gen.CONFUSABLE, *gen.OBJECTS, *gen.PYTHON]
    pairings = list(gen.PAIRINGS) if t else ["[a, b]", "JSMap{a: b}"]
    check.phase(
        "pairs of leaves",
        [(pairs_task, (c, leaves if t else every, pairings)) for c in chunks(every, 48)],
    )
    confusable_pairs = list(itertools.product(gen.CONFUSABLE, repeat=2))
    check.phase(
        "confusable immutables",
        [(frozen_task, (c,)) for c in chunks(confusable_pairs, 16)]
        + [(triples_task, (c,)) for c in chunks(gen.CONFUSABLE, 16)]
        + [(boxed_task, ())],
    )
    check.phase("subclasses of primitives", [(own_primitives_task, ())])
    towers = ["int:1", "float:-0.0", "view:i16", "regexp", "obj:empty", "boxed:str", "date:ms"]
    parts = 32
    check.phase(
        "towers",
        [
            (nested_task, (d, towers if d < 3 else towers[1:4] if not t else towers, p, parts))
            for d in ((1, 2, 3) if not t else (1, 2, 3, 4))
            for p in range(parts)
        ],
    )
    sizes = [0, 1, 2, 3, 4, 5, 6, 15, 16, 31, 32, 33, 62, 63, 64, 65, 100, 126, 127, 128, 129, 255, 256, 257, 300, 1000]
    big = [8191, 8192, 16382, 16383, 16384, 16385]
    check.phase("sizes", [(sizes_task, ([s],)) for s in sizes + big + ([65535, 65536, 2**21 - 1, 2**21] if t else [])])
    check.phase(
        "variants of every kind",
        [(catalogue_task, (p, 32)) for p in range(32)] + [(catalogue_task, (p, 16, True)) for p in range(16)],
    )
    counts = [0, 1, 2, 127, 128, 129] + ([255, 256, 300, 16383, 16384] if t else [300])
    check.phase("element and name counts", [(two_counts_task, (counts, p, 32)) for p in range(32)])
    alphabet = ["a", "\x7f", "\x80", "ÿ", "Ā", "\ud7ff", "\ud800", "\udbff", "\udc00", "\udfff", "\uffff", "😀", "\0"]
    strings = sorted(set(all_strings(alphabet, 4 if t else 2)) | set(gen.LONG_STRINGS), key=lambda s: (len(s), s))
    check.phase("strings", [(strings_task, (c,)) for c in chunks(strings, 32)])
    ints = sorted({2**b + d for b in range(0, 140 if not t else 600) for d in (-2, -1, 0, 1, 2)})
    check.phase("ints", [(ints_task, (c,)) for c in chunks(ints, 16)])
    check.bounds = {
        "leaves": len(leaves), "positions": len(gen.POSITIONS) + len(gen.HASHED_POSITIONS),
        "tower depth": 4 if t else 3, "string length over alphabet": 4 if t else 2, "alphabet": len(alphabet),
    }  # fmt: skip
    check.assumptions = [
        "the expected value of a round trip is the specification graph projected by mc/graph.py to_py()",
        "the process time zone is UTC (time zones are C21's)",
    ]
