"""C23: work and memory are proportionate to the data."""

from __future__ import annotations

import itertools
import struct
from datetime import datetime, timedelta, timezone

from v8serialize import DecodeV8SerializeError, Decoder, Encoder, SerializationFeature, V8SerializeError, dumps, loads
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream
from v8serialize.encode import DefaultEncodeContext, WritableTagStream
from v8serialize.extensions import serialize_js_array_buffer_views_as_nodejs_host_object
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSDataView,
    JSError,
    JSErrorData,
    JSMap,
    JSObject,
    JSPrimitiveObject,
    JSRegExp,
    JSSet,
    JSUint8Array,
    JSUndefined,
)
from v8serialize import default_encode_steps
from v8serialize.jstypes.jsbuffers import JSArrayBufferView

from .. import work
from ..core import CaseTimeout, chunks, exc_summary, time_limit

ALL = ~SerializationFeature.MaxCompatibility
PRE = "import sys; sys.path.insert(0, '/verif')\nfrom mc.checks.c23 import *\n"

# What a small input may cost, with a wide margin: the most seen is about a
# tenth of it (see the notes in the evidence).
EVENTS, EVENTS_PER_BYTE = 12_000, 900
MEMORY, MEMORY_PER_BYTE = 400_000, 8_000
# Growing the data k times may make the work grow this much more than k times.
SLACK = 1.6
CPU_SLACK, CPU_MIN = 3.0, 1.0


# -- small inputs holding large numbers ---------------------------------------


def var(n):
    out = bytearray()
    while True:
        out.append(n & 0x7F | (0x80 if n > 0x7F else 0))
        n >>= 7
        if not n:
            return bytes(out)


def dbl(x):
    return struct.pack("<d", x)


N = None
TEMPLATES = [
    [b'"', N, b"ab"],
    [b"c", N, b"abcd"],
    [b"\0c", N, b"abcd"],
    [b"S", N, b"ab"],
    [b"Z", N, b"\x01\x02"],
    [b"z", N, b"\x01\x02"],
    [b's"', N, b"ab"],
    [b"I", N],
    [b"U", N],
    [b"A", N, b"0$", N, N],
    [b"A", N, b"--$", N, N],
    [b"A", N, b"A", N, b"$", N, N],
    [b"A", N, b"$", b"\0", N],
    [b"A", b"\1", b"0U", N, b"0$\1", N],
    [b"a", N, b"@", N, N],
    [b"a", N, b"U", N, b"0@", N, N],
    [b"a", N, b"U", N, b"0U", N, b"1@\2", N],
    [b"a", N, b'"\1x', b"0@", N, N],
    [b"oU", N, b"0{", N],
    [b"oU", N, b"0U", N, b"1{\2"],
    [b"oU", N, b"0U", N, b"1U", N, b"1{\3"],
    [b"oI", N, b"0{", N],
    [b'o"\x0a4294967294', b"0{", N],
    [b";01:", N],
    [b"'0,", N],
    [b"^", N],
    [b"A\2o{\0^", N, b"$", N, N],
    [b"B", N, b"ab"],
    [b"~", N, N, b"abcd"],
    [b"u", N],
    [b"t", N],
    [b"B\4abcdVB", N, N, N],
    [b"~\4", N, b"abcdVB", N, N],
    [b"~\4\x08abcdVF", N, N, N],
    [b"u\0VB", N, N, b"\0"],
    [b"t\0V?", N, N, b"\0"],
    [b"B\4abcdV", N, b"\0\4\0"],
    [b"r", N, b"."],
    [b"r", N, N, b"."],
    [b'rm"', N, b"a."],
    [b'rs"', N, b"a."],
    [b'R"\1a', N],
    [b'R"', N, b"a", N],
    [b"\\", N, N, b"abcd"],
    [b"p", N],
    [b"w", N],
    [b"m", N],
]
DOUBLES = [
    v * s
    for s in (1, -1)
    for v in (0.0, 0.5, 1.0, 4294967294.0, 4294967295.0, 2.0**53, 1e21, 1e300, float("inf"), float("nan"), 5e-324, 8.64e15, 8.65e15)
]
LARGE = [0, 1, 2, 3, 4, 127, 128, 2**14, 2**21, 2**28, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1, 2**32, 2**35, 2**63, 2**64]
FEW = [0, 1, 2, 4, 2**21, 2**31, 2**32 - 2, 2**32 - 1, 2**32, 2**64]
NAMED_OPTIONS = {
    "": {},
    "dicts": dict(js_object_type=dict, js_array_type=dict, jsmap_type=dict, jsset_type=set),
    "data errors": dict(js_error_builder=JSErrorData.builder, default_timezone=timezone.utc),
}


def small_inputs(thorough, all_pairs=True):
    for t in TEMPLATES:
        holes = t.count(N)
        values = LARGE if holes < (3 if all_pairs else 2) or thorough else FEW
        for ns in itertools.product(values, repeat=holes):
            it = iter(ns)
            yield b"".join(var(next(it)) if p is N else p for p in t)
    for x in DOUBLES:
        for a in (b"D", b"N", b"n"):
            yield a + dbl(x)
        yield b"oN" + dbl(x) + b"0{\1"
        for y in DOUBLES:
            yield b"oN" + dbl(x) + b"0N" + dbl(y) + b"1{\2"
            yield b"a\xff\xff\xff\xff\x0fN" + dbl(x) + b"0N" + dbl(y) + b"1@\2\xff\xff\xff\xff\x0f"
        yield b";N" + dbl(x) + b"0:\2"
        yield b"A\0N" + dbl(x) + b"0$\1\0"


def exercise(data, options, out):
    """Decode, then do what shouldn't depend on the numbers stored in the data."""
    try:
        v = loads(data, **options)
        w = loads(data, **options)
    except DecodeV8SerializeError as e:
        str(e)
        out.append("rejected")
        return
    out.append(type(v).__name__)
    if "js_object_type" not in options:  # Python's own can't be compared in cycles
        repr(v)
        v == w  # noqa: B015
    if isinstance(v, JSObject):
        len(v), list(v.items()), len(v.array), v.array.elements_used
        list(v.array.element_indexes()), dict(v.properties)
        for k in list(v):
            v[k] = v[k]
            del v[k]
    elif isinstance(v, JSArrayBufferView):
        v.byte_offset, v.is_in_range, v.byte_length
    try:
        dumps(w, features=ALL)
    except V8SerializeError:
        pass


def small_task(r, datas, option_name):
    options = NAMED_OPTIONS[option_name]
    for body in datas:
        data = b"\xff\x0f" + body
        key = f"{option_name or 'default'} {data.hex()}"
        snippet = f"{PRE}print(small({data!r}, {option_name!r}))"
        r.states += 1
        r.traces += 1
        events, memory, how, what = measure_small(data, options)
        r.transitions += 1
        for name, got, bound in (
            ("events", events, EVENTS + EVENTS_PER_BYTE * len(data)),
            ("memory", memory, MEMORY + MEMORY_PER_BYTE * len(data)),
        ):
            if got > bound:
                r.violation(
                    f"small:{name}:{key}",
                    f"{len(data)} bytes took {got} {name} (bound {bound}) to decode and use",
                    snippet,
                )
            share = round(10 * got / bound)
            r.outcomes[f"{name} used {share}/10 of the bound"] += 1
        if how == "exc":
            r.violation(f"small:exception:{key}", f"raised {exc_summary(what)}", snippet)
        elif how == "too much":
            r.outcomes["too much"] += 1
        else:
            r.outcomes[what] += 1
    r.sample(datas[0].hex() if datas else "", 1)


def measure_small(data, options):
    out = []
    limit = 4 * (EVENTS + EVENTS_PER_BYTE * len(data))
    try:
        with time_limit(60):
            events, how, what = work.count(lambda: exercise(data, options, out), limit)
            if how == "ok":
                memory, how, what = work.peak(lambda: exercise(data, options, out))
            else:
                memory = 0
    except CaseTimeout:
        return 10**12, 10**12, "too much", None
    return events, memory, how, out[0] if how == "ok" and out else what


def small(data, option_name):
    return measure_small(data, NAMED_OPTIONS[option_name])


# -- families of growing data --------------------------------------------------


def permuted(n, order):
    if order == "asc":
        return range(n)
    if order == "desc":
        return range(n - 1, -1, -1)
    if order == "inward":  # 0, n-1, 1, n-2, ...
        return [i // 2 if i % 2 == 0 else n - 1 - i // 2 for i in range(n)]
    if order == "strided":  # far apart from each other
        return [i * 769 % n for i in range(n)] if n % 769 else range(n)
    if order == "evens, odds":
        return [*range(0, n, 2), *range(1, n, 2)]
    raise ValueError(order)


ORDERS = ("asc", "desc", "inward", "strided", "evens, odds")
STRIDES = (1, 2, 4, 5, 64, 100_003)
MORE_STRIDES = (1, 2, 3, 4, 5, 6, 8, 16, 64, 300, 1000, 100_003)


def keyed(cls, order, stride, start):
    def make(n):
        o = cls()
        for i in permuted(n, order):
            o[start + i * stride] = i
        return o

    return make


def mixed_keys(cls, order):
    def make(n):
        o = cls()
        for i in permuted(n, order):
            o[i * 50 if i % 2 else f"k{i}"] = i
        return o

    return make


def exception_chain(kinds):
    def make(n):
        e = None
        for i in range(n):
            new = ValueError(str(i))
            if kinds[i % len(kinds)] == "cause":
                new.__cause__ = e
            elif kinds[i % len(kinds)] == "context":
                new.__context__ = e
            else:
                new.__cause__ = e
                new.__context__ = KeyError(i)
            e = new
        return e

    return make


def views(cls, shared):
    def make(n):
        b = JSArrayBuffer(bytes(n))
        return [cls(b if shared else JSArrayBuffer(bytes(8)), item_offset=i % 5, item_length=2) for i in range(n)]

    return make


def nested(wrap):
    def make(n):
        v = 1
        for i in range(n // 128):  # the interpreter's recursion limit is near
            v = wrap(v, i)
        return v

    return make


VALUES = {
    "ints": lambda n: list(range(n)),
    "negative ints": lambda n: [-i for i in range(n)],
    "large ints": lambda n: [2**60 + i for i in range(n)],
    "floats": lambda n: [i + 0.5 for i in range(n)],
    "equal floats": lambda n: [0.5] * n,
    "short strs": lambda n: [f"s{i}" for i in range(n)],
    "wide strs": lambda n: [f"\u4e00{i}" for i in range(n)],
    "surrogates": lambda n: [f"\ud800{i}" for i in range(n)],
    "long str": lambda n: "x" * (16 * n),
    "long latin1 str": lambda n: "\xe9" * (16 * n),
    "long wide str": lambda n: "\u4e00" * (16 * n),
    "long surrogates": lambda n: "\ud800" * (16 * n),
    "bytes": lambda n: bytes(16 * n),
    "bytearray": lambda n: bytearray(16 * n),
    "many bytes": lambda n: [b"%d" % i for i in range(n)],
    "equal bytes": lambda n: [bytes([1, 2]) for i in range(n)],
    "bigint": lambda n: 1 << (16 * n),
    "constants": lambda n: [None, True, False, JSUndefined] * (n // 4),
    "one object": lambda n: [JSObject(a=1)] * n,
    "objects": lambda n: [JSObject(a=i) for i in range(n)],
    "equal objects": lambda n: [JSObject(a=1) for i in range(n)],
    "tuples": lambda n: [(i, i + 1) for i in range(n)],
    "equal tuples": lambda n: [(1, 2.0, "x") for i in range(n)],
    "frozensets": lambda n: [frozenset([i, "a"]) for i in range(n)],
    "dict": lambda n: {i: i for i in range(n)},
    "dict of strs": lambda n: {f"k{i}": i for i in range(n)},
    "JSMap of objects": lambda n: JSMap([(JSObject(), i) for i in range(n)]),
    "JSMap of floats": lambda n: JSMap([(i + 0.5, i) for i in range(n)]),
    "JSSet of lists": lambda n: JSSet([[] for i in range(n)]),
    "JSSet of strs": lambda n: JSSet(map(str, range(n))),
    "set": lambda n: set(range(n)),
    "names": lambda n: JSObject({f"k{i}": i for i in range(n)}),
    "array names": lambda n: JSArray({f"k{i}": i for i in range(n)}),
    "dense with holes": lambda n: JSArray({i: 1 for i in range(n) if i % 3}),
    "object list of sparse": lambda n: [JSObject({1000: i}) for i in range(n)],
    "regexps": lambda n: [JSRegExp(f"a{i}") for i in range(n)],
    "equal regexps": lambda n: [JSRegExp("a") for i in range(n)],
    "dates": lambda n: [datetime(2000, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=i) for i in range(n)],
    "boxed": lambda n: [JSPrimitiveObject(str(i)) for i in range(n)],
    "errors": lambda n: [JSErrorData(str(i), stack="at x\n" * 3) for i in range(n)],
    "exceptions": lambda n: [ValueError(i) for i in range(n)],
    "long error": lambda n: JSError("m" * n, stack="    at x\n" * n),
    "exception notes": lambda n: _noted(n),
    "exception group": lambda n: ExceptionGroup("g", [ValueError(i) for i in range(n)]),
    "chain of contexts": lambda n: exception_chain(["context"])(n // 16),
    "buffers": lambda n: [JSArrayBuffer(bytes(2)) for i in range(n)],
    "resizable": lambda n: [JSArrayBuffer(bytes(2), max_byte_length=2**32 - 1, resizable=True) for i in range(n)],
    "shared view": views(JSUint8Array, True),
    "own views": views(JSUint8Array, False),
    "shared data views": views(JSDataView, True),
    "nested lists": nested(lambda v, i: [v, i]),
    "nested objects": nested(lambda v, i: JSObject(v=v)),
    "nested sparse": nested(lambda v, i: JSObject({900: v})),
    "nested maps": nested(lambda v, i: JSMap([(v, i)])),
    "nested sets": nested(lambda v, i: JSSet([v])),
    "nested tuples": nested(lambda v, i: (v, i)),
    "nested map values": nested(lambda v, i: JSMap([(i, v)])),
    "nested boxed maps": nested(lambda v, i: JSMap([(JSObject(k=v), i)])),
    "diamond lists": nested(lambda v, i: [v, v]),
    "diamond objects": nested(lambda v, i: JSObject(a=v, b=v, c=v)),
    "diamond sparse": nested(lambda v, i: JSArray({900: v, 1800: v})),
    "diamond maps": nested(lambda v, i: JSMap([(0, v), (1, v)])),
    "diamond errors": nested(lambda v, i: JSObject(e=JSErrorData(str(i), cause=v), f=v)),
    "diamond keys": nested(lambda v, i: JSMap([(v, v)])),
    "nested errors": nested(lambda v, i: JSErrorData(str(i), cause=v)),
}


def _noted(n):
    e = ValueError("x")
    for i in range(n):
        e.add_note(f"note {i}")
    return e


for _cls in (JSObject, JSArray):
    for _order in ORDERS:
        for _stride in MORE_STRIDES:
            for _start in (0, 5000):
                VALUES[f"{_cls.__name__} {_order} x{_stride} from {_start}"] = keyed(_cls, _order, _stride, _start)
        VALUES[f"{_cls.__name__} mixed {_order}"] = mixed_keys(_cls, _order)


def encoded(steps, **kw):
    return lambda v: Encoder(encode_steps=steps, **kw).encode(v)


NODE_STEPS = [serialize_js_array_buffer_views_as_nodejs_host_object, *default_encode_steps]
ENCODINGS = {
    "default": encoded(default_encode_steps),
    "all features": encoded(default_encode_steps, features=ALL),
    "node views": encoded(NODE_STEPS),
    "no references": encoded(default_encode_steps[1:], features=ALL),
}

# streams of n parts that dumps() doesn't write
STREAMS = {
    "padding": lambda n: b"\0" * (16 * n) + b"0",
    "padding after a buffer": lambda n: b"A\2B\0" + b"\0" * (16 * n) + b"0$\0\2",
    "padding before views": lambda n: b"A" + var(n) + b"B\0\0\0VB\0\0\0" * n + b"$\0" + var(n),
    "padding between values": lambda n: b"A" + var(n) + b"\0\0\0\0000" * n + b"$\0" + var(n),
    "buffers then paddings": lambda n: b"A" + var(n) + b"B\0\0\0\0" * n + b"$\0" + var(n),
    "overlong int": lambda n: b"U" + b"\x80" * (64 * n) + b"\0",
    "overlong version": lambda n: b"\xff" + b"\x80" * (64 * n) + b"\x0f0",
    "overlong count": lambda n: b"o{" + b"\x80" * (64 * n) + b"\0",
    "overlong length": lambda n: b'"' + b"\x80" * (64 * n) + b"\0",
    "overlong id": lambda n: b"A\1^" + b"\x80" * (64 * n) + b"\0$\0\1",
    "huge length": lambda n: b'"' + b"\xff" * (64 * n),
    "huge length that ends": lambda n: b'"' + b"\xff" * (64 * n) + b"\1",
    "huge count": lambda n: b"o{" + b"\xff" * (64 * n) + b"\1",
    "huge bigint length": lambda n: b"Z" + b"\xff" * (64 * n) + b"\1",
    "huge error tag": lambda n: b"r" + b"\xff" * (64 * n) + b"\1",
    "huge regexp flags": lambda n: b'R"\1a' + b"\xff" * (64 * n) + b"\1",
    "huge view tag": lambda n: b"B\0V" + b"\xff" * (64 * n) + b"\1",
    "huge dense length": lambda n: b"A" + b"\xff" * (64 * n) + b"\1",
    "references": lambda n: b"A" + var(n) + b"o{\0" + b"^\1" * (n - 1) + b"$\0" + var(n),
    "references to a buffer": lambda n: b"A" + var(n) + b"B\0" + b"^\1" * (n - 1) + b"$\0" + var(n),
    "views of a reference": lambda n: b"A" + var(n) + b"B" + var(n) + bytes(n) + b"^\1VB\0\1\0" * (n - 1) + b"$\0" + var(n),
    "host views": lambda n: b"A" + var(n) + b"\\\1\2ab" * n + b"$\0" + var(n),
    "same property": lambda n: b"o" + b"U\xa0\x8d\x060" * n + b"{" + var(n),
    "sparse holes": lambda n: b"a\xff\xff\xff\xff\x0f" + b"".join(b"U" + var(i * 4000) + b"-" for i in range(n)) + b"@" + var(n) + b"\xff\xff\xff\xff\x0f",
    "object holes": lambda n: b"o" + b"".join(b"U" + var(i * 4000) + b"-" for i in range(n)) + b"{" + var(n),
    "object holes descending": lambda n: b"o" + b"".join(b"U" + var((n - i) * 4000) + b"-" for i in range(n)) + b"{" + var(n),
    "set and holes": lambda n: b"o" + b"".join(b"U" + var(i * 4000) + b"0" + b"U" + var(i * 4000) + b"-" for i in range(n)) + b"{" + var(2 * n),
    "dense holes": lambda n: b"A" + var(n) + b"-" * n + b"$\0" + var(n),
    "dense holes then names": lambda n: b"A" + var(n) + b"-" * n + b"U" + var(100 * n) + b"0$\1" + var(n),
    "old errors": lambda n: b"A" + var(n) + b'rm"\1bc0s"\1a.' * n + b"$\0" + var(n),
    "truncated": lambda n: b"A" + var(n + 5) + b"0" * n,
    "open objects": lambda n: b'o"\1a' * (n // 128),
    "open arrays": lambda n: b"A\1" * (n // 128),
    "open maps": lambda n: b";" * (n // 128),
    "open errors": lambda n: b"rc" * (n // 128),
}


def decode(data):
    try:
        return loads(data)
    except DecodeV8SerializeError as e:
        str(e)
        return None


def value_actions(name):
    """(action, prepare: n -> argument, act: argument -> None)"""
    make = VALUES[name]
    yield "build", lambda n: n, make
    for ename, enc in ENCODINGS.items():
        if ename == "node views" and "view" not in name or ename == "no references" and ("shared" in name or "diamond" in name):
            continue
        if ename != "default" and " from " in name and not name.endswith(" x1 from 0"):
            continue  # keys don't matter to these
        yield f"encode {ename}", make, enc
        yield f"decode {ename}", (lambda n, enc=enc: bytes(enc(make(n)))), loads
    if name.startswith("diamond"):
        return  # comparing and formatting visit every path, as Python's own lists do
    yield "compare", lambda n: (loads(dumps(make(n))), loads(dumps(make(n)))), lambda p: p[0] == p[1]
    yield "iterate", lambda n: loads(dumps(make(n))), walk
    if name != "bigint":  # Python refuses
        yield "repr", lambda n: loads(dumps(make(n))), repr


def walk(v):
    if isinstance(v, (JSObject, JSMap)):
        for k in v:
            v[k]  # noqa: B018
        len(v), list(v.items()), list(v.values())
    elif isinstance(v, JSSet):
        for x in v:
            x in v  # noqa: B015


def stream_actions(name):
    def prepare(n):
        body = STREAMS[name](n)
        return body if name == "overlong version" else b"\xff\x0f" + body

    yield "decode", prepare, decode


def actions(kind, name):
    if kind == "cycle":
        yield "run", lambda n: n, lambda n: run_cycle(name, n)
        return
    yield from value_actions(name) if kind == "value" else stream_actions(name)


def act(kind, name, action, n):
    for a, prepare, fn in actions(kind, name):
        if a == action:
            arg = prepare(n)
            return lambda: fn(arg)
    raise KeyError(action)


BASES = {"events": 300, "memory": 20_000}
UNITS = {"events": "calls and branches", "memory": "bytes of memory", "cpu": "s of processor time"}


def grew(kind, name, action, sizes, measure, unlimited=False):
    """(work at the smaller size, at the larger size, whether that's too much more)"""
    small_n, large_n = sizes
    factor = large_n / small_n
    a = measured(kind, name, action, small_n, measure)
    limit = None
    if measure == "events" and not unlimited:
        limit = int((a + 2000) * factor * SLACK * 2)
    b = measured(kind, name, action, large_n, measure, limit)
    if measure == "cpu":
        return a, b, b > CPU_MIN and b > a * factor * CPU_SLACK
    return a, b, b > (a + BASES[measure]) * factor * SLACK


def compare_growth(r, kind, name, action, sizes, measure):
    """The work for a larger size against the work for a smaller size."""
    key = f"grows:{measure}:{kind}:{name}:{action}"
    small_n, large_n = sizes
    factor = large_n / small_n
    again = (large_n, large_n * 4)
    snippet = f"{PRE}print([measured({kind!r}, {name!r}, {action!r}, n, {measure!r}) for n in {(*sizes, again[1])}])"
    r.transitions += 2
    try:
        with time_limit(40):
            a, b, bad = grew(kind, name, action, sizes, measure)
            if bad:
                # a step (a change of representation, a table that doubles)
                # happens once, but too steep a growth goes on
                c, d, bad = grew(kind, name, action, again if measure != "cpu" else sizes, measure)
                r.transitions += 2
                r.outcomes[f"{measure} a step" if not bad else f"{measure} not in proportion"] += 1
    except CaseTimeout:
        r.violation(key, f"did not terminate in time for sizes {small_n} and {large_n}", snippet)
        return
    except V8SerializeError as e:
        r.violation(key, f"raised {exc_summary(e)}", snippet)
        return
    if bad:
        r.violation(
            key,
            f"{action} of {name} took {a} {UNITS[measure]} for {small_n} parts but {b} for {large_n}",
            snippet,
        )
    ratio = b / a / factor if a else 0
    r.outcomes[f"{measure} per part grew x{ratio:.1f}"] += 1


def measured(kind, name, action, n, measure, limit=None):
    fn = act(kind, name, action, n)
    if measure == "events":
        events, how, what = work.count(fn, limit)
        if how == "exc":
            raise what
        return events
    if measure == "memory":
        amount, how, what = work.peak(fn)
        if how == "exc":
            raise what
        return amount
    return work.cpu(fn)


def family_task(r, items, sizes):
    import gc

    gc.collect()
    for kind, name in items:
        if len(r.violations) >= 3:
            r.notes["stopped early"] = "after 3 violations"
            return
        r.states += 1
        for action, *_ in actions(kind, name):
            r.traces += 1
            for measure, pair in sizes.items():
                if measure == "memory" and "build" != action and " default" not in action and not THOROUGH:
                    continue
                compare_growth(r, kind, name, action, pair, measure)
        r.sample(f"{kind} {name}", 2)


# -- cycles of operations ------------------------------------------------------

OBJECT_OPS = {
    "append key": "o[i] = i",
    "sparse key": "o[i * 1000] = i",
    "from the end": "o[(n - i) * 1000] = i",
    "str key": "o[str(i * 7)] = i",
    "name": "o[f'k{i}'] = i",
    "same": "o[123456] = i",
    "hole": "o[i * 1000 + 500] = H",
    "get": "o.get(i * 1000); o.get(0)",
    "in": "(i * 500) in o; 'a' in o",
    "len": "len(o); len(o.array); o.array.elements_used",
    "del": "o.pop((i - 1) * 1000, None)",
    "del old": "o.pop(i // 2 * 1000, None)",
    "array append": "o.array.append(i)",
    "array get": "o.array[-1] if len(o.array) else None; o.array.elements().get(i * 1000)",
    "array set": "len(o.array) and o.array.__setitem__(len(o.array) // 2, i)",
    "setdefault": "o.setdefault(i * 3000, 0)",
    "hole at end": "len(o.array) and o.array.__setitem__(-1, H)",
    "last index": "o.array.append(H)",
}
MAP_OPS = {
    "set": "o[i] = i",
    "set object": "o[L[i]] = i",
    "set float": "o[i + 0.5] = i",
    "same": "o['a'] = i",
    "get": "o.get(i - 1); o.get(L[i])",
    "in": "i in o; L[0] in o",
    "len": "len(o)",
    "pop": "o.pop(i - 1, None)",
    "setdefault": "o.setdefault(i // 2, 0)",
    "update": "o.update([(i * 3, 1)])",
}
SET_OPS = {
    "add": "o.add(i)",
    "add object": "o.add(L[i])",
    "same": "o.add('a')",
    "in": "i in o; L[0] in o",
    "len": "len(o)",
    "discard": "o.discard(i - 1)",
    "ior": "o |= [i * 3]",
    "isub": "o -= {i // 2}",
}
CYCLES = {"JSObject": (JSObject, OBJECT_OPS), "JSArray": (JSArray, OBJECT_OPS), "JSMap": (JSMap, MAP_OPS), "JSSet": (JSSet, SET_OPS)}
_compiled: dict = {}
THOROUGH = False


def run_cycle(name, n):
    cls, *ops = name.split("|")
    make, table = CYCLES[cls]
    fn = _compiled.get(name)
    if fn is None:
        body = "\n        ".join(table[op] for op in ops)
        src = f"def cycle(o, n, H, L):\n    for i in range(n):\n        {body}\n"
        scope: dict = {}
        exec(compile(src, name, "exec"), scope)
        fn = _compiled[name] = scope["cycle"]
    from v8serialize.jstypes import JSHole

    fn(make(), n, JSHole, [[] for _ in range(n)])


def cycles(length, classes=CYCLES):
    for cls in classes:
        for ops in itertools.product(CYCLES[cls][1], repeat=length):
            if length > 1 and len(set(ops)) == 1:
                continue  # the same as the op alone
            yield "cycle", "|".join([cls, *ops])


def main(check):
    global THOROUGH
    THOROUGH = t = check.thorough
    tasks = []
    for o in NAMED_OPTIONS:
        small_datas = list(dict.fromkeys(small_inputs(t, not o)))
        tasks += [(small_task, (c, o)) for c in chunks(small_datas, 32)]
    check.phase("small inputs holding large numbers", tasks)

    exact = {"events": (256, 1536), "memory": (256, 1024)} if not t else {"events": (256, 8192), "memory": (1024, 8192)}
    items = [("value", n) for n in VALUES if t or quick_family(n)] + [("stream", n) for n in STREAMS]
    check.phase("growing values and streams", [(family_task, (c, exact)) for c in chunks(items, 64)])

    names = [n for k, n in items if k == "value"]
    check.phase("bytes copied", [(copies_task, (c, (128, 512) if not t else (256, 4096))) for c in chunks(names, 32)])

    if check.result.violations:
        check.exhaustive = False
        return  # the rest would only take long
    timed = [i for i in items if t or " from " not in i[1] or any(x in i[1] for x in (" x1 from 0", " x64 from 0", " x4 from 0"))]
    check.phase(
        "growing values and streams, processor time",
        [(family_task, (c, {"cpu": (2048, 16384)})) for c in chunks([i for i in timed if not deep(i[1])], 64)],
    )

    hows = ("set", "update", "items", "names", "moving")
    check.phase("few keys, far apart", [(far_task, (c, hows)) for c in chunks(list(far_cases(t)), 64)])

    check.phase("calls that are over", [(retained_task, (c,)) for c in chunks([n for n in VALUES if t or " from " not in n], 64)])

    one = [*cycles(1), *cycles(2)]
    check.phase("cycles of operations", [(family_task, (c, {"events": (256, 2048)})) for c in chunks(one, 64)])
    three = list(cycles(3)) if t else list(cycles(3, ("JSSet", "JSMap"))) + [c for c in cycles(3, ("JSObject",)) if "sparse key" in c[1]]
    check.phase("cycles of three operations", [(family_task, (c, {"events": (128, 1024)})) for c in chunks(three, 64)])
    check.phase(
        "cycles of operations, processor time",
        [(family_task, (c, {"cpu": (2048, 16384)})) for c in chunks([*cycles(1), *(cycles(2, ("JSObject",)) if t else ())], 64)],
    )
    check.bounds.update(
        templates=len(TEMPLATES),
        numbers=len(LARGE),
        families=len(items),
        sizes={k: list(v) for k, v in exact.items()},
        cycle_length=3,
    )
    check.assumptions += [
        "work is counted in calls, branches and jumps Python executes; work within one C call only through processor time (a threefold margin)",
        "iterating, shifting and whole-array list operations (insert, pop, reverse, iteration over holes) are not part of the cycles, they may take time in proportion to the array",
    ]


class Copies:
    """Counts the bytes that are copied to other objects or moved."""

    def __init__(self):
        self.n = 0


def counting(base):
    class Counting(base):
        copies = Copies()

        def _made(self, data):
            self.copies.n += len(data)
            out = type(self)(data) if isinstance(data, base) else data
            return out

        def __add__(self, other):
            return self._made(base.__add__(self, other))

        def __radd__(self, other):
            return self._made(base(other) + base(self))

        def __mul__(self, n):
            return self._made(base.__mul__(self, n))

        def __getitem__(self, i):
            out = base.__getitem__(self, i)
            if isinstance(i, slice):
                self.copies.n += len(out)
            return out

        def __bytes__(self):
            self.copies.n += len(self)
            return base.__getitem__(self, slice(None)) if base is bytes else bytes(memoryview(self))

        def __reduce_ex__(self, protocol):
            return base, (bytes(memoryview(self)),)

    return Counting


class Reading(counting(bytes)):
    pass


class Writing(counting(bytearray)):
    def __setitem__(self, i, value):
        if isinstance(i, slice):
            start, stop, _ = i.indices(len(self))
            self.copies.n += len(value) + (len(self) - stop if stop - start != len(value) else 0)
        bytearray.__setitem__(self, i, value)

    def __delitem__(self, i):
        self.copies.n += len(self)
        bytearray.__delitem__(self, i)

    def insert(self, i, value):
        self.copies.n += len(self) - i
        bytearray.insert(self, i, value)

    def copy(self):
        return self._made(bytearray.copy(self))


def copied_by(name, action, n):
    """How many of its own bytes a stream copies while it's written or read."""
    value = VALUES[name](n)
    if action == "write":
        stream = WritableTagStream(data=Writing(), features=ALL)
        Writing.copies = copies = Copies()
        DefaultEncodeContext(stream=stream).encode_object(value)
        return copies.n
    stream = ReadableTagStream(Reading(Encoder(features=ALL).encode(value)))
    Reading.copies = copies = Copies()
    stream.read_header()
    DefaultDecodeContext(stream=stream).decode_object()
    return copies.n


def copies_task(r, names, sizes):
    small_n, large_n = sizes
    factor = large_n / small_n
    for name in names:
        r.states += 1
        for action in ("write", "read"):
            r.transitions += 2
            r.traces += 1
            try:
                a, b = (copied_by(name, action, n) for n in sizes)
                bad = b > (a + 100) * factor * SLACK
                if bad:
                    c = copied_by(name, action, large_n * 4)
                    bad = c > b * 4 * SLACK
            except V8SerializeError as e:
                r.violation(f"copies:{name}:{action}", f"raised {exc_summary(e)}", "")
                continue
            r.outcomes[f"{action}: {'no' if not b else 'some'} bytes copied"] += 1
            if bad:
                r.violation(
                    f"copies:{name}:{action}",
                    f"{action} of {name} copied {a} bytes of the stream for {small_n} parts but {b} for {large_n}",
                    f"{PRE}print([copied_by({name!r}, {action!r}, n) for n in {sizes}])",
                )


def quick_family(name):
    if " from " not in name:
        return True
    stride, start = name.split(" x")[1].split(" from ")
    return int(stride) in (STRIDES if start == "0" else (1, 64))


# -- few keys, far apart -------------------------------------------------------------

FAR = [0, 1, 3, 5, 14, 15, 16, 20, 60, 63, 64, 250, 1000, 4000, 16_000, 64_000, 250_000, 1_000_000, 4_000_000]
FEW_BASE, FEW_EACH = 30_000, 1_000


def geometric():
    """Keys that each are a fixed factor further than the one before."""
    for start in (*range(1, 20), 100, 1000):
        for num, den in ((3, 2), (5, 3), (2, 1), (5, 2), (3, 1), (7, 2), (4, 1), (9, 2), (5, 1), (8, 1)):
            keys, x = [], start
            while x < 3_000_000:
                keys.append(x)
                x = max(x + 1, x * num // den)
            yield keys


def put_far(cls, how, keys):
    o = cls()
    if how == "update":
        o.update((k, 1) for k in keys)
    elif how == "items":
        o = cls([(k, 1) for k in keys])
    elif how == "names":
        for k in keys:
            o[str(k)] = k
    elif how == "moving":  # each replaces the one before
        for i, k in enumerate(keys):
            o[k] = 1
            if i:
                o.pop(keys[i - 1], None)
    else:
        for k in keys:
            o[k] = 1
    return o


def far_task(r, cases, hows):
    for keys in cases:
        for cls in (JSObject, JSArray):
            for how in hows:
                r.states += 1
                r.transitions += len(keys)
                made = []
                amount, kind, what = work.peak(lambda: made.append(put_far(cls, how, keys)))  # noqa: B023
                key = f"far:{cls.__name__}:{how}:{keys}"
                code = f"{PRE}print(work.peak(lambda: put_far({cls.__name__}, {how!r}, {keys})))"
                if kind == "exc":
                    r.violation(key, f"raised {exc_summary(what)}", code)
                    continue
                bound = FEW_BASE + FEW_EACH * len(keys)
                if amount > bound:
                    r.violation(key, f"{len(keys)} elements took {amount} bytes of memory", code)
                r.outcomes[f"far keys used {round(10 * amount / bound)}/10 of the bound"] += 1
                r.traces += 1
                made.clear()


def far_cases(t):
    n = 5 if t else 4
    yield from geometric()
    for k in range(1, n + 1):
        yield from map(list, itertools.combinations(FAR, k))
    for k in range(1, 4 if t else 3):
        yield from map(list, itertools.product(FAR, repeat=k))


# -- calls that are over -------------------------------------------------------------

CALLS = 40


def repeated(name):
    """(what, function): calls that make everything they use themselves."""
    make = VALUES[name]
    encoder, decoder = Encoder(features=ALL), Decoder()
    data = bytes(encoder.encode(make(SIZE)))

    def refused(fn):
        try:
            fn()
        except V8SerializeError:
            pass

    yield "build", lambda: make(SIZE)
    yield "dumps", lambda: dumps(make(SIZE))
    yield "Encoder", lambda: encoder.encode(make(SIZE))
    yield "refused", lambda: refused(lambda: encoder.encode([make(SIZE), object()]))
    yield "loads", lambda: loads(data)
    yield "Decoder", lambda: decoder.decodes(data)
    yield "copied data", lambda: decoder.decodes(bytearray(data))
    yield "truncated", lambda: refused(lambda: decoder.decodes(data[:-1] + b"?"))
    if name.startswith("diamond"):
        return
    yield "repr", lambda: repr(loads(data))
    yield "compare", lambda: loads(data) == loads(data)
    yield "compare different", lambda: loads(data) == JSArray([loads(data)])


SIZE = 256


def retained(call, n):
    """How many more blocks of memory are in use after n calls."""
    import gc
    import sys

    gc.collect()
    before = sys.getallocatedblocks()
    for _ in range(n):
        call()
    gc.collect()
    return sys.getallocatedblocks() - before


def retained_task(r, names):
    for name in names:
        for what, call in repeated(name):
            r.states += 1
            key = f"kept:{name}:{what}"
            code = f"{PRE}call = dict(repeated({name!r}))[{what!r}]\nretained(call, 10)\nprint(retained(call, {CALLS}), retained(call, {4 * CALLS}))"
            try:
                with time_limit(120):
                    retained(call, 3)  # caches of a fixed size and free lists fill up
                    for n in (CALLS, CALLS, 2 * CALLS, 4 * CALLS, 10 * CALLS):
                        r.transitions += n
                        kept = retained(call, n)
                        if kept < 0.9 * n:
                            break
                        r.outcomes["looked at again"] += 1
                    else:
                        r.violation(key, f"{n} more calls keep {kept} blocks of memory", code)
                        continue
            except CaseTimeout:
                r.violation(key, "did not terminate in time", code)
                continue
            r.outcomes["nothing kept"] += 1
            r.traces += 1


def deep(name):
    return name.startswith(("nested", "diamond", "open")) or "chain" in name
