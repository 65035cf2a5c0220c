"""C03: everything dumps() produces is readable by V8 with the same meaning."""

from __future__ import annotations

import itertools

from v8serialize import SerializationFeature, dumps
from v8serialize.encode import EncodeV8SerializeError
from v8serialize.jstypes import JSArray

from .. import gen, nodejs, wire
from ..core import CaseTimeout, chunks, exc_summary, time_limit
from ..graph import PRELUDE, build, match, py_source
from .c01 import all_strings, frozen_cases

NODE_FEATURES = (
    SerializationFeature.RegExpUnicodeSets
    | SerializationFeature.ResizableArrayBuffers
    | SerializationFeature.CircularErrorCause
)


def to_v8(r, cases, options=None, node=True, expect=None):
    """dumps() each graph; the wire model and V8 must read what it stands for."""
    options = options or {}
    cases = list(cases)
    for i in range(0, len(cases), 400):
        part = cases[i : i + 400]
        encoded = []
        for key, g in part:
            r.states += 1
            code = f"{PRELUDE}{py_source(g)}\nprint(dumps(v).hex())"
            try:
                with time_limit(20):
                    v = build(g)
                    data = dumps(v, **options)
            except CaseTimeout:
                r.violation(key, "did not terminate", code)
                continue
            except Exception as e:
                r.violation(key, f"raised {exc_summary(e)}", code)
                continue
            r.transitions += 1
            encoded.append((key, g, v, data, code))
            if not well_formed(r, key, g, data, code, expect):
                encoded.pop()
        if not node:
            continue
        replies = nodejs.batch([{"op": "deser", "hex": e[3].hex()} for e in encoded])
        for (key, g, _v, data, code), reply in zip(encoded, replies):
            if "err" in reply:
                r.violation(key, f"V8 refuses the stream: {reply['err']}\n{data.hex()}", code)
                continue
            want = g.to_js() if expect is None else expect(g)[1]
            m = match(want, nodejs.table(reply["ok"]), g.frozen())
            if m:
                r.violation(key, f"V8 reads a different value {m}\n{data.hex()}", code)
                continue
            r.traces += 1
            r.outcomes[f"{data[2:3]!r} {len(data) // 8}"] += 1
        if part:
            r.sample(part[0][0], 2)


def well_formed(r, key, g, data, code, expect):
    """The wire model reads the stream to its end, as the value."""
    try:
        got, end, _ = wire.parse(data)
    except wire.Free:
        return True  # V8 decides
    except (wire.Reject, wire.Incomplete) as e:
        r.violation(key, f"not a well-formed stream: {type(e).__name__} {e}\n{data.hex()}", code)
        return False
    if end != len(data):
        r.violation(key, f"{len(data) - end} bytes after the value\n{data.hex()}", code)
        return False
    if data[1] != 15:
        r.violation(key, f"version {data[1]}", code)
        return False
    m = match(g.to_js() if expect is None else expect(g)[0], got.to_js(py=False), g.frozen())
    if m:
        r.violation(key, f"the stream means a different value {m}\n{data.hex()}", code)
        return False
    return True


def leaves_task(r, names, options=None, node=True):
    to_v8(r, gen.single_leaf_cases(names), options, node)


def pairs_task(r, a, b, pairings):
    to_v8(r, gen.pair_cases(a, b, {p: gen.PAIRINGS[p] for p in pairings}))


def frozen_task(r, pairs):
    to_v8(r, frozen_cases(pairs))


def nested_task(r, depth, leaves, part, parts):
    to_v8(r, itertools.islice(gen.nested_cases(depth, leaves), part, None, parts))


def sizes_task(r, sizes):
    to_v8(r, gen.size_cases(sizes))


def catalogue_task(r, part, parts, resizable=False):
    to_v8(r, gen.catalogue_cases(part, parts, resizable), {"features": NODE_FEATURES} if resizable else None)


def two_counts_task(r, counts, part, parts):
    to_v8(r, itertools.islice(gen.two_counts_cases(counts), part, None, parts))


def strings_task(r, strings):
    def cases():
        for s in strings:
            for wrap in ("list[1]", "jsobject", "jsmap key"):
                g = gen.Graph()
                g.root = gen.POSITIONS[wrap](g, gen.S(s))
                yield f"string {wrap} {s!a:.60}", g
            for wrap in ("boxed", "message", "key", "regexp"):
                g = gen.Graph()
                if wrap == "boxed":
                    x = g.boxed(gen.S(s))
                elif wrap == "message":
                    x = g.error("Error", s, s)
                elif wrap == "key":
                    x = g.obj((s, gen.TRUE))
                else:
                    x = g.regexp(s or "(?:)")
                g.root = g.arr(x, gen.S("end"), fl="list")
                yield f"string {wrap} {s!a:.60}", g

    to_v8(r, cases())


def shapes_task(r, n, kinds, part, parts):
    cases = itertools.islice(gen.shape_cases(n, kinds), part, None, parts)
    to_v8(r, ((k, g) for k, g in cases if not g.error_in_own_cause()))


def circular_task(r, n, kinds, part, parts):
    cases = itertools.islice(gen.shape_cases(n, kinds), part, None, parts)
    options = {"features": SerializationFeature.CircularErrorCause}
    to_v8(r, ((k, g) for k, g in cases), options)


def sequences_task(r, a, b):
    to_v8(r, ((f"seq {x},{y}", gen.sequence_case([x, y])) for x in a for y in b))


def resizable_task(r, names):
    to_v8(r, gen.single_leaf_cases(names), {"features": NODE_FEATURES})
    to_v8(
        r,
        ((f"resizable seq {a},{b}", gen.sequence_case([a, b])) for a in names for b in gen.RESIZABLE),
        {"features": NODE_FEATURES},
    )


def plain(g):
    """The graph with resizable buffers as plain ones."""
    nodes = []
    for n in g.nodes:
        if n[0] == "Buffer":
            n = n[:2] + (False, None)
        if n[0] == "View":
            n = n[:4] + (n[5], n[5])
        nodes.append(n)
    p = gen.Graph(g.root, nodes, g.flavours)
    return p.to_js(), p.to_js()


def not_resizable_task(r, names):
    to_v8(r, gen.single_leaf_cases(names), expect=plain)


def ints_task(r, ints):
    def cases():
        for n in ints:
            g = gen.Graph()
            g.root = g.arr(gen.I(n), gen.I(-n), gen.S("end"), fl="list")
            yield f"int {n.bit_length()} bits {n % 1000}", g

    to_v8(r, cases())


SPECIAL_NAMES = [
    "__proto__", "constructor", "length", "toString", "valueOf", "hasOwnProperty", "prototype", "name", "then", "push", "at",
    "message", "stack", "cause", "byteLength", "buffer", "size", "get", "toJSON", "index", "input", "4294967295", "-1", "-0", "1.5",
    "NaN", "Infinity", "", "\0", "undefined", "null", "lengt", "Length", "\ufeff", "__defineGetter__", "arguments", "callee", "caller",
]  # fmt: skip


def names_task(r, names):
    """Property names that mean something to JavaScript are ordinary properties."""

    def cases():
        for s in names:
            for v in (gen.TRUE, gen.S("v"), gen.F(2.0)):
                g = gen.Graph()
                g.root = g.obj((s, v))
                yield f"name object {s!a}", g
                if s != "length":
                    for els in ((), (gen.TRUE,)):
                        g = gen.Graph()
                        g.root = g.arr(*els, props=((s, v),))
                        yield f"name array {s!a}", g
                    g = gen.Graph()
                    g.root = g.sparse(30, [(3, gen.TRUE)], props=((s, v),))
                    yield f"name sparse {s!a}", g
                g = gen.Graph()
                g.root = g.map((gen.S(s), v), fl="dict")
                yield f"name dict {s!a}", g

    to_v8(r, cases())


def array_length_task(r):
    """No array can have a property named length: V8 does not read one."""
    for n in (0, 1, 3, 40):
        for value in (n, 0, 7, "x", None, True):
            for make in (lambda: JSArray([1] * n, length=value), lambda: JSArray({n: 1, "length": value}), lambda: JSArray({n * 100: 1, "length": value})):
                for wrap in (lambda a: a, lambda a: [a], lambda a: {1: a}):
                    r.states += 1
                    r.transitions += 1
                    a = make()
                    try:
                        data = dumps(wrap(a))
                    except EncodeV8SerializeError:
                        r.traces += 1
                        r.outcomes["array length property refused"] += 1
                        continue
                    reply = nodejs.batch([{"op": "deser", "hex": data.hex()}])[0]
                    if "err" in reply:
                        r.violation(f"array length property {n} {value!r}", f"V8 refuses the stream: {reply['err']}\n{data.hex()}",
                                    f"{PRELUDE}print(dumps({a!r}).hex())")  # fmt: skip


def main(check):
    t = check.thorough
    leaves = [*gen.PRIMS, *gen.OBJECTS]
    check.phase("leaf in position", [(leaves_task, (c,)) for c in chunks(leaves, 32)])
    check.phase("leaf in position, no V8", [(leaves_task, (c, None, False)) for c in chunks(gen.HOST_ONLY, 3)])
    every = [*gen.CONFUSABLE, *gen.OBJECTS]
    check.phase(
        "pairs of leaves",
        [
            (pairs_task, (c, leaves if t else every, list(gen.PAIRINGS) if t else ["JSMap{a: b}"]))
            for c in chunks(every, 32)
        ],
    )
    pairs = list(itertools.product(gen.CONFUSABLE, repeat=2))
    check.phase("confusable immutables", [(frozen_task, (c,)) for c in chunks(pairs, 8)])
    towers = ["float:-0.0", "view:i16", "regexp"]
    check.phase(
        "towers", [(nested_task, (d, towers, p, 32)) for d in ((1, 2, 3) if t else (1, 2)) for p in range(32)]
    )
    sizes = [0, 1, 2, 3, 5, 63, 64, 127, 128, 129, 255, 256, 300]
    big = [8191, 8192, 16383, 16384]
    check.phase("sizes", [(sizes_task, ([s],)) for s in sizes + big + ([2**16, 2**21 - 1, 2**21] if t else [])])
    check.phase(
        "variants of every kind",
        [(catalogue_task, (p, 32)) for p in range(32)] + [(catalogue_task, (p, 16, True)) for p in range(16)],
    )
    counts = [0, 1, 2, 127, 128, 129] + ([255, 256, 300, 16383, 16384] if t else [300])
    check.phase("element and name counts", [(two_counts_task, (counts, p, 32)) for p in range(32)])
    alphabet = ["a", "0", "\x80", "ÿ", "Ā", "\ud800", "\udc00", "😀", "\0"]
    strings = sorted(set(all_strings(alphabet, 3 if t else 2)) | set(gen.LONG_STRINGS), key=lambda s: (len(s), s))
    check.phase("strings", [(strings_task, (c,)) for c in chunks(strings, 32)])
    ints = sorted({2**b + d for b in range(0, 140 if not t else 600) for d in (-2, -1, 0, 1, 2)})
    check.phase("ints", [(ints_task, (c,)) for c in chunks(ints, 16)])
    kinds = list(gen.CONTAINERS)
    check.phase(
        "shapes",
        [(shapes_task, (1, kinds, 0, 1))]
        + [(shapes_task, (2, kinds, p, 32)) for p in range(32)]
        + [(shapes_task, (3, kinds[1:] if t else ["jsobject", "jsset", "mapkey"], p, 64)) for p in range(64)],
    )
    check.phase(
        "cyclic causes",
        [(circular_task, (2, ["cause", "jserror", "list", "mapkey", "jsobject"], p, 16)) for p in range(16)]
        + [(circular_task, (3, ["cause", "jsset"], p, 16)) for p in range(16)],
    )
    check.phase("sequences", [(sequences_task, (c, list(gen.OBJECTS))) for c in chunks(gen.OBJECTS, 32)])
    check.phase("resizable", [(resizable_task, (c,)) for c in chunks(gen.RESIZABLE, 8)])
    check.phase("resizable without the feature", [(not_resizable_task, (c,)) for c in chunks(gen.RESIZABLE, 8)])
    check.phase("special names", [(names_task, (c,)) for c in chunks(SPECIAL_NAMES, 8)] + [(array_length_task, ())])
    check.bounds = {"leaves": len(leaves), "positions": len(gen.POSITIONS), "cyclic nodes": 3, "tower depth": 3 if t else 2}
    check.assumptions = [
        "V8 is the one in the installed node; constructs node cannot read on its own (shared and transferred "
        "buffers, shared references) are checked against the wire model only",
        "Float16Array is newer than the installed V8 and is checked against the wire model in C08",
    ]
