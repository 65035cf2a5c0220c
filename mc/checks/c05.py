"""C05: every valid encoding of a value decodes to that value."""

from __future__ import annotations

import itertools

from .. import gen, nodejs, wire
from ..core import chunks
from ..graph import NULL, F, Graph, I, S, loose, match
from ..reading import against_wire, verdict

# Deviations V8 itself doesn't accept (it never writes them): node isn't asked
OLD_ERROR = "old error order"


def case(name):
    g = Graph()
    g.root = g.arr(gen.leaf(g, name), S("end"), fl="list")
    return g


def run_graph(r, key, g: Graph, deviations: int, node: bool, limit=None):
    """Every derivation of the graph up to a number of deviations."""
    want = loose(g.to_js(py=False))
    batch = []
    seen = set()
    for data in itertools.islice(wire.derivations(g, deviations), limit):
        if data in seen:
            continue
        seen.add(data)
        v = verdict(data)
        k = f"{key} {data.hex() if len(data) < 60 else hash_of(data)}"
        if v[0] == "value":
            got, end, features = v[1]
            m = match(want, loose(got.to_js(py=False)), g.frozen())
            if m or end != len(data):
                raise RuntimeError(f"the model disagrees with itself: {k}: {m} {data.hex()}")
            if node and OLD_ERROR not in features:
                batch.append((k, got, data))
        elif v[0] != "free":
            raise RuntimeError(f"derivation isn't valid: {k} {v} {data.hex()}")
        against_wire(r, k, data, v)
    r.sample(f"{key}: {len(seen)} encodings", 2)
    if not batch:
        return
    for (k, got, data), reply in zip(batch, nodejs.batch([{"op": "deser", "hex": b[2].hex()} for b in batch])):
        # validation of the model: V8 reads the same value
        if "err" in reply:
            r.notes["refused by node"] = r.notes.get("refused by node", 0) + 1
            if len(r.notes) < 6:
                r.notes[f"refused: {reply['err'][:60]} {data[:40].hex()}"] = key
            continue
        m = match(loose(got.to_js(py=False)), loose(nodejs.table(reply["ok"])), set(range(len(got.nodes))))
        if m:
            raise RuntimeError(f"the model differs from V8: {k}: {m} {data.hex()}")
        r.traces += 1


def hash_of(data):
    import hashlib

    return hashlib.sha256(data).hexdigest()[:16]


def leaf_task(r, names, deviations, node):
    for n in names:
        run_graph(r, f"leaf {n}", case(n), deviations, node)


def position_task(r, names, deviations):
    for n in names:
        for p in gen.POSITIONS:
            run_graph(r, f"{p}<{n}>", gen.place(p, n), deviations, False)


def pair_task(r, names, others, deviations):
    for a in names:
        for b in others:
            run_graph(r, f"seq {a},{b}", gen.sequence_case([a, b]), deviations, False)


def shape_task(r, kinds, part, parts, deviations):
    for k, g in itertools.islice(gen.shape_cases(2, kinds), part, None, parts):
        run_graph(r, f"shape {k}", g, deviations, False)


def wide_task(r, deviations):
    """Values whose parts have many spellings at once."""
    for key, g in wide_graphs():
        run_graph(r, key, g, deviations, True)


def wide_graphs():
    def mk(f):
        g = Graph()
        g.root = f(g)
        return g

    yield "error all", mk(lambda g: g.error("TypeError", "m", "st", g.obj(("a", I(1)))))
    yield "error cause null", mk(lambda g: g.error("RangeError", None, "s", NULL))
    yield "error cause err", mk(lambda g: g.error("Error", "é", "s", g.error("URIError", "x", "y", S("c"))))
    yield "view", mk(lambda g: g.view("Uint16Array", g.buffer(b"abcdef"), 2, 2))
    yield "view track", mk(lambda g: g.view("Uint16Array", g.buffer(b"abcdef", max=9), 2, tracking=True))

    def two_views(g):
        b = g.buffer(b"abcdef")
        return g.arr(g.view("Uint8Array", b, 1, 2), g.view("DataView", b, 0, 6), b, fl="list")

    yield "two views", mk(two_views)
    yield "array props", mk(lambda g: g.arr(I(1), F(0.5), props=(("x", I(1)), ("é", NULL))))
    yield "sparse", mk(lambda g: g.sparse(9, ((1, I(5)), (7, S("é"))), (("k", F(3.0)),)))
    yield "map", mk(lambda g: g.map((S("a"), I(1)), (I(2), S("b")), (F(1.5), g.arr(fl="list"))))
    yield "object", mk(lambda g: g.obj((3, I(1)), (300, I(-1)), ("é", S("λ")), ("", S(""))))


SMALL = [
    "boxed:true", "boxed:1.5", "boxed:str", "boxed:bigint 1", "date:ms", "regexp:flags", "buffer:3",
    "view:i16", "error:type", "error:eval", "obj", "arr", "arr:sparse", "map", "jsset", "rabview:tracking",
    "shared", "transfer",
]  # fmt: skip


def main(check):
    t = check.thorough
    d = 3 if t else 2
    prims = [n for n in gen.PRIMS if not n.startswith("int:~1001")]
    objects = [n for n in gen.OBJECTS if n not in ("arr:sparse props",)]
    native = [n for n in [*objects, *gen.RESIZABLE] if gen.leaf(Graph(), n)]
    check.phase("spellings of leaves", [(leaf_task, (c, 2, True)) for c in chunks([*prims, *native], 64)])
    if t:
        check.phase(
            "spellings of leaves, 3 deviations", [(leaf_task, (c, 3, False)) for c in chunks([*prims, *native], 96)]
        )
    check.phase("spellings of host leaves", [(leaf_task, (c, d, False)) for c in chunks(gen.HOST_ONLY, 3)])
    check.phase("wide values", [(wide_task, (d,))])
    check.phase("positions", [(position_task, (c, 2 if t else 1)) for c in chunks(SMALL, 18)])
    check.phase(
        "sequences", [(pair_task, (c, SMALL if not t else [*objects], 1)) for c in chunks(SMALL, 18)]
    )
    kinds = list(gen.CONTAINERS)
    check.phase("shapes", [(shape_task, (kinds if t else kinds[1::2], p, 32, 1)) for p in range(32)])
    check.bounds = {"deviations from the first spelling": d, "leaves": len(prims) + len(native)}
    check.assumptions = [
        "the wire model's grammar (mc/wire.py), whose derivations V8 (node) reads as the same values; "
        "the old order of error fields is from V8's history, current V8 refuses it",
    ]
