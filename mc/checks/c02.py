"""C02: shared references and cycles survive the round trip."""

from __future__ import annotations

import itertools
from datetime import datetime, timedelta, timezone

from v8serialize import (
    IllegalCyclicReferenceV8SerializeError,
    Encoder,
    SerializationFeature,
    default_encode_steps,
    dumps,
    loads,
)
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream, TagReader
from v8serialize.encode import DefaultEncodeContext, WritableTagStream
from v8serialize.extensions import (
    NodeJsArrayBufferViewHostObjectHandler,
    serialize_js_array_buffer_views_as_nodejs_host_object,
)

from v8serialize.constants import JSRegExpFlag
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSArrayBufferTransfer,
    JSError,
    JSErrorData,
    JSMap,
    JSObject,
    JSPrimitiveObject,
    JSRegExp,
    JSSet,
    JSSharedArrayBuffer,
    JSUint8Array,
)
from v8serialize.jstypes._v8 import V8SharedObjectReference
from v8serialize.jstypes.jsbuffers import SharedArrayBufferId

from .. import gen, nodejs
from ..core import CaseTimeout, chunks, exc_summary, time_limit
from ..graph import Graph, I, build, describe_py, js_source, match
from ..wire import js_graph
from .c01 import round_trip, snippet

KINDS = [*gen.OBJECTS, *gen.HOST_ONLY, *gen.PYTHON]
# one of each kind that gets its own code path
REPR = [
    "boxed:true", "boxed:1.5", "boxed:str", "boxed:bigint 1", "date:ms", "regexp", "pattern",
    "buffer:3", "bytes", "bytearray", "view:i16", "view:bytes", "error:none", "error:type", "obj:empty",
    "obj", "arr:empty", "arr:sparse", "list", "tuple", "map", "dict", "jsset", "frozenset",
]  # fmt: skip


BUFFERS = {
    "JSArrayBuffer": lambda g: g.buffer(b"abcdefgh"),
    "resizable": lambda g: g.buffer(b"abcdefgh", max=16),
    "bytes": lambda g: g.buffer(b"abcdefgh", fl="bytes"),
    "bytearray": lambda g: g.buffer(b"abcdefgh", fl="bytearray"),
    "memoryview": lambda g: g.buffer(b"abcdefgh", fl="memoryview"),
    "shared": lambda g: g.add("shared", ("SharedBuffer", 5)),
    "transfer": lambda g: g.add("transfer", ("Transfer", 300)),
}
FROZEN = ("bytes", "memoryview", "shared", "transfer")
# what can be made of a buffer: name -> function of (Graph, buffer)
USES = {
    "buffer": lambda g, b: b,
    "u8": lambda g, b: g.view("Uint8Array", b, 0, 8),
    "i16": lambda g, b: g.view("Int16Array", b, 2, 4),
    "dv": lambda g, b: g.view("DataView", b, 1, 3),
    "empty": lambda g, b: g.view("Float64Array", b, 8, 0),
}
CONTAINED = {
    "list": lambda g, xs: g.arr(*xs, fl="list"),
    "jsobject": lambda g, xs: g.obj(*((f"k{i}", x) for i, x in enumerate(xs))),
    "mapkey": lambda g, xs: g.map(*((x, I(i)) for i, x in enumerate(dict.fromkeys(xs)))),
    "causes": lambda g, xs: g.arr(*(g.error("Error", "m", "s", x) for x in xs), fl="list"),
}


def views_task(r, names, n):
    """Several users of one or two buffers, in every order."""
    for name in names:
        opts = {"features": SerializationFeature.ResizableArrayBuffers} if name == "resizable" else None
        for uses in itertools.product(USES, repeat=n):
            for same in itertools.product((0, 1), repeat=n - 1):
                for c in CONTAINED:
                    g = Graph()
                    bufs = [BUFFERS[name](g), None]
                    xs = []
                    for u, other in zip(uses, (0, *same)):
                        if bufs[other] is None:
                            bufs[other] = BUFFERS[name](g)
                        xs.append(USES[u](g, bufs[other]))
                    if c == "mapkey" and name in FROZEN:
                        continue  # equal immutable keys become one
                    g.root = CONTAINED[c](g, [*xs, xs[0]])
                    round_trip(r, f"views of {name} {c} {uses} {same}", g, opts)


def sequences_task(r, firsts, seconds, thirds=(None,)):
    for a, b, c in itertools.product(firsts, seconds, thirds):
        names = [n for n in (a, b, c) if n]
        round_trip(r, f"seq {','.join(names)}", gen.sequence_case(names))


def positions_task(r, names):
    for n in names:
        for p1, p2 in itertools.product(gen.POSITIONS, repeat=2):
            for first in (None, "regexp", "error:none", "shared", "view:u8"):
                if first and (p1 != p2):
                    continue
                round_trip(r, f"share {first} {n} {p1} {p2}", gen.share_positions_case(n, p1, p2, first))


def catalogue_task(r, part, parts, resizable=False):
    options = {"features": SerializationFeature.ResizableArrayBuffers} if resizable else None
    for key, g in gen.catalogue_cases(part, parts, resizable):
        if key.startswith("repeated"):
            round_trip(r, key, g, options)


def shapes_task(r, n, kinds, max_out, part, parts):
    for k, g in itertools.islice(gen.shape_cases(n, kinds, max_out), part, None, parts):
        if g.error_in_own_cause():
            refused(r, f"shape {k}", g)
            round_trip(r, f"shape {k}", g, {"features": SerializationFeature.CircularErrorCause})
        else:
            round_trip(r, f"shape {k}", g)
        r.sample(k, 1)


def refused(r, key, g):
    """Errors in their own cause need a feature."""
    try:
        dumps(build(g))
    except IllegalCyclicReferenceV8SerializeError:
        r.outcomes["refused"] += 1
    except Exception as e:
        r.violation(f"refuse {key}", f"raised {exc_summary(e)}", snippet(g))
    else:
        r.violation(f"refuse {key}", "self-referencing cause written without the feature", snippet(g))


def js_shapes_task(r, n, kinds, max_out, part, parts):
    """The same shapes, serialized by V8."""
    from_js(r, itertools.islice(gen.shape_cases(n, kinds, max_out), part, None, parts))


def js_sequences_task(r, firsts, seconds):
    from_js(r, ((f"seq {a},{b}", gen.sequence_case([a, b])) for a in firsts for b in seconds))


def from_js(r, cases):
    """JavaScript's value of a graph -> V8 -> loads()."""
    cases = list(cases)
    for i in range(0, len(cases), 500):
        part = cases[i : i + 500]
        replies = nodejs.batch(
            [{"op": "ser", "src": js_source(g), "mode": "plain", "nodesc": True} for _, g in part]
        )
        for (key, g), reply in zip(part, replies):
            if "err" in reply:
                raise RuntimeError(f"node: {key}: {reply['err']}")
            check_js(r, key, g, bytes.fromhex(reply["hex"]))


def check_js(r, key, g, data):
    r.states += 1
    code = f"from v8serialize import loads\nprint(loads(bytes.fromhex({data.hex()!r})))"
    try:
        with time_limit(20):
            got = loads(data)
            r.transitions += 1
            m = match(js_graph(g), describe_py(got))
            if m:
                r.violation(f"js {key}", f"V8's serialization of the graph reads back differently {m}", code)
            else:
                r.traces += 1
                r.outcomes[f"js {data[2:3]!r} {len(data) // 8}"] += 1
    except CaseTimeout:
        r.violation(f"js {key}", "did not terminate", code)
    except Exception as e:
        r.violation(f"js {key}", f"raised {exc_summary(e)}", code)


JS_NAMES = [
    "boxed:true", "boxed:1.5", "boxed:str", "boxed:bigint 1", "date:ms", "regexp", "regexp:flags",
    "buffer:3", "buffer:empty", "view:u8", "view:i16", "view:dv", "error:none", "error:type", "error",
    "obj:empty", "obj", "arr:empty", "arr", "arr:sparse", "arr:sparse props", "map", "map:empty", "jsset",
    "rab", "rabview:tracking",
]  # fmt: skip


# -- references to objects of every kind, in any order ---------------------------------

TAGGED = {
    "object": b"o{\0", "array": b"A\0$\0\0", "sparse": b"a\3@\0\3", "map": b";:\0", "set": b"',\0", "date": b"D" + bytes(8),
    "true": b"y", "boxed": b's"\1a', "regexp": b'R"\1a\0', "buffer": b"B\2ab", "shared": b"u\5", "transfer": b"t\5", "resizable": b"~\2\4ab",
    "view": b"B\2abVB\0\2\0", "error": b"r.", "error, cause": b"rco{\0.", "host": b"\\\1\2ab", "nested": b"A\1o{\0$\0\1",
}  # fmt: skip
EXTRA_IDS = {"view": 2, "error, cause": 2, "nested": 2}
FEW_TAGGED = ("object", "date", "view", "error, cause", "host", "map")
node_views = NodeJsArrayBufferViewHostObjectHandler()
NODE_STEPS = [*default_encode_steps[:1], serialize_js_array_buffer_views_as_nodejs_host_object, *default_encode_steps[1:]]


def _var(n):
    return bytes([n]) if n < 128 else bytes([n & 127 | 128, n >> 7])


def reference_streams(kinds, m):
    """(targets, stream): objects, then every sequence of m references to them and to what holds them."""
    n = len(kinds)
    ids, at = [0], 1
    for k in kinds:
        step = EXTRA_IDS.get(k, 1)
        # the view's own id comes after its buffer's
        ids.append(at + 1 if k == "view" else at)
        at += step
    body = b"".join(TAGGED[k] for k in kinds)
    for targets in itertools.product(range(n + 1), repeat=m):
        refs = b"".join(b"^" + _var(ids[i]) for i in targets)
        yield targets, b"\xff\x0fA" + _var(n + m) + body + refs + b"$\0" + _var(n + m)


def references_task(r, cases, m):
    alone = {k: type(loads(b"\xff\x0f" + b, decode_steps=[TagReader(host_object_deserializer=node_views)])) for k, b in TAGGED.items()}
    for kinds in cases:
        n = len(kinds)
        for targets, data in reference_streams(kinds, m):
            key = f"references {kinds} {targets}"
            code = f"from v8serialize import *\nfrom mc.checks.c02 import *\nv = loads({data!r}, decode_steps=[TagReader(host_object_deserializer=node_views)])\nprint(v)"
            r.states += 1
            try:
                v = loads(data, decode_steps=[TagReader(host_object_deserializer=node_views)])
                again = loads(
                    Encoder(encode_steps=NODE_STEPS, features=SerializationFeature.ResizableArrayBuffers).encode(v),
                    decode_steps=[TagReader(host_object_deserializer=node_views)],
                )
            except Exception as e:
                r.violation(key, f"raised {exc_summary(e)}", code)
                continue
            for x, what in ((v, "decoded"), (again, "encoded again")):
                r.transitions += 1
                got = [type(x[i]) for i in range(n)] if len(x) == n + m else None
                if got != [alone[k] for k in kinds]:
                    r.violation(key, f"{what}: the objects are {got}", code)
                    continue
                bad = [j for j, i in enumerate(targets) if x[n + j] is not (x if i == 0 else x[i - 1])]
                if bad:
                    r.violation(key, f"{what}: reference {bad[0]} is to {type(x[n + bad[0]]).__name__}, not object {targets[bad[0]] - 1}", code)
                else:
                    r.traces += 1
        r.outcomes[f"{n} objects"] += 1


# -- several values in one stream ----------------------------------------------


def pool():
    """Values that share parts, and values that are equal to others: name -> (value, what it's read as, mutable)."""
    inner = [1]
    buf = JSArrayBuffer(b"abcdefgh")
    loop = []
    loop.append(loop)
    day = datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone.utc)
    two = bytearray(b"xy")
    is_view = lambda x, offset: isinstance(x, JSUint8Array) and x.byte_offset == offset and x.backing_buffer == JSArrayBuffer(b"abcdefgh")  # noqa: E731
    return {
        "list": (inner, lambda x: isinstance(x, JSArray) and list(x.array) == [1], True),
        "equal list": ([1], lambda x: isinstance(x, JSArray) and list(x.array) == [1], True),
        "list of it": ([inner, 2], lambda x: isinstance(x, JSArray) and list(x.array[0].array) == [1] and x.array[1] == 2, True),
        "dict of it": ({"k": inner}, lambda x: isinstance(x, JSMap) and list(x["k"].array) == [1], True),
        "loop": (loop, lambda x: isinstance(x, JSArray) and x.array[0] is x, True),
        "buffer": (buf, lambda x: x == JSArrayBuffer(b"abcdefgh"), True),
        "view": (JSUint8Array(buf, 1, 2), lambda x: is_view(x, 1), True),
        "other view": (JSUint8Array(buf, 2, 2), lambda x: is_view(x, 2), True),
        "bytes": (b"xy", lambda x: x == JSArrayBuffer(b"xy"), False),
        "equal bytes": (bytes(two), lambda x: x == JSArrayBuffer(b"xy"), False),
        "bytearray": (two, lambda x: x == JSArrayBuffer(b"xy"), True),
        "date": (day, lambda x: x.timestamp() == day.timestamp(), False),
        "equal date": (day.astimezone(timezone(timedelta(hours=1))), lambda x: x.timestamp() == day.timestamp(), False),
        "date 2": (day + timedelta(1), lambda x: x.timestamp() == day.timestamp() + 86400, False),
        "tuple": ((1, "s"), lambda x: list(x.array) == [1, "s"], False),
        "equal tuple": (tuple([1, "s"]), lambda x: list(x.array) == [1, "s"], False),
        "true tuple": ((True, "s"), lambda x: list(x.array) == [True, "s"] and x.array[0] is True, False),
        "float tuple": ((1.0, "s"), lambda x: list(x.array) == [1, "s"], False),
        "frozenset": (frozenset([3]), lambda x: isinstance(x, JSSet) and list(x) == [3], False),
        "regexp": (JSRegExp("x"), lambda x: x == JSRegExp("x"), False),
        "regexp i": (JSRegExp("x", JSRegExpFlag.IgnoreCase), lambda x: x == JSRegExp("x", JSRegExpFlag.IgnoreCase), False),
        "boxed": (JSPrimitiveObject(1), lambda x: x == 1 and type(x) is float, None),
        "boxed true": (JSPrimitiveObject(True), lambda x: x is True, None),
        "shared": (JSSharedArrayBuffer(SharedArrayBufferId(7)), lambda x: x == JSSharedArrayBuffer(SharedArrayBufferId(7)), False),
        "error": (JSErrorData("m", cause=inner), lambda x: isinstance(x, JSError) and list(x.cause.array) == [1], True),
        "int": (1, lambda x: x == 1 and type(x) is int, None),
        "str": ("xy", lambda x: x == "xy", None),
        "true": (True, lambda x: x is True, None),
    }  # fmt: skip


POOL = list(pool())
INNER = {"list": lambda x: x, "list of it": lambda x: x.array[0], "dict of it": lambda x: x["k"], "error": lambda x: x.cause}
BACKING = {"buffer": lambda x: x, "view": lambda x: x.backing_buffer, "other view": lambda x: x.backing_buffer}


def values_task(r, seqs, sizes):
    values = pool()
    for seq, size in itertools.product(seqs, sizes):
        r.states += 1
        key = f"values: {seq} {size}"
        code = f"# {seq} written by one DefaultEncodeContext(deduplicate_max_size={size}), read by one DefaultDecodeContext"
        try:
            out = WritableTagStream()
            ctx = DefaultEncodeContext(stream=out, deduplicate_max_size=size)
            for name in seq:
                ctx.encode_object(values[name][0])
                r.transitions += 1
            read = DefaultDecodeContext(stream=ReadableTagStream(bytes(out.data)))
            got = [read.decode_object() for _ in seq]
            if not read.stream.eof:
                r.violation(key, "the stream has more than was written", code)
                continue
            wrong = [n for n, x in zip(seq, got) if not values[n][1](x)]
            if wrong:
                r.violation(key, f"{wrong} read as {got}", code)
                continue
            for (a, x), (b, y) in itertools.combinations(zip(seq, got), 2):
                mutable = values[a][2] or values[b][2]
                if a == b and values[a][2] is not None and x is not y:
                    r.violation(key, f"{a!r} is read as two objects", code)
                elif a != b and mutable and x is y:
                    r.violation(key, f"{a!r} and {b!r} are read as one object", code)
                for parts in (INNER, BACKING):
                    if a in parts and b in parts and parts[a](x) is not parts[b](y):
                        r.violation(key, f"what {a!r} and {b!r} share is read as two objects", code)
            r.traces += 1
            r.outcomes[f"{len(set(map(id, got)))} of {len(seq)} values"] += 1
        except Exception as e:
            r.violation(key, f"raised {exc_summary(e)}", code)


class Odd:
    """False, and not comparable or hashable."""

    __hash__ = None

    def __bool__(self):
        return False

    def __eq__(self, other):
        raise ZeroDivisionError


IDENTITIES = {
    "own": lambda: None, "[]": list, "{}": dict, "0": lambda: 0, "False": lambda: False, "''": str, "()": tuple, "0.0": lambda: 0.0,
    "Odd()": Odd, "object()": object, "JSObject()": JSObject, "JSArrayBuffer()": lambda: JSArrayBuffer(b""), "type": lambda: Odd,
}  # fmt: skip


def put_host(stream, value):
    stream.data.extend(bytes([len(value)]) + value)


def get_host(stream):
    return bytearray(stream.read_bytes(stream.read_bytes(1)[0]))


def writers():
    """What writes an object: (its own identity, write(stream, context, identity))."""
    out = {}
    for n, items in (("", []), (" 1", [("a", 1)])):
        for name in ("write_jsmap", "write_js_object"):
            out[f"{name}{n}"] = items[:], lambda s, c, o, i, name=name: getattr(s, name)(o, c, **i)
        out[f"write_jsset{n}"] = [v for _, v in items], lambda s, c, o, i: s.write_jsset(o, c, **i)
        out[f"write_js_array_dense{n}"] = [v for _, v in items], lambda s, c, o, i: s.write_js_array_dense(o, c, **i)
        out[f"write_js_array_sparse{n}"] = [(1, v) for _, v in items], lambda s, c, o, i: s.write_js_array_sparse(o, c, length=3, **i)
        out[f"write_js_array_dense properties{n}"] = None, lambda s, c, o, i, p=items: s.write_js_array_dense([2], c, properties=p, **i)
    for n, x in (("", JSArrayBuffer(b"")), (" fixed", JSArrayBuffer(b"ab")), (" resizable", JSArrayBuffer(b"ab", max_byte_length=4)), (" shared", JSSharedArrayBuffer(SharedArrayBufferId(1)))):
        out[f"write_js_array_buffer{n}"] = x, lambda s, c, o, i: s.write_js_array_buffer(o, **i)
    out["write_js_array_buffer transfer"] = JSArrayBufferTransfer(1), lambda s, c, o, i: s.write_js_array_buffer(o, **i)
    out["write_v8_shared_object_reference"] = V8SharedObjectReference(1), lambda s, c, o, i: s.write_v8_shared_object_reference(o, **i)
    for n in (0, 2):
        view = JSUint8Array(JSArrayBuffer(bytes(n)))
        out[f"write_js_array_buffer_view {n}"] = view, lambda s, c, o, i: (s.write_js_array_buffer(o.backing_buffer), s.write_js_array_buffer_view(o, **i))
    for x in (JSPrimitiveObject("s"), JSPrimitiveObject(""), JSPrimitiveObject(False), JSPrimitiveObject(2**70), JSPrimitiveObject(1.5)):
        out[f"write_js_primitive_object {x.value!r}"] = x, lambda s, c, o, i: s.write_js_primitive_object(o, **i)
    out["write_js_regexp"] = JSRegExp("a"), lambda s, c, o, i: s.write_js_regexp(o, **i)
    out["write_js_date"] = datetime(2000, 1, 1, tzinfo=timezone.utc), lambda s, c, o, i: s.write_js_date(o, **i)
    out["write_js_error"] = JSErrorData(""), lambda s, c, o, i: s.write_js_error(o, c, **i)
    out["write_js_error cause"] = JSErrorData("m", cause=[]), lambda s, c, o, i: s.write_js_error(o, c, **i)
    out["write_host_object"] = bytearray(), lambda s, c, o, i: s.write_host_object(o, serializer=put_host, **i)
    out["write_host_object 1"] = bytearray(b"1"), lambda s, c, o, i: s.write_host_object(o, serializer=put_host, **i)
    return out


def identities_task(r, calls):
    """Two objects written with an identity each (or their own), then references to both."""
    for (w1, i1), (w2, i2) in calls:
        r.states += 1
        key = f"identities: {w1} {i1}, {w2} {i2}"
        code = f"# {w1}(identity={i1}), {w2}(identity={i2}), then references to both in one WritableTagStream"
        own1, write1 = writers()[w1]
        own2, write2 = writers()[w2]
        id1, id2 = IDENTITIES[i1](), IDENTITIES[i2]()
        try:
            s = WritableTagStream(features=SerializationFeature.MaxCompatibility | SerializationFeature.ResizableArrayBuffers)
            ctx = DefaultEncodeContext(stream=s)
            write1(s, ctx, own1, {} if id1 is None else {"identity": id1})
            write2(s, ctx, own2, {} if id2 is None else {"identity": id2})
            s.write_object_reference(obj=own1 if id1 is None else id1)
            s.write_object_reference(obj=own2 if id2 is None else id2)
            r.transitions += 4
            extra = [n for n, own, i in ((w1, own1, id1), (w2, own2, id2)) if i is not None and own is not None and own in s.objects]
            if extra:
                r.violation(key, f"the value given to {extra} is recorded too", code)
            read = DefaultDecodeContext(decode_steps=[TagReader(host_object_deserializer=lambda stream: get_host(stream))], stream=ReadableTagStream(bytes(s.data)))
            a, b, a2, b2 = (read.decode_object() for _ in range(4))
            if a2 is not a or b2 is not b or not read.stream.eof:
                r.violation(key, f"read as {a!r}, {b!r}, then the references as {a2!r}, {b2!r}", code)
            else:
                r.traces += 1
                r.outcomes[type(a).__name__] += 1
        except Exception as e:
            r.violation(key, f"raised {exc_summary(e)}", code)


def identity_calls():
    one = [(w, i) for w, (own, _) in writers().items() for i in IDENTITIES if own is not None or i != "own"]
    return [c for c in itertools.product(one, repeat=2) if c[0][1] != c[1][1] or c[0][1] in ("own", "[]", "Odd()")]


def main(check):
    t = check.thorough
    cases = identity_calls()
    check.phase("identities", [(identities_task, (c,)) for c in chunks(cases if t else [c for c in cases if c[0][1] in ("own", "[]", "0") or c[0][0][-1] == "p"], 32)])
    firsts = [[a] for a in POOL]
    check.phase("streams of values", [(values_task, ([(*f, *rest) for n in (1, 2) for rest in itertools.product(POOL, repeat=n)], (None, 0, 1, 2))) for f in firsts])
    if t:
        check.phase("longer streams of values", [(values_task, ([(*f, *rest) for rest in itertools.product(POOL, repeat=3)], (None,))) for f in firsts])
    check.phase("object kind sequences", [(sequences_task, (c, KINDS)) for c in chunks(KINDS, 32)])
    check.phase(
        "object kind triples",
        [(sequences_task, ([a], REPR, REPR if t else REPR[::3])) for a in (KINDS if t else REPR)],
    )
    check.phase("position pairs", [(positions_task, (c,)) for c in chunks(KINDS if t else REPR, 32)])
    check.phase("views of shared buffers", [(views_task, ([b], n)) for b in BUFFERS for n in ((2, 3, 4) if t else (2, 3))])
    refs = [((k,), 2) for k in TAGGED] + [((a, b), 2) for a in TAGGED for b in TAGGED]
    refs += [(ks, 3) for ks in itertools.product(TAGGED if t else FEW_TAGGED, repeat=3)]
    refs += [((a, b), 4) for a in FEW_TAGGED for b in FEW_TAGGED]
    check.phase(
        "references",
        [(references_task, ([k for k, _ in c], m)) for m in (2, 3, 4) for c in chunks([x for x in refs if x[1] == m], 32)],
    )
    check.phase(
        "variants of every kind",
        [(catalogue_task, (p, 32)) for p in range(32)] + [(catalogue_task, (p, 16, True)) for p in range(16)],
    )
    kinds = list(gen.CONTAINERS)
    py_kinds = [*kinds, *gen.PY_CONTAINERS]
    check.phase(
        "cyclic shapes",
        [(shapes_task, (1, py_kinds, 2, 0, 1))]
        + [(shapes_task, (2, py_kinds, 2, p, 32)) for p in range(32)]
        + [
            (shapes_task, (3, kinds if t else ["jsobject", "jsset", "mapkey", "cause"], 2 if t else 2, p, 64))
            for p in range(64)
        ]
        + ([(shapes_task, (4, ["jsarray", "mapkey"], 2, p, 64)) for p in range(64)] if t else []),
    )
    js_kinds = [k for k in kinds if k not in ("list", "dict", "jserror")]
    check.phase(
        "shapes from V8",
        [(js_shapes_task, (2, js_kinds, 2, p, 16)) for p in range(16)]
        + [
            (js_shapes_task, (3, js_kinds[:6] if t else ["jsobject", "mapkey", "cause"], 2, p, 32))
            for p in range(32)
        ],
    )
    check.phase("sequences from V8", [(js_sequences_task, (c, JS_NAMES)) for c in chunks(JS_NAMES, 16)])
    check.bounds = {
        "object kinds": len(KINDS), "containers": len(kinds), "cyclic nodes": 4 if t else 3, "out edges": 2,
    }  # fmt: skip
    check.assumptions = [
        "equal immutable values (dates, regexps, bytes, tuples, ...) may become one object, as documented "
        "by the library's value deduplication; mutable ones may not"
    ]
