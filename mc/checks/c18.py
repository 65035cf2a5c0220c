"""C18: calls are independent: reuse, failure, re-entrancy, threads and inputs."""

from __future__ import annotations

import array
import collections.abc
import ctypes
import itertools
import mmap
import re
import warnings
from datetime import datetime, timezone

import v8serialize
from v8serialize import Decoder, Encoder, SerializationFeature, dumps, loads
from v8serialize.constants import JS_OBJECT_KEY_TAGS, SerializationTag
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream, TagReader
from v8serialize.encode import (
    DefaultEncodeContext,
    TagWriter,
    WritableTagStream,
    default_encode_steps,
    serialize_object_references,
)
from v8serialize.extensions import (
    NodeJsArrayBufferViewHostObjectHandler,
    serialize_js_array_buffer_views_as_nodejs_host_object,
)
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSDataView,
    JSError,
    JSErrorData,
    JSFloat16Array,
    JSInt16Array,
    JSMap,
    JSObject,
    JSPrimitiveObject,
    JSRegExp,
    JSSet,
    JSUint8Array,
)

from .. import gen, sched, wire
from ..core import CaseTimeout, chunks, exc_summary, time_limit
from ..graph import build, describe_py

ALL = SerializationFeature(0)
for _f in SerializationFeature:
    ALL |= _f


def told(e: BaseException):
    """An exception without the parts that name objects' addresses or input types."""
    msg = re.sub(r"0x[0-9a-f]+", "0x", str(e))
    # the input is quoted: its type may differ
    msg = re.sub(r"data=.*", "data=", msg, flags=re.S)
    return ("raised", type(e).__name__, msg, getattr(e, "position", None))


def attempt(fn):
    try:
        return ("ok", fn())
    except CaseTimeout:
        raise
    except Exception as e:
        return told(e)


def facts(v):
    """A decoded value, and which of its buffers can be written."""
    seen, out = set(), []

    def walk(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, JSArrayBuffer):
            with x.data as d:
                out.append(bool(d.readonly))
        elif isinstance(x, (JSUint8Array, JSInt16Array, JSDataView)):
            walk(x.backing_buffer)
            with x.get_buffer_as_memoryview() as m:
                out.append(bool(m.readonly))
        elif isinstance(x, collections.abc.Mapping):
            for k, y in x.items():
                walk(k)
                walk(y)
        elif isinstance(x, (collections.abc.Set, list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, JSErrorData):
            walk(x.cause)

    walk(v)
    return describe_py(v), tuple(out)


def err(name, message=None, stack=None, cause=None):
    return JSErrorData(name=name, message=message, stack=stack, cause=cause)


# -- values and streams ---------------------------------------------------------------


class Raising(collections.abc.Collection):
    """A collection whose iteration fails half way."""

    def __init__(self, items, error):
        self.items_, self.error = items, error

    def __len__(self):
        return len(self.items_) + 1

    def __contains__(self, x):
        return False

    def __iter__(self):
        yield from self.items_
        raise self.error


class RaisingMap(collections.abc.Mapping):
    def __init__(self, items, error):
        self.items_, self.error = items, error

    def __len__(self):
        return 2

    def __getitem__(self, k):
        raise KeyError(k)

    def __iter__(self):
        return iter(())

    def items(self):
        yield from self.items_
        raise self.error


def shared():
    o = JSObject(a=1)
    return [o, o, JSMap([(o, o)]), JSSet([o])]


def cycle():
    a = JSArray([1])
    a["self"] = a
    a[1] = JSMap([("a", a)])
    return a


def equal_values():
    d = datetime(2020, 1, 1, tzinfo=timezone.utc)
    return [b"ab", b"a" + b"b"[:1], (1,), (1.0,), (True,), d, d.replace(year=2020), JSRegExp("a"), JSRegExp("a"),
            frozenset([1]), frozenset([1.0]), JSPrimitiveObject(1), JSPrimitiveObject(True)]  # fmt: skip


def buffers():
    b = JSArrayBuffer(b"abcdefgh")
    ba = bytearray(b"12345678")
    return [b, JSUint8Array(b, 1, 2), JSInt16Array(b, 2, 1), ba, JSUint8Array(ba, 1, 2), JSDataView(b, 3, 4), b"12345678"]


def python_error():
    try:
        try:
            raise KeyError("k")
        except KeyError as e:
            raise ValueError("v") from e
    except ValueError as e:
        for x in (e, e.__cause__):
            x.__traceback__ = None
        return [e, e.__cause__]


def own_cause():
    e = err("Error", "m")
    e.cause = [e]
    return [e]


VALUES = {
    "int": lambda: 5,
    "text": lambda: ["é", "λ", 2**70, 1.5, None, True],
    "shared": shared,
    "cycle": cycle,
    "equal": equal_values,
    "buffers": buffers,
    "errors": lambda: [err("TypeError", "m", "s", JSError("m2", name="RangeError", cause=1)), python_error()],
    "resizable": lambda: JSUint8Array(JSArrayBuffer(bytearray(b"abc"), max_byte_length=8)),
    "regexps": lambda: [JSRegExp("a", 1), re.compile("b+")],
    "sparse": lambda: sparse(),
    "bad: unhandled": lambda: [1, JSObject(a=[object])],
    "bad: in set": lambda: [JSObject(a=1), JSSet([object])],
    "bad: in key": lambda: JSMap([(object, 1)]),
    "bad: own cause": own_cause,
    "bad: float16": lambda: [JSFloat16Array(JSArrayBuffer(b"abcd"))],
    "bad: iteration": lambda: [JSObject(a=1), Raising([1, [2]], ZeroDivisionError("x"))],
    "bad: mapping": lambda: [RaisingMap([("a", [1])], ZeroDivisionError("y"))],
    "bad: date": lambda: [datetime.max],
    "bad: nested too deep": lambda: deep(3000),
}


def sparse():
    a = JSArray()
    a[300] = 1
    a["x"] = [2]
    return a


def deep(n):
    v = []
    for _ in range(n):
        v = [v]
    return v


def hexed(*parts):
    return b"\xff\x0f" + b"".join(bytes(p, "latin1") if isinstance(p, str) else bytes(p) for p in parts)


STREAMS = {
    "int": hexed("I\x02"),
    "object": hexed('o"\x01aI\x02"\x01bo{\x00{\x02'),
    "shared": hexed("A\x02o{\x00^\x01$\x00\x02"),
    "cycle": hexed('A\x01^\x00"\x01pI\x02$\x01\x01'),
    "map": hexed(';"\x01aI\x02"\x01b\'I\x02,\x01:\x04'),
    "sparse": hexed("a\xac\x02I\x04I\x02@\x01\xac\x02"),
    "buffer": hexed("A\x02B\x03abcVB\x01\x02\x00^\x01$\x00\x02"),
    "resizable": hexed("~\x02\x08abVB\x00\x00\x03"),
    "error": hexed("r", "T", 'm"\x01m', "c", "r.", "."),
    "regexp": hexed('R"\x01a\x01'),
    "date": hexed("D", bytes(8)),
    "host": hexed("\\\x01\x03abc"),
    "host shared": hexed("A\x02\\\x01\x03abc^\x01$\x00\x02"),
    "boxed": hexed("A\x02y^\x01$\x00\x02"),
    "bad: truncated": hexed('o"\x01aI'),
    "bad: count": hexed('o"\x01aI\x02{\x02'),
    "bad: in map": hexed(";o{\x00", "E"),
    "bad: reference": hexed("A\x01^\x09$\x00\x01"),
    "own cause": hexed("r", "c", "^\x00", "."),
    "bad: date": hexed("D", b"\0\0\0\0\0\0\xf0\x7e"),
    "bad: host": hexed("\\\x63\x03abc"),
    "bad: host length": hexed("\\\x01\x09abc"),
    "host items": hexed("\\\x03\x03abc"),
    "bad: regexp": hexed('R"\x01a\xff\xff\x03'),
    "bad: view": hexed("B\x03abcVB\x02\x02\x00"),
    "bad: version": b"\xff\x02I\x02",
    "bad: empty": b"",
    "bad: deep": hexed("A\x01" * 3000),
}


# -- histories --------------------------------------------------------------------------


class Env:
    """What a history's calls share."""

    def __init__(self):
        self.encoder = Encoder()
        self.all = Encoder(features=ALL)
        writer = TagWriter()
        steps = [serialize_js_array_buffer_views_as_nodejs_host_object, serialize_object_references, writer]
        self.node = Encoder(encode_steps=iter(steps))
        self.bare = Encoder(encode_steps=(s for s in [writer]))
        self.decoder = Decoder()
        reader = TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())
        self.node_decoder = Decoder(iter([reader]))
        other = TagReader(tag_readers=reader.tag_readers, jsmap_type=dict, jsset_type=set)
        self.py_decoder = Decoder([other])
        self.values = {k: f() for k, f in VALUES.items()}


def op_encode(encoder, name, keep):
    def run(env):
        v = env.values[name] if keep else VALUES[name]()
        return attempt(lambda: bytes(getattr(env, encoder).encode(v)))

    return run


def op_dumps(name):
    return lambda env: attempt(lambda: dumps(env.values[name]))


def op_decode(decoder, name):
    return lambda env: attempt(lambda: facts(getattr(env, decoder).decodes(STREAMS[name])))


def op_loads(name):
    return lambda env: attempt(lambda: facts(loads(STREAMS[name])))


def op_repr(name):
    return lambda env: attempt(lambda: re.sub("0x[0-9a-f]+", "", repr(env.values[name])))


def op_eq(name):
    return lambda env: attempt(lambda: (env.values[name] == VALUES[name](), VALUES[name]() == env.values[name]))


def all_ops(core=False):
    ops = {}
    bad_or_rich = ["shared", "cycle", "bad: own cause", "bad: iteration", "bad: float16", "bad: in key"]
    for n in VALUES:
        for e in ("encoder", "all", "node", "bare"):
            if e == "bare" and n in ("cycle", "bad: own cause"):
                continue
            if core and (n not in bad_or_rich or e in ("node", "bare")):
                continue
            ops[f"{e}.encode({n})"] = op_encode(e, n, keep=e in ("encoder", "node"))
        if not core:
            ops[f"dumps({n})"] = op_dumps(n)
    for n in STREAMS:
        if core and n not in ("shared", "cycle", "host shared", "bad: host", "bad: in map", "own cause"):
            continue
        ops[f"decoder({n})"] = op_decode("decoder", n)
        ops[f"node_decoder({n})"] = op_decode("node_decoder", n)
        if not core:
            ops[f"py_decoder({n})"] = op_decode("py_decoder", n)
            ops[f"loads({n})"] = op_loads(n)
    for n in ("shared", "cycle", "errors", "bad: own cause", "buffers"):
        if core and n != "cycle":
            continue
        ops[f"repr({n})"] = op_repr(n)
        ops[f"eq({n})"] = op_eq(n)
    return ops


def history_task(r, firsts, depth, core):
    ops = all_ops(core)
    alone = {}
    for n, f in ops.items():
        alone[n] = f(Env())
    pool = list(ops)
    for seq in itertools.product(firsts, *[pool] * (depth - 1)):
        env = Env()
        r.states += 1
        for i, n in enumerate(seq):
            r.transitions += 1
            got = ops[n](env)
            if got != alone[n]:
                r.violation(
                    f"history: {'; '.join(seq[: i + 1])}",
                    f"after {seq[:i]}, {n} gives {got!r:.300}, alone it gives {alone[n]!r:.300}",
                )
                break
            r.traces += 1
            r.outcomes["fails" if got[0] == "raised" else "succeeds"] += 1
        r.sample("; ".join(seq), 1)


def many_task(r):
    """One decoder and encoder used very many times, and all results kept."""
    env = Env()
    ops = {n: f for n, f in all_ops().items() if "deep" not in n}
    alone = {n: f(Env()) for n, f in ops.items()}
    for i in range(3):
        for n in sorted(ops, key=lambda n: (len(n) * (i + 1) % 17, n)):
            r.transitions += 1
            got = ops[n](env)
            if got != alone[n]:
                r.violation(f"history long: {n}", f"gives {got!r:.300}, alone it gives {alone[n]!r:.300}")
            else:
                r.traces += 1


def mutable_parts(v):
    out = {}

    def walk(x):
        if id(x) in out:
            return
        if isinstance(x, (JSObject, JSMap, JSSet, JSErrorData, JSArrayBuffer, dict, set, list)):
            out[id(x)] = x
        elif isinstance(x, (JSUint8Array, JSInt16Array, JSDataView)):
            walk(x.backing_buffer)
            return
        else:
            return
        if isinstance(x, collections.abc.Mapping):
            for k, y in x.items():
                walk(k)
                walk(y)
        elif isinstance(x, (collections.abc.Set, list)):
            for y in x:
                walk(y)
        elif isinstance(x, JSErrorData):
            walk(x.cause)

    walk(v)
    return out


def disjoint_task(r):
    """Results of separate calls share nothing that can change."""
    for n, data in STREAMS.items():
        for d in ("decoder", "node_decoder", "py_decoder", "loads"):
            env = Env()
            f = loads if d == "loads" else getattr(env, d).decodes
            a, b = attempt(lambda: f(data)), attempt(lambda: f(data))  # noqa: B023
            r.states += 1
            if a[0] != "ok":
                continue
            common = mutable_parts(a[1]).keys() & mutable_parts(b[1]).keys()
            if common:
                r.violation(f"disjoint: {d} {n}", f"two calls of {d} returned values that share {len(common)} objects")
            else:
                r.traces += 1
                r.outcomes["disjoint"] += 1
    for n in VALUES:
        env = Env()
        for e in ("encoder", "all", "node"):
            a = attempt(lambda: getattr(env, e).encode(env.values[n]))  # noqa: B023
            if a[0] != "ok":
                continue
            r.states += 1
            want = bytes(a[1])
            for i in range(len(a[1])):
                a[1][i] = 0xAA
            a[1].clear()
            b = bytes(getattr(env, e).encode(env.values[n]))
            if b != want:
                r.violation(f"disjoint: {e}.encode {n}", "changing the bytes an encoder returned changes what it returns next")
            else:
                r.traces += 1
                r.outcomes["disjoint"] += 1


# -- re-entrancy --------------------------------------------------------------------------


def nested_ops(env):
    """What is done from inside of a call: name -> function."""
    return {
        "same encoder": lambda: attempt(lambda: bytes(env.encoder.encode(env.values["shared"]))),
        "same encoder, failing": lambda: attempt(lambda: bytes(env.encoder.encode(env.values["bad: in set"]))),
        "dumps": lambda: attempt(lambda: dumps(VALUES["cycle"]())),
        "dumps failing": lambda: attempt(lambda: dumps(VALUES["bad: in key"]())),
        "loads": lambda: attempt(lambda: facts(loads(STREAMS["cycle"]))),
        "same decoder": lambda: attempt(lambda: facts(env.decoder.decodes(STREAMS["host shared"]))),
        "same decoder, failing": lambda: attempt(lambda: facts(env.decoder.decodes(STREAMS["bad: in map"]))),
        "py decoder": lambda: attempt(lambda: facts(env.py_decoder.decodes(STREAMS["shared"]))),
        "repr": lambda: attempt(lambda: repr(VALUES["cycle"]())),
        "eq": lambda: attempt(lambda: VALUES["cycle"]() == VALUES["cycle"]()),
    }


class Hook:
    """Called at many points; acts at one of them."""

    def __init__(self, at=None, action=None):
        self.n, self.at, self.action, self.result = 0, at, action, None

    def __call__(self):
        self.n += 1
        if self.n == self.at:
            self.result = self.action()


class Hooked(collections.abc.Collection):
    def __init__(self, items, hook):
        self.items_, self.hook = items, hook

    def __len__(self):
        self.hook()
        return len(self.items_)

    def __contains__(self, x):
        return x in self.items_

    def __iter__(self):
        for x in self.items_:
            self.hook()
            yield x
        self.hook()


class HookedMap(dict):
    hook = None

    def items(self):
        for kv in super().items():
            self.hook()
            yield kv
        self.hook()


def encode_scenarios(env, hook):
    """name -> function running an encode that calls the hook on the way."""

    def step(value, /, ctx, next):
        hook()
        next(value)
        hook()

    def wrapping(value, /, ctx, next):
        # values made on the way are gone right after they are written
        hook()
        next([str(value)] if type(value) is int else value)

    class Serializer:
        def serialize_host_object(self, *, stream, value):
            hook()
            stream.write_uint32(1, tag=None)
            hook()
            stream.write_uint32(0, tag=None)

    def hosts(value, /, ctx, next):
        if isinstance(value, complex):
            ctx.stream.write_host_object(value, serializer=Serializer())
            hook()
        else:
            next(value)

    def values():
        m = HookedMap(a=o, b=[1, o])
        m.hook = hook
        return [o, Hooked([o, 1, (2,)], hook), m, o, (2,)]

    o = JSObject(x=1)
    return {
        "step": lambda: Encoder(encode_steps=[step, *default_encode_steps]).encode(shared()),
        "step errors": lambda: Encoder(encode_steps=[step, *default_encode_steps], features=ALL).encode(own_cause()),
        "step equal": lambda: Encoder(encode_steps=[step, *default_encode_steps]).encode(equal_values()),
        "wrapping": lambda: Encoder(encode_steps=[serialize_object_references, wrapping, *default_encode_steps[1:]]).encode([1, 2, 3, 1, JSSet([4])]),
        "collections": lambda: env.encoder.encode(values()),
        "host": lambda: Encoder(encode_steps=[default_encode_steps[0], hosts, *default_encode_steps[1:]]).encode([c, o, c, o]),
    }  # fmt: skip


c = 1j


def decode_scenarios(env, hook):
    def step(tag, /, ctx, next):
        hook()
        v = next(tag)
        hook()
        return v

    def make(t):
        def new():
            hook()
            return t()

        return new

    class Updating(JSObject):
        def update(self, items=(), **kw):
            for kv in items:
                hook()
                super().update([kv])

    def host(*, stream):
        hook()
        n = stream.read_uint32()
        hook()
        k = stream.read_uint32()
        return JSUint8Array(JSArrayBuffer(bytes(stream.read_bytes(k))), 0, n)

    def error_builder(initial, /):
        hook()
        return JSError.builder(initial)

    rich = hexed('A\x03o"\x01a;I\x02o{\x00:\x02{\x01', "'I\x02I\x04,\x02", "^\x01$\x00\x03")
    errors = hexed("A\x02r", "T", 'm"\x01m', "c", "r", "c", "I\x02", ".", ".", "^\x01$\x00\x02")
    return {
        "step": lambda: Decoder([step, TagReader()]).decodes(rich),
        "constructors": lambda: loads(rich, jsmap_type=make(JSMap), jsset_type=make(JSSet), js_object_type=make(JSObject), js_array_type=make(JSArray)),
        "updates": lambda: loads(rich, js_object_type=Updating),
        "host": lambda: loads(STREAMS["host shared"], host_object_deserializer=host),
        "errors": lambda: loads(errors, js_error_builder=error_builder),
        "step errors": lambda: Decoder([step, TagReader()]).decodes(errors),
    }  # fmt: skip


def reentrant_task(r, kind, scenario):
    scenarios = encode_scenarios if kind == "encode" else decode_scenarios

    def run(hook):
        env = Env()
        hook.action = hook.action and nested_ops(env)[hook.action]
        f = scenarios(env, hook)[scenario]
        return attempt(lambda: bytes(f()) if kind == "encode" else facts(f()))

    base_nested = {n: f() for n, f in nested_ops(Env()).items()}
    h = Hook()
    plain = run(h)
    points = h.n
    if plain[0] != "ok" or points < 1:
        r.violation(f"reentrant: {scenario}", f"scenario fails by itself: {plain}")
        return
    for at in range(1, points + 1):
        for name, alone in base_nested.items():
            hook = Hook(at, name)
            r.states += 1
            r.transitions += 2
            with time_limit(20):
                got = run(hook)
            key = f"reentrant: {kind} {scenario}, {name} at {at}"
            if got != plain:
                r.violation(key, f"the outer call gives {got!r:.300}, without the inner call {plain!r:.300}")
            elif hook.result != alone:
                r.violation(key, f"the inner call gives {hook.result!r:.300}, alone {alone!r:.300}")
            else:
                r.traces += 1
                r.outcomes["independent"] += 1


# -- threads --------------------------------------------------------------------------------


def thread_bodies():
    """name -> function of a shared environment, small enough to interleave."""
    o = JSObject(a=1)
    e = err("TypeError", "m")
    return {
        "encode shared": lambda env: bytes(env.encoder.encode([o, o])),
        "encode map": lambda env: bytes(env.encoder.encode({"k": (1,), "l": (1,)})),
        "encode error": lambda env: bytes(env.all.encode(e)),
        "encode failing": lambda env: bytes(env.encoder.encode([o, object])),
        "encode view": lambda env: bytes(env.node.encode([JSUint8Array(JSArrayBuffer(b"ab"))])),
        "decode object": lambda env: facts(env.decoder.decodes(hexed('o"\x01aI\x02{\x01'))),
        "decode shared": lambda env: facts(env.decoder.decodes(STREAMS["shared"])),
        "decode error": lambda env: facts(env.decoder.decodes(hexed("r", 'm"\x01m', "."))),
        "decode host": lambda env: facts(env.node_decoder.decodes(hexed("\\\x01\x01a"))),
        "decode failing": lambda env: facts(env.decoder.decodes(STREAMS["bad: reference"])),
        "decode set": lambda env: facts(env.py_decoder.decodes(hexed("'I\x02I\x04,\x02"))),
        "decode date": lambda env: facts(env.decoder.decodes(STREAMS["date"])),
    }


def thread_task(r, a, b, part, preemptions):
    bodies = thread_bodies()
    alone = {n: attempt(lambda: bodies[n](Env())) for n in (a, b)}  # noqa: B023

    def make():
        env = Env.__new__(Env)
        env.__dict__.update(shared_env.__dict__)
        return (lambda: attempt(lambda: bodies[a](env))), (lambda: attempt(lambda: bodies[b](env)))

    shared_env = Env()

    def judge(results):
        for n, res in zip((a, b), results):
            if res != ("ok", alone[n]):
                return f"{n} gives {res!r:.300}, alone it gives {alone[n]!r:.300}"
        return None

    sched.explore(r, f"thread {a} | {b}", make, judge, preemptions=preemptions, part=part, both=True)


# -- inputs of serialization ----------------------------------------------------------------


def extra(v):
    """What describe_py doesn't say of Python values."""
    seen, out = set(), []

    def walk(x):
        if id(x) in seen or isinstance(x, (Raising, RaisingMap)):
            return
        seen.add(id(x))
        if isinstance(x, BaseException):
            out.append((type(x).__name__, x.args, x.__suppress_context__, id(x.__traceback__), id(x.__cause__),
                        id(x.__context__), tuple(getattr(x, "__notes__", ())), sorted(vars(x))))  # fmt: skip
            walk(x.__cause__)
            walk(x.__context__)
        elif isinstance(x, collections.abc.Mapping):
            out.append([(id(k), id(y)) for k, y in x.items()])
            for k, y in list(x.items()):
                walk(k)
                walk(y)
        elif isinstance(x, (collections.abc.Set, list, tuple)):
            out.append([id(y) for y in x])
            for y in list(x):
                walk(y)
        elif isinstance(x, (bytearray, memoryview)):
            out.append((type(x).__name__, bytes(x)))
        elif hasattr(x, "backing_buffer"):
            walk(x.backing_buffer)

    walk(v)
    return out


def growable(v):
    """Whether the bytearrays in a value can be resized (nothing exports them)."""
    seen = set()

    def walk(x):
        if id(x) in seen or isinstance(x, (Raising, RaisingMap)):
            return
        seen.add(id(x))
        if isinstance(x, bytearray):
            x.append(1)
            x.pop()
        elif isinstance(x, JSArrayBuffer) and x.resizable:
            n = len(x.data)
            x.resize(0)
            x.resize(n)
        elif isinstance(x, memoryview):
            x.nbytes  # not released  # noqa: B018
        elif hasattr(x, "backing_buffer"):
            walk(x.backing_buffer)
        elif isinstance(x, collections.abc.Mapping):
            for k, y in x.items():
                walk(k)
                walk(y)
        elif isinstance(x, (collections.abc.Set, list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, JSErrorData):
            walk(x.cause)

    walk(v)


ENCODERS = {
    "default": lambda: Encoder(),
    "all features": lambda: Encoder(features=ALL),
    "node": lambda: Encoder(encode_steps=[serialize_js_array_buffer_views_as_nodejs_host_object, *default_encode_steps]),
}


def unmodified_task(r, cases):
    for key, g in cases:
        for en, make in ENCODERS.items():
            v = build(g)
            check_unmodified(r, f"unmodified: {key} {en}", make(), v)


def check_unmodified(r, key, encoder, v):
    before, more = describe_py(v), extra(v)
    r.states += 1
    first = attempt(lambda: bytes(encoder.encode(v)))
    r.transitions += 1
    if describe_py(v) != before or extra(v) != more:
        r.violation(key, f"serializing the value changed it from {before!r:.300} to {describe_py(v)!r:.300}")
        return
    second = attempt(lambda: bytes(encoder.encode(v)))
    if first != second:
        r.violation(key, f"serializing the value again gives {second!r:.200}, at first {first!r:.200}")
        return
    try:
        growable(v)
    except (BufferError, ValueError) as e:
        r.violation(key, f"a buffer in the value is still in use after serializing it: {exc_summary(e)}")
        return
    r.traces += 1
    r.outcomes[f"unmodified, {first[0]}"] += 1


def python_inputs_task(r):
    """Inputs that gen's graphs don't have."""

    def raised(depth=3):
        def f(n):
            if n:
                f(n - 1)
            raise ValueError("x")

        try:
            f(depth)
        except ValueError as e:
            e.__context__ = KeyError("c")
            return e

    grp = ExceptionGroup("g", [raised(), TypeError("t")])
    inputs = {
        "exception": raised, "group": lambda: [grp, grp.exceptions[0]],
        "noted": lambda: (lambda e: (e.add_note("n"), e)[1])(ValueError("n")),
        **{n: f for n, f in VALUES.items() if "deep" not in n},
        "array.array view": lambda: [JSInt16Array(array.array("H", [1, 2, 3]))],
        "view of memoryview": lambda: [JSUint8Array(memoryview(bytearray(b"abcd")), 1, 2)],
        "writable memoryview": lambda: [memoryview(bytearray(b"abcd"))],
        "memoryview slice": lambda: [memoryview(bytearray(b"abcd"))[1:3]],
        "bytearray": lambda: [bytearray(b"abcd"), bytearray(b"abcd")],
        "bytearray then bad": lambda: [bytearray(b"abcd"), JSUint8Array(bytearray(b"x")), object],
    }  # fmt: skip
    for n, f in inputs.items():
        for en, make in ENCODERS.items():
            check_unmodified(r, f"unmodified: {n} {en}", make(), f())


# -- inputs of deserialization ----------------------------------------------------------------


def as_mmap(data):
    m = mmap.mmap(-1, max(1, len(data)))
    m[: len(data)] = data
    return m if len(data) else None


def even(data):
    return None if len(data) % 2 else data


def carriers(data):
    """name -> the same bytes in another object (None: can't be)."""
    return {
        "bytes": data,
        "bytearray": bytearray(data),
        "memoryview": memoryview(data),
        "memoryview of bytearray": memoryview(bytearray(data)),
        "read-only memoryview": memoryview(bytearray(data)).toreadonly(),
        "memoryview slice": memoryview(b"xx" + data + b"yyyyyyyy")[2 : 2 + len(data)],
        "memoryview of b": memoryview(data).cast("b") if data else None,
        "memoryview of c": memoryview(data).cast("c") if data else None,
        "memoryview of H": memoryview(bytearray(data)).cast("H") if data and len(data) % 2 == 0 else None,
        "memoryview 2D": memoryview(data).cast("B", (len(data) // 2, 2)) if data and len(data) % 2 == 0 else None,
        "array of B": array.array("B", data),
        "array of b": array.array("b", data),
        "array of H": array.array("H", data) if len(data) % 2 == 0 else None,
        "array of I": array.array("I", data) if len(data) % 4 == 0 else None,
        "mmap": as_mmap(data),
        "ctypes": (ctypes.c_char * len(data)).from_buffer_copy(data) if data else None,
        "ctypes ubyte": (ctypes.c_ubyte * len(data)).from_buffer_copy(data) if data else None,
        "bytes subclass": type("B", (bytes,), {})(data),
        "bytearray subclass": type("BA", (bytearray,), {})(data),
    }


LOADERS = {
    "loads": loads,
    "Decoder": lambda d: Decoder().decodes(d),
    "python types": lambda d: loads(d, jsmap_type=dict, jsset_type=set),
}


def overwrite(carrier):
    """Fill a writable buffer with other bytes, then free it when possible."""
    try:
        with memoryview(carrier) as m, m.cast("B") as b:
            if b.readonly:
                return None
            b[:] = b"\xaa" * len(b)
    except TypeError:
        return None
    if type(carrier) is bytearray or isinstance(carrier, (bytearray, array.array)):
        try:
            carrier.extend(b"\0" * 8)
            del carrier[:]
        except BufferError as e:
            return f"the input is still in use: {exc_summary(e)}"
    elif isinstance(carrier, mmap.mmap):
        try:
            carrier.close()
        except BufferError as e:
            return f"the input is still in use: {exc_summary(e)}"
    elif isinstance(carrier, memoryview):
        try:
            carrier.release()
        except BufferError as e:
            return f"the input is still in use: {exc_summary(e)}"
    return None


def carriers_task(r, cases, truncate):
    for key, data in cases:
        for n in range(len(data) + 1) if truncate else (len(data),):
            one_carrier(r, f"{key}[:{n}]" if n < len(data) else key, data[:n])


def loaded(load, data):
    """(outcome, value or None)."""
    try:
        v = load(data)
    except CaseTimeout:
        raise
    except Exception as e:
        return told(e), None
    return ("ok", facts(v)), v


def one_carrier(r, key, data):
    for ln, load in LOADERS.items():
        want = loaded(load, data)[0]
        for cn, carrier in carriers(data).items():
            if carrier is None or (ln != "loads" and cn not in ("bytearray", "memoryview of H", "array of b")):
                continue
            if cn == "mmap" and len(data) == 0:
                continue
            r.states += 1
            k = f"carrier: {cn} {ln} {key}"
            code = f"from v8serialize import loads\nprint(loads(bytes.fromhex({data.hex()!r})))  # as {cn}"
            got, v = loaded(load, carrier)
            r.transitions += 1
            if got != want:
                r.violation(k, f"gives {got!r:.300}, from bytes {want!r:.300}", code)
                continue
            with memoryview(carrier) as m:
                same = m.tobytes() == data
            if not same:
                r.violation(k, "decoding changed its input", code)
                continue
            what = overwrite(carrier)
            if what:
                r.violation(k, what, code)
                continue
            if got[0] == "ok" and facts(v) != want[1]:
                r.violation(k, f"the value changed with the input: {facts(v)!r:.300}, was {want[1]!r:.300}", code)
                continue
            r.traces += 1
            r.outcomes[f"{cn}: {got[0]}"] += 1


def write_back_task(r, cases):
    """Changing decoded buffers doesn't change the input."""
    for key, data in cases:
        ba = bytearray(data)
        got, v = loaded(loads, ba)
        if got[0] != "ok":
            continue
        r.states += 1
        for x in mutable_parts(v).values():
            if isinstance(x, JSArrayBuffer):
                with x.data as d:
                    if not d.readonly:
                        d[:] = b"\x55" * len(d)
        if ba != data:
            r.violation(f"write back: {key}", "writing a decoded buffer changed the input")
        else:
            r.traces += 1
            r.outcomes["input kept"] += 1


def stream_corpus(names, positions):
    for n in names:
        for p in positions:
            for g in (gen.place(p, n),):
                yield f"{p}<{n}>", next(iter(wire.derivations(g, 0)))


# -- streams and contexts after failures --------------------------------------------------------


def stream_task(r):
    """A stream can be used on after a call on it was refused."""
    o = JSObject(a=1)

    def wctx(stream):
        return DefaultEncodeContext(stream=stream)

    bad = {
        "object key": lambda s: s.write_js_object([("a", 1), (None, 2)], ctx=wctx(s)),
        "object bytes key": lambda s: s.write_js_object([(b"a", 1)], ctx=wctx(s)),
        "object boxed key": lambda s: s.write_js_object([(object, 1)], ctx=wctx(s)),
        "object value": lambda s: s.write_js_object([("a", object)], ctx=wctx(s)),
        "object items": lambda s: s.write_js_object(RaisingMap([("a", 1)], ZeroDivisionError()).items(), ctx=wctx(s)),
        "dense property": lambda s: s.write_js_array_dense([1], ctx=wctx(s), properties=[(None, 1)]),
        "sparse key": lambda s: s.write_js_array_sparse([(1, 1), (None, 2)], ctx=wctx(s), length=5),
        "sparse value": lambda s: s.write_js_array_sparse([(1, object)], ctx=wctx(s), length=5),
        "map value": lambda s: s.write_jsmap([(1, object)], ctx=wctx(s)),
        "set value": lambda s: s.write_jsset([object], ctx=wctx(s)),
        "uint32": lambda s: s.write_uint32(-1),
        "constant": lambda s: s.write_constant(SerializationTag.kDouble),
        "bad tag in constraint": lambda s: constrained(s),
    }

    def constrained(s):
        with s.constrain_tags(JS_OBJECT_KEY_TAGS):
            s.write_tag(SerializationTag.kTrue)

    good = {
        "constant": lambda s: s.write_constant(SerializationTag.kTrue),
        "object": lambda s: wctx(s).encode_object(JSObject(a=True, b=JSObject())),
        "map": lambda s: wctx(s).encode_object({None: True, b"x": [None]}),
        "set": lambda s: wctx(s).encode_object({None, True}),
        "error": lambda s: wctx(s).encode_object(err("TypeError", "m", "s")),
        "dense": lambda s: wctx(s).encode_object([None, [True]]),
        "buffer": lambda s: wctx(s).encode_object(b"abc"),
        "bigint": lambda s: s.write_bigint(2**70),
    }
    alone = {}
    for n, f in good.items():
        s = WritableTagStream()
        f(s)
        alone[n] = bytes(s.data)
    for seq in itertools.chain(((b,) for b in bad), itertools.product(bad, repeat=2)):
        for n, f in good.items():
            s = WritableTagStream()
            r.states += 1
            failed = [attempt(lambda: bad[b](s)) for b in seq]  # noqa: B023
            if any(x[0] == "ok" for x in failed):
                r.violation(f"stream: {seq}", f"not refused: {failed}")
                break
            at = s.pos
            got = attempt(lambda: f(s))  # noqa: B023
            r.transitions += 1
            if got[0] != "ok" or bytes(s.data[at:]) != alone[n]:
                r.violation(
                    f"stream: write {n} after {seq}", f"gives {got!r:.200} {bytes(s.data[at:])!r}, on a new stream {alone[n]!r}"
                )
            else:
                r.traces += 1
                r.outcomes["usable after refusal"] += 1
    # reading on
    for bn, bdata in STREAMS.items():
        if not bn.startswith("bad") or bn in ("bad: version", "bad: empty", "bad: deep"):
            continue
        for gn, gdata in STREAMS.items():
            if gn.startswith("bad"):
                continue
            want = attempt(lambda: facts(loads(gdata)))  # noqa: B023
            stream = ReadableTagStream(bdata)
            step = TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())
            ctx = DefaultDecodeContext(stream=stream, decode_steps=[step])
            stream.read_header()
            one = attempt(ctx.decode_object)
            # the same reader on another stream
            stream2 = ReadableTagStream(gdata)
            ctx2 = DefaultDecodeContext(stream=stream2, decode_steps=[step])
            stream2.read_header()
            two = attempt(lambda: facts(ctx2.decode_object()))  # noqa: B023
            r.states += 1
            r.transitions += 2
            if one[0] == "ok" or two != want:
                r.violation(f"stream: read {gn} after {bn}", f"gives {one!r:.100} {two!r:.300}, alone {want!r:.300}")
            else:
                r.traces += 1
                r.outcomes["usable after refusal"] += 1
    o  # noqa: B018


def globals_task(r):
    """The library's shared defaults stay what they are."""
    import sys

    state = (
        list(v8serialize.default_encode_steps), list(v8serialize.default_decode_steps), sys.getrecursionlimit(),
        list(warnings.filters),
    )  # fmt: skip
    env = Env()
    for n, f in all_ops().items():
        f(env)
        r.states += 1
        now = (
            list(v8serialize.default_encode_steps), list(v8serialize.default_decode_steps),
            sys.getrecursionlimit(), list(warnings.filters),
        )  # fmt: skip
        if now != state:
            r.violation(f"globals: {n}", "a call changed global settings")
            return
        r.traces += 1


def main(check):
    t = check.thorough
    check.bounds = {
        "histories": "all pairs of calls; all triples (thorough: quadruples of a core) of calls that fail or carry references",
        "re-entrancy": "every inner call at every point user code runs at, in every scenario",
        "threads": "all schedules with at most 1 preemption (quick) / 2 (thorough), at line granularity",
        "carriers": "every bytes-like type x every leaf in 3 positions, and every truncation of each",
    }
    check.assumptions = [
        "preemption happens between lines of the library (finer points inside of a line are not explored)",
        "non-contiguous memoryviews are outside of the property",
        "a stream that refused a composite value keeps what was written of it: only what follows is judged",
    ]
    ops = list(all_ops())
    core = list(all_ops(core=True))
    check.phase("pairs of calls", [(history_task, (c, 2, False)) for c in chunks(ops, 32)])
    check.phase("triples of calls", [(history_task, ([c], 3, True)) for c in core])
    check.phase("shared state", [(many_task, ()), (disjoint_task, ()), (globals_task, ()), (stream_task, ())])
    h = Hook()
    env = Env()
    check.phase(
        "re-entrant calls",
        [(reentrant_task, ("encode", s)) for s in encode_scenarios(env, h)]
        + [(reentrant_task, ("decode", s)) for s in decode_scenarios(env, h)],
    )
    leaves = [*gen.PRIMS, *gen.OBJECTS, *gen.HOST_ONLY, *gen.RESIZABLE]
    objects = [*gen.OBJECTS, *gen.HOST_ONLY, *gen.RESIZABLE]
    cases = [(f"{p}<{n}>", gen.place(p, n)) for n in objects for p in gen.POSITIONS]
    cases += list(gen.shape_cases(2, list(gen.CONTAINERS), 2))
    check.phase("inputs stay", [(unmodified_task, (x,)) for x in chunks(cases, 32)] + [(python_inputs_task, ())])
    positions = ["top", "list[1]", "jsmap key"] if not t else list(gen.POSITIONS)
    data = list(stream_corpus(leaves, positions)) + [(n, d) for n, d in STREAMS.items() if "deep" not in n]
    check.phase("types of input", [(carriers_task, (x, False)) for x in chunks(data, 32)])
    short = [x for x in data if len(x[1]) < (60 if t else 30)]
    check.phase("truncated input", [(carriers_task, (x, True)) for x in chunks(short, 32)])
    check.phase("results stay", [(write_back_task, (x,)) for x in chunks(data, 8)])
    names = list(thread_bodies())
    pairs = list(itertools.combinations_with_replacement(names, 2))
    check.phase("threads", [(thread_task, (a, b, (0, 1), 1)) for a, b in pairs])
    if t:
        small = [(a, b) for a, b in pairs if {a, b} <= {"decode object", "decode error", "decode host", "encode error", "encode failing"}]
        check.phase("threads, 2 preemptions", [(thread_task, (a, b, (i, 8), 2)) for a, b in small for i in range(8)])
