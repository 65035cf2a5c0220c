"""C07: unrepresentable values are refused, never written as a broken stream."""

from __future__ import annotations

import array
import collections
import copy
import dataclasses
import datetime
import decimal
import enum
import fractions
import ipaddress
import itertools
import pathlib
import re
import threading
import types
import uuid

from v8serialize import (
    DecodeV8SerializeError,
    Encoder,
    V8SerializeError,
    default_encode_steps,
    dumps,
    loads,
)
from v8serialize import UnhandledValueEncodeV8SerializeError
from v8serialize.constants import (
    JS_OBJECT_KEY_TAGS,
    ArrayBufferViewTag,
    JSRegExpFlag,
    SerializationFeature,
    SerializationTag,
)
from v8serialize.decode import TagReader
from v8serialize.encode import DefaultEncodeContext, TagWriter, WritableTagStream, serialize_object_references
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSArrayBufferTransfer,
    JSError,
    JSErrorData,
    JSHole,
    JSMap,
    JSObject,
    JSPrimitiveObject,
    JSRegExp,
    JSSet,
    JSSharedArrayBuffer,
    JSUndefined,
    create_view,
)
from v8serialize.jstypes._v8 import V8SharedObjectReference

from .. import gen, wire
from ..core import CaseTimeout, chunks, exc_summary, time_limit
from ..graph import build, describe_py, match


class Plain:
    def __repr__(self):
        return "<Plain>"


class NoHash:
    __hash__ = None


class BadEq:
    def __eq__(self, other):
        raise RuntimeError("no eq")

    def __hash__(self):
        return 5


class Colour(enum.Enum):
    RED = 1


class IntColour(enum.IntEnum):
    RED = 7


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


@dataclasses.dataclass
class Data:
    x: int = 1


Point = collections.namedtuple("Point", "x y")

# refused: no default step handles them
UNSUPPORTED = {
    "object": Plain, "no hash": NoHash, "complex": lambda: 1j, "date": lambda: datetime.date(2020, 1, 1),
    "time": lambda: datetime.time(1), "timedelta": lambda: datetime.timedelta(1), "Decimal": lambda: decimal.Decimal(1),
    "Fraction": lambda: fractions.Fraction(1, 2), "generator": lambda: (i for i in ()), "iter": lambda: iter([]),
    "function": lambda: (lambda: None), "type": lambda: int, "module": lambda: re, "Enum": lambda: Colour.RED,
    "Ellipsis": lambda: ..., "NotImplemented": lambda: NotImplemented, "dataclass": Data,
    "uuid": lambda: uuid.UUID(int=1), "path": lambda: pathlib.PurePosixPath("/x"), "slice": lambda: slice(1),
    "tag": lambda: wire.Parser(b""), "lock": threading.Lock, "ip": lambda: ipaddress.ip_address("1.1.1.1"),
    "f16 view": lambda: create_view(JSArrayBuffer(b"abcd"), ArrayBufferViewTag.kFloat16Array),
    "match": lambda: re.match("a", "a"), "bad eq": BadEq, "tzinfo": lambda: datetime.timezone.utc,
    "namespace": types.SimpleNamespace,
}  # fmt: skip
# refused for their value, or representable: either a good stream or an error
EDGE = {
    "datetime min": lambda: datetime.datetime.min, "datetime max": lambda: datetime.datetime.max,
    "datetime min utc": lambda: datetime.datetime.min.replace(tzinfo=datetime.timezone.utc),
    "datetime min +23": lambda: datetime.datetime.min.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=23))),
    "datetime max -23": lambda: datetime.datetime.max.replace(tzinfo=datetime.timezone(-datetime.timedelta(hours=23))),
    "bytes pattern": lambda: re.compile(b"ab"), "bad bytes pattern": lambda: re.compile(b"\xff"),
    "verbose": lambda: re.compile("a b", re.VERBOSE), "ascii": lambda: re.compile("a", re.ASCII),
    "locale": lambda: re.compile(b"a", re.LOCALE), "surrogate pattern": lambda: re.compile("\ud800"),
    "empty pattern": lambda: re.compile(""), "debug": lambda: re.compile("x", re.M | re.S | re.I),
    "shared -1": lambda: JSSharedArrayBuffer(-1), "shared 2**32": lambda: JSSharedArrayBuffer(2**32),
    "shared max": lambda: JSSharedArrayBuffer(2**32 - 1), "transfer 2**32": lambda: JSArrayBufferTransfer(2**32),
    "transfer -1": lambda: JSArrayBufferTransfer(-1), "sharedref 2**32": lambda: V8SharedObjectReference(2**32),
    "sharedref -1": lambda: V8SharedObjectReference(-1), "boxed 10**400": lambda: JSPrimitiveObject(10**400),
    "boxed 2**53": lambda: JSPrimitiveObject(2**53), "boxed -2**70": lambda: JSPrimitiveObject(-(2**70)),
    "10**400": lambda: 10**400, "-10**5000": lambda: -(10**5000), "2**53": lambda: 2**53, "-2**53": lambda: -(2**53),
    "int subclass": lambda: MyInt(5), "float subclass": lambda: MyFloat(0.5), "str subclass": lambda: MyStr("s"),
    "bytes subclass": lambda: MyBytes(b"s"), "IntEnum": lambda: IntColour.RED, "range": lambda: range(3),
    "big range": lambda: range(0, 10, 3), "deque": lambda: collections.deque([1, 2]), "dict keys": lambda: {1: 2}.keys(),
    "dict values": lambda: {1: 2}.values(), "dict items": lambda: {1: 2}.items(), "namedtuple": lambda: Point(1, 2),
    "OrderedDict": lambda: collections.OrderedDict(a=1), "Counter": lambda: collections.Counter("aab"),
    "ChainMap": lambda: collections.ChainMap({1: 2}, {3: 4}), "defaultdict": lambda: collections.defaultdict(int, a=1),
    "mappingproxy": lambda: types.MappingProxyType({1: 2}), "array": lambda: array.array("i", [1, -2]),
    "array d": lambda: array.array("d", [1.5]), "UserDict": lambda: collections.UserDict(a=1),
    "UserList": lambda: collections.UserList([1]), "memoryview i": lambda: memoryview(array.array("i", [1, 2])),
    "memoryview 2d": lambda: memoryview(bytes(6)).cast("B", [2, 3]), "memoryview step": lambda: memoryview(b"abcdef")[::2],
    "view of array": lambda: create_view(array.array("I", [1, 2]), ArrayBufferViewTag.kInt16Array),
    "view of mv": lambda: create_view(memoryview(b"abcd"), ArrayBufferViewTag.kInt16Array),
    "error msg": lambda: JSErrorData(message="a\ud800"), "error odd name": lambda: JSErrorData(name="Nope"),
    "error odd msg": lambda: JSError("x"), "exception": lambda: ValueError("x"), "group": lambda: ExceptionGroup("g", [ValueError(1)]),
    "KeyboardInterrupt": KeyboardInterrupt, "exception bad str": lambda: BadStr(), "hole": lambda: JSHole,
    "undefined": lambda: JSUndefined, "re flags": lambda: JSRegExp("a", JSRegExpFlag(511 & ~16)), "re odd flags": lambda: JSRegExp("a", JSRegExpFlag(0)),
    "jserror cause self": lambda: self_cause(),
    "tuple of list": lambda: ([1], [1]), "nested tuple": lambda: ((1, 1.0, True), (True, 1, 1.0)),
    "surrogate key": lambda: JSObject([("\ud800", 1)]), "long key": lambda: JSObject([("9" * 5000, 1)]),
    "recursive dict": lambda: recursive(), "bool": lambda: True,
}  # fmt: skip


def self_cause():
    e = JSErrorData(message="m")
    e.cause = [e]
    return e


def recursive():
    d = {}
    d["d"] = d
    return d


class BadStr(Exception):
    def __str__(self):
        return "odd \ud800 message"


WRAPS = {
    "top": lambda x: x, "list": lambda x: [1, x, 2], "tuple": lambda x: (x, x), "dict value": lambda x: {"k": x},
    "jsmap key": lambda x: JSMap([(x, 1)]), "jsmap value": lambda x: JSMap([(1, x)]), "jsset": lambda x: JSSet([x]),
    "jsobject": lambda x: JSObject([("a", 1), ("b", x)]), "jsarray": lambda x: JSArray([1, x, JSHole]),
    "jsarray prop": lambda x: JSArray([1], **{"p": x}), "cause": lambda x: JSErrorData(message="m", cause=x),
    "jserror cause": lambda x: JSError("m", cause=x), "deep": lambda x: [{"a": JSMap([(1, JSObject([("x", (x,))]))])}],
    "after object": lambda x: [{}, re.compile("a"), x, {}],
}  # fmt: skip
# values that a generic container can hold but the streams of holes are a known finding
ENCODERS = {
    "default": {},
    "no references": {"encode_steps": [TagWriter()]},
    "no steps": {"encode_steps": []},
    "references only": {"encode_steps": [serialize_object_references]},
}


def code_for(name, wrap, enc):
    return (
        "import sys; sys.path.insert(0, '/verif')\nfrom mc.checks.c07 import *\n"
        f"v = WRAPS[{wrap!r}]({{**UNSUPPORTED, **EDGE}}[{name!r}]())\nprint(dumps(v, **ENCODERS[{enc!r}]).hex())"
    )


def values_task(r, names):
    for n in names:
        for w, wrap in WRAPS.items():
            for e, options in ENCODERS.items():
                if e == "no references" and n in ("recursive dict", "jserror cause self"):
                    continue
                one_value(r, n, w, wrap, e, options)
        r.sample(n, 2)


def one_value(r, n, w, wrap, e, options):
    x = (UNSUPPORTED.get(n) or EDGE[n])()
    v = wrap(x)
    key = f"{w}<{n}> {e}"
    code = code_for(n, w, e)
    r.states += 1
    for api in ("dumps", "Encoder"):
        try:
            with time_limit(20):
                data = dumps(v, **options) if api == "dumps" else bytes(Encoder(**options).encode(v))
        except CaseTimeout:
            r.violation(key, "did not terminate", code)
            return
        except UnhandledValueEncodeV8SerializeError as err:
            r.transitions += 1
            r.outcomes["unhandled"] += 1
            if n in UNSUPPORTED and e in ("default", "no references"):
                if err.value is not x:
                    r.violation(key, f"the error carries {err.value!r}, not the offending value", code)
            elif e in ("no steps", "references only"):
                if err.value is not v and not (err.value == v and type(err.value) is type(v)):
                    r.violation(key, f"the error carries {err.value!r}, not the value", code)
            elif n not in UNSUPPORTED:
                r.outcomes[f"unhandled {n}"] += 1
            continue
        except V8SerializeError as err:
            r.transitions += 1
            r.outcomes[type(err).__name__] += 1
            if n in UNSUPPORTED:
                r.violation(key, f"expected UnhandledValue..., got {exc_summary(err)}", code)
            continue
        except Exception as err:
            r.violation(key, f"raised {exc_summary(err)}", code)
            return
        r.transitions += 1
        if n in UNSUPPORTED:
            r.violation(key, f"unsupported value was written as {data.hex()}", code)
            return
        if e in ("no steps", "references only"):
            r.violation(key, f"a value no step handles was written as {data.hex()}", code)
            return
        if n == "hole":
            continue
        good_stream(r, key, data, code)


def good_stream(r, key, data, code):
    try:
        g, end, _ = wire.parse(data)
    except wire.Free:
        r.outcomes["free"] += 1
    except (wire.Reject, wire.Incomplete) as err:
        if "date" in str(err):
            return
        r.violation(key, f"malformed stream: {type(err).__name__} {err} {data.hex()[:300]}", code)
        return
    else:
        if end != len(data):
            r.violation(key, f"bytes after the value: {data.hex()[:300]}", code)
            return
    try:
        got = loads(data)
    except DecodeV8SerializeError as err:
        if "Date is not representable" in str(err):
            return  # dates within a day of the limits, in another time zone
        r.violation(key, f"the stream doesn't decode: {exc_summary(err)} {data.hex()[:300]}", code)
        return
    r.traces += 1
    r.outcomes["stream"] += 1
    del got


# -- keys -------------------------------------------------------------------------


class Items:
    """Written as an object/array with exactly these keys."""

    def __init__(self, kind, items):
        self.kind, self.items = kind, items


def write_items(value, /, ctx, next):
    if not isinstance(value, Items):
        return next(value)
    if value.kind == "object":
        ctx.stream.write_js_object(value.items, ctx, identity=value)
    elif value.kind == "dense":
        ctx.stream.write_js_array_dense([1, 2], ctx, properties=value.items, identity=value)
    else:
        ctx.stream.write_js_array_sparse(value.items, ctx, length=2**32 - 1, identity=value)


def keys_task(r, names):
    for n in names:
        for kind in ("object", "dense", "sparse"):
            for shared in (False, True):
                g = gen.Graph()
                g.root = gen.leaf(g, n)
                k = build(g)
                key = f"{kind} key {n} {'seen' if shared else ''}"
                code = (
                    "import sys; sys.path.insert(0, '/verif')\nfrom mc.checks.c07 import *\n"
                    f"g = gen.Graph(); g.root = gen.leaf(g, {n!r}); k = build(g)\n"
                    f"v = Items({kind!r}, [(k, 1), ('z', k)])\n"
                    f"print(dumps({'[k, v]' if shared else 'v'}, encode_steps=[write_items, *default_encode_steps]).hex())"
                )
                v = Items(kind, [(k, 1), ("z", k)])
                r.states += 1
                try:
                    data = dumps([k, v] if shared else v, encode_steps=[write_items, *default_encode_steps])
                except V8SerializeError as e:
                    r.outcomes[f"key refused: {type(e).__name__}"] += 1
                    r.transitions += 1
                    if kind != "object" and gen.PRIMS.get(n) == gen.S("length"):
                        continue  # V8 reads no array with such a property
                    if n in gen.PRIMS and gen.PRIMS[n][0] in ("int", "num", "str"):
                        r.violation(key, f"a valid key was refused: {exc_summary(e)}", code)
                    continue
                except Exception as e:
                    r.violation(key, f"raised {exc_summary(e)}", code)
                    continue
                r.transitions += 1
                if not (n.startswith(("boxed:str", "boxed:int", "boxed:0", "boxed:-", "boxed:1", "boxed:nan")) or (n in gen.PRIMS and gen.PRIMS[n][0] in ("int", "num", "str"))):
                    r.violation(key, f"an invalid property key was written: {data.hex()}", code)
                    continue
                if n.startswith("boxed"):
                    r.outcomes["boxed key"] += 1
                    continue
                good_stream(r, key, data, code)


# -- the stream API -----------------------------------------------------------------

NUMS = [-(2**70), -(2**32), -(2**31) - 1, -(2**31), -1, 0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**64, 2**1100]
STRS = ["", "a", "é", "λ", "😀", "\ud800"]
T = SerializationTag


class Buf:
    """A minimal AnyArrayBuffer."""

    def __init__(self, data=b"ab", max_byte_length=2, resizable=True):
        self.data, self.max_byte_length, self.resizable = data, max_byte_length, resizable


class View:
    def __init__(self, byte_offset=0, byte_length=0, view_tag=ArrayBufferViewTag.kUint8Array):
        self.byte_offset, self.byte_length, self.view_tag = byte_offset, byte_length, view_tag
        self.is_length_tracking = False
        self.is_backing_buffer_resizable = False


def short(n):
    return str(n) if abs(n) < 2**80 else f"~{n.bit_length()}b"


def resizable(s):
    s.features = SerializationFeature.ResizableArrayBuffers
    return s


def calls():
    """(name, function of (stream, ctx), expected root node/primitive or None if must be refused)."""
    out = []

    def add(name, fn, expect):
        out.append((name, fn, expect))

    for n in NUMS:
        add(f"write_int32({short(n)})", lambda s, c, n=n: s.write_int32(n), ("int", n) if -(2**31) <= n < 2**31 else None)
        add(f"write_uint32({short(n)})", lambda s, c, n=n: s.write_uint32(n), ("int", n) if 0 <= n < 2**32 else None)
        add(f"write_bigint({short(n)})", lambda s, c, n=n: s.write_bigint(n), ("big", n))
        if abs(n) < 2**1000:
            add(f"write_double({short(n)})", lambda s, c, n=n: s.write_double(n), gen.F(float(n)))
        else:
            add(f"write_double({n.bit_length()}b)", lambda s, c, n=n: s.write_double(n), None)
        ok = 0 <= n < 2**32
        add(f"shared({short(n)})", lambda s, c, n=n: s.write_js_array_buffer(JSSharedArrayBuffer(n)), "node" if ok else None)
        add(f"transfer({short(n)})", lambda s, c, n=n: s.write_js_array_buffer(JSArrayBufferTransfer(n)), "node" if ok else None)
        add(f"sharedref({short(n)})", lambda s, c, n=n: s.write_v8_shared_object_reference(V8SharedObjectReference(n)), "node" if ok else None)
        add(f"sparse length {short(n)}", lambda s, c, n=n: s.write_js_array_sparse([], c, length=n), "node" if 0 <= n <= 2**32 - 1 else None)
        add(f"reference {short(n)}", lambda s, c, n=n: s.write_object_reference(serialized_id=n), None)
        add(f"view offset {short(n)}", lambda s, c, n=n: (s.write_js_array_buffer(JSArrayBuffer(b"abcd")), s.write_js_array_buffer_view(View(n, 0))),
            "any" if 0 <= n < 2**32 else None)  # fmt: skip
        add(f"view length {short(n)}", lambda s, c, n=n: (s.write_js_array_buffer(JSArrayBuffer(b"abcd")), s.write_js_array_buffer_view(View(0, n))),
            "any" if 0 <= n < 2**32 else None)  # fmt: skip
        add(f"rab max {short(n)}", lambda s, c, n=n: resizable(s).write_js_array_buffer(Buf(b"abc", n)), "node" if 3 <= n < 2**32 else None)
        add(f"varint {short(n)}", lambda s, c, n=n: (s.write_tag(T.kUint32), s.write_varint(n)), "any" if n >= 0 else None)
    for x in STRS:
        def can(enc):
            try:
                x.encode(enc)
                return ("str", gen.S(x)[1])
            except UnicodeEncodeError:
                return None
        add(f"onebyte {x!a}", lambda s, c, x=x: s.write_string_onebyte(x), can("latin1"))
        add(f"twobyte {x!a}", lambda s, c, x=x: s.write_string_twobyte(x), ("str", gen.S(x)[1]))
        add(f"utf8 {x!a}", lambda s, c, x=x: s.write_string_utf8(x), can("utf8"))
        add(f"string {x!a}", lambda s, c, x=x: s.write_string(x), ("str", gen.S(x)[1]))
    for tag in T:
        const = {T.kUndefined: gen.UNDEF, T.kNull: gen.NULL, T.kTrue: gen.TRUE, T.kFalse: gen.FALSE, T.kTheHole: "any"}
        add(f"constant {tag.name}", lambda s, c, t=tag: s.write_constant(t), const.get(tag))
    add("reference to unseen", lambda s, c: s.write_object_reference(obj=Plain()), None)
    add("dense ambiguous", lambda s, c: s.write_js_array_dense([1], c, properties=[("a", 1)]), None)
    return out


def stream_task(r, part, parts):
    every = calls()
    prefixes = {
        "": lambda s, c: None,
        "after an object": lambda s, c: s.write_js_object([], c, identity=KEEP),
        "after a refused write": refused_write,
    }
    for name, fn, expect in every[part::parts]:
        for p, prefix in prefixes.items():
            stream = WritableTagStream()
            ctx = DefaultEncodeContext(stream=stream)
            stream.write_header()
            if p == "after an object":
                # [obj, X]: dense array of two
                stream.data.extend(b"A\x02")
                stream.objects.record_reference(KEEP2)
            prefix(stream, ctx)
            before = bytes(stream.data)
            if name.startswith("reference ") and p == "after an object" and name in ("reference 0", "reference 1"):
                want = "any"
            else:
                want = expect
            key = f"stream {p} {name}"
            code = f"import sys; sys.path.insert(0, '/verif')\nfrom mc.checks.c07 import *\n# {key}"
            r.states += 1
            try:
                with time_limit(20):
                    fn(stream, ctx)
            except CaseTimeout:
                r.violation(key, "did not terminate", code)
                continue
            except Exception as e:
                r.transitions += 1
                r.outcomes[f"refused {type(e).__name__}"] += 1
                if want is not None:
                    r.violation(key, f"refused: {exc_summary(e)}", code)
                    continue
                if not name.startswith(("view", "varint")) and decodes(bytes(stream.data)) and stream.data != before:
                    r.violation(key, f"a refused write left a stream that decodes: {stream.data.hex()}", code)
                continue
            r.transitions += 1
            if want is None:
                r.violation(key, f"out of range write was accepted: {stream.data.hex()[:200]}", code)
                continue
            data = bytes(stream.data)
            if p == "after an object":
                data += b"$\x00\x02"
            if want == "any":
                continue
            try:
                g, end, _ = wire.parse(data)
            except wire.Free:
                continue
            except Exception as e:
                r.violation(key, f"malformed: {exc_summary(e)} {data.hex()[:200]}", code)
                continue
            if end != len(data):
                r.violation(key, f"bytes left over: {data.hex()[:200]}", code)
                continue
            got = g.root
            if p == "after an object":
                els = dict(g.nodes[g.root[1]][2])
                got = els.get(1)
            if want != "node" and got != want and not (want[0] == "int" and got == want):
                r.violation(key, f"wrote {got}, expected {want}: {data.hex()[:200]}", code)
                continue
            r.traces += 1


KEEP, KEEP2 = [], []


def decodes(data):
    try:
        loads(data)
        return True
    except V8SerializeError:
        return False


def refused_write(s, c):
    for bad in (
        lambda: s.write_int32(2**40), lambda: s.write_uint32(-1), lambda: s.write_string_onebyte("λ"),
        lambda: s.write_object_reference(serialized_id=3), lambda: s.write_object_reference(obj=Plain()),
        lambda: s.write_js_array_sparse([], c, length=-1), lambda: s.write_constant(T.kInt32),
        lambda: s.write_js_date(datetime.datetime.min.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=23))))
        if False else s.write_uint32(2**32),
    ):  # fmt: skip
        try:
            bad()
        except Exception:
            pass


def constrained_task(r):
    """Only tags allowed by a constraint are written while it's in force."""
    for name, fn, _ in calls():
        stream = WritableTagStream()
        ctx = DefaultEncodeContext(stream=stream)
        before = bytes(stream.data)
        key = f"constrained {name}"
        r.states += 1
        try:
            with stream.constrain_tags(JS_OBJECT_KEY_TAGS):
                fn(stream, ctx)
        except Exception:
            r.transitions += 1
            r.outcomes["constraint refused"] += 1
            if stream.data and stream.data[0] not in KEY_TAGS:
                r.violation(key, f"a tag that isn't allowed was written: {stream.data.hex()}", "")
        else:
            r.transitions += 1
            first = stream.data.lstrip(b"\0")[:1]
            if first and first[0] not in KEY_TAGS:
                r.violation(key, f"a tag that isn't allowed was written: {stream.data.hex()}", "")
        # the constraint ends with its context
        stream2 = WritableTagStream()
        try:
            with stream2.constrain_tags(JS_OBJECT_KEY_TAGS):
                raise KeyError
        except KeyError:
            pass
        stream2.write_constant(T.kTrue)
        if bytes(stream2.data) != b"T":
            r.violation("constraint ends", "a constraint outlived its context", "")
    del before


KEY_TAGS = set(b'IUN"cS')


def object_calls():
    """Calls that write an object (and give it an id), or part of one before refusing."""
    out = []
    bad = Plain()
    items = {"": [], "1": [("a", 1)], "bad value": [("a", bad)], "bad key": [(bad, 1)], "bool key": [(True, 1)], "None key": [(None, 1)]}
    for n, i in items.items():
        out.append((f"js_object {n}", lambda s, c, i=i: s.write_js_object(i, c, identity=[])))
        out.append((f"dense {n}", lambda s, c, i=i: s.write_js_array_dense([1], c, properties=i, identity=[])))
        out.append((f"sparse {n}", lambda s, c, i=i: s.write_js_array_sparse(i, c, length=5, identity=[])))
        out.append((f"jsmap {n}", lambda s, c, i=i: s.write_jsmap(i, c, identity=[])))
        out.append((f"jsset {n}", lambda s, c, i=i: s.write_jsset([v for _, v in i], c, identity=[])))
    for n, x in {"good": datetime.datetime(2000, 1, 1), "aware": datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc)}.items():
        out.append((f"date {n}", lambda s, c, x=x: s.write_js_date(x, identity=[])))
    for n, x in {"true": True, "str": "a", "wide": "λ", "1.5": 1.5, "int": 7, "big": 2**70, "10**400": 10**400}.items():
        out.append((f"boxed {n}", lambda s, c, x=x: s.write_js_primitive_object(JSPrimitiveObject(x), identity=[])))
    for n, x in {"a": JSRegExp("a"), "wide": JSRegExp("λ")}.items():
        out.append((f"regexp {n}", lambda s, c, x=x: s.write_js_regexp(x, identity=[])))
    for n, x in {"none": JSErrorData(), "all": JSErrorData("m", stack="s", cause=1), "bad": JSErrorData("m", cause=bad)}.items():
        out.append((f"error {n}", lambda s, c, x=x: s.write_js_error(x, c, identity=[])))
    for n, x in {"plain": JSArrayBuffer(b"ab"), "resizable": JSArrayBuffer(b"ab", max_byte_length=4)}.items():
        out.append((f"buffer {n}", lambda s, c, x=x: s.write_js_array_buffer(x, identity=[])))
    out.append(("rab small", lambda s, c: resizable(s).write_js_array_buffer(Buf(b"abc", 2), identity=[])))
    out.append(("rab", lambda s, c: resizable(s).write_js_array_buffer(Buf(b"abc", 3), identity=[])))
    out.append(("host", lambda s, c: s.write_host_object(b"x", lambda stream, value: stream.data.extend(b"\1\1" + value), identity=[])))
    out.append(("host refused", lambda s, c: s.write_host_object(b"x", raising, identity=[])))
    out.append(("f16", lambda s, c: (s.write_js_array_buffer(JSArrayBuffer(b"ab"), identity=[]), s.write_js_array_buffer_view(View(0, 2, ArrayBufferViewTag.kFloat16Array), identity=[]))))
    out.append(("u8", lambda s, c: (s.write_js_array_buffer(JSArrayBuffer(b"ab"), identity=[]), s.write_js_array_buffer_view(View(0, 2), identity=[]))))
    return out


def raising(stream, value):
    raise ZeroDivisionError


def pairs_task(r, part, parts):
    """Two calls, refused or not, in an array, then an object and a reference to it."""
    one = [(n, f) for n, f, _ in calls() if not n.startswith(("varint", "constant", "view", "reference"))] + object_calls()
    for n1, f1 in one[part::parts]:
        for n2, f2 in one:
            stream = WritableTagStream()
            ctx = DefaultEncodeContext([serialize_object_references, TagWriter()], stream=stream)
            stream.write_header()
            stream.objects.record_reference(KEEP2)
            written = 0
            body = len(stream.data)
            spoilt = False
            for f in (f1, f2):
                before = bytes(stream.data)
                try:
                    f(stream, ctx)
                except Exception:
                    if stream.data != before:
                        spoilt = True
                        break
                else:
                    written += 1
            r.states += 1
            if spoilt:
                r.outcomes["refused, after a part was written"] += 1
                continue
            key = f"pair {n1}, {n2}"
            try:
                k = []
                stream.write_js_object([], ctx, identity=k)
                stream.write_object_reference(obj=k)
                data = bytes(stream.data)
            except Exception as e:
                r.violation(key, f"an object and a reference to it after them raised {exc_summary(e)}", "")
                continue
            r.transitions += 3
            total = written + 2
            data = data[:body] + bytes([ord("A"), total]) + data[body:] + bytes([ord("$"), 0, total])
            try:
                v = loads(data, decode_steps=[TagReader(host_object_deserializer=lambda *, stream: stream.read_bytes(3))])
            except Exception as e:
                r.violation(key, f"wrote {data.hex()}, which doesn't decode: {exc_summary(e)}", "")
                continue
            if v[total - 1] is not v[total - 2] or type(v[total - 1]) is not JSObject:
                r.violation(key, f"wrote {data.hex()}, a reference in it is to {v[total - 1]!r}", "")
                continue
            r.traces += 1
            r.outcomes[f"{written} written"] += 1


def mixed_task(r, names, others):
    """One unsupported value among others: nothing is returned."""
    for n in names:
        for m in others:
            g = gen.Graph()
            g.root = gen.leaf(g, m)
            x = UNSUPPORTED[n]()
            y = build(g)
            for shape, v in {"[y, x]": [y, x], "[x, y]": [x, y], "{y: [x]}": JSMap([(y, [x])]), "[y, y, x]": [y, y, x]}.items():
                r.states += 1
                key = f"mixed {shape} {n} {m}"
                try:
                    data = dumps(v)
                except UnhandledValueEncodeV8SerializeError as e:
                    r.transitions += 1
                    if e.value is not x:
                        r.violation(key, f"the error carries {e.value!r}", "")
                except Exception as e:
                    r.violation(key, f"raised {exc_summary(e)}", "")
                else:
                    r.violation(key, f"written: {data.hex()}", "")


def main(check):
    t = check.thorough
    names = [*UNSUPPORTED, *EDGE]
    check.phase("odd values", [(values_task, (c,)) for c in chunks(names, 32)])
    leaves = [*gen.PRIMS, *gen.OBJECTS, *gen.HOST_ONLY, *gen.RESIZABLE]
    check.phase("keys", [(keys_task, (c,)) for c in chunks(leaves, 32)])
    check.phase("stream calls", [(stream_task, (p, 16)) for p in range(16)] + [(constrained_task, ())])
    check.phase("pairs of stream calls", [(pairs_task, (p, 32)) for p in range(32)])
    check.phase("mixed", [(mixed_task, (c, [*gen.OBJECTS] if t else [*gen.OBJECTS][::2])) for c in chunks(UNSUPPORTED, 24)])
    check.bounds = {"values": len(names), "positions": len(WRAPS), "step lists": len(ENCODERS), "stream calls": len(calls())}
    check.assumptions = ["a hole outside an array is a known finding of C03 and not judged here"]


copy, itertools, describe_py, match  # noqa: B018
