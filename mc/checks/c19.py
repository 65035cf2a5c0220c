"""C19: encode and decode steps compose as documented."""

from __future__ import annotations

import io
import itertools
import struct
from datetime import datetime, timedelta, timezone

from v8serialize import Decoder, Encoder, SerializationFeature, default_decode_steps, default_encode_steps, dumps, loads
from v8serialize.jstypes._v8 import V8SharedObjectReference
from v8serialize.constants import JS_ARRAY_BUFFER_TAGS, JS_CONSTANT_TAGS, JS_OBJECT_KEY_TAGS, SerializationTag, TagConstraint
from v8serialize import UnhandledTagDecodeV8SerializeError, UnhandledValueEncodeV8SerializeError
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream, TagReader, TagReaderRegistry
from v8serialize.encode import (
    DefaultEncodeContext,
    TagWriter,
    WritableTagStream,
    serialize_object_references,
)
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSError,
    JSErrorData,
    JSHole,
    JSMap,
    JSObject,
    JSPrimitiveObject,
    JSRegExp,
    JSSet,
    JSTypedArray,
    JSUint8Array,
    JSUndefined,
)

from ..core import chunks, exc_summary

T = SerializationTag
PRE = "import sys; sys.path.insert(0, '/verif')\nfrom mc.checks.c19 import *\n"


class Boom(Exception):
    pass


class Mark:
    """A value that nothing handles by default."""

    def __init__(self, n=0):
        self.n = n

    def __repr__(self):
        return f"Mark({self.n})"


class Bad(Exception):
    """A step saw something it must not."""


# -- A: encode steps -----------------------------------------------------------

# Behaviours of a step: what it does with (value, model or real `next`, `again`).
# All are written once, against an abstract interface, so that the model and
# the implementation run the same steps; only what connects them differs.


def b_pass(v, i, nxt, again, write):
    return nxt(v)


def b_sub(v, i, nxt, again, write):
    return nxt(f"sub{i}" if isinstance(v, Mark) else v)


def b_chain(v, i, nxt, again, write):
    """Counts down: several of these in a row each see the predecessor's value."""
    return nxt(Mark(v.n + 1) if isinstance(v, Mark) else v)


def b_handle(v, i, nxt, again, write):
    return write(f"handled{i}") if isinstance(v, Mark) else nxt(v)


def b_again(v, i, nxt, again, write):
    return again([f"again{i}"]) if isinstance(v, Mark) and v.n == 0 else nxt(v)


def b_fail(v, i, nxt, again, write):
    if isinstance(v, Mark):
        raise Boom(i)
    return nxt(v)


def b_catch(v, i, nxt, again, write):
    if not isinstance(v, Mark):
        return nxt(v)
    try:
        return nxt(v)
    except UnhandledValueEncodeV8SerializeError as e:
        return write(f"caught{i} {e.value!r}")


def b_contain(v, i, nxt, again, write):
    return nxt(JSObject(m=Mark(1), n=v.n)) if isinstance(v, Mark) and not v.n else nxt(v)


def b_reverse(v, i, nxt, again, write):
    return nxt(v[::-1] if type(v) is list else v)


def b_rename(v, i, nxt, again, write):
    return nxt("K" if type(v) is str and v == "k" else v)


ENCODE = {f.__name__[2:]: f for f in (b_pass, b_sub, b_chain, b_handle, b_again, b_fail, b_catch, b_contain, b_reverse, b_rename)}
TAILS = {"refs+writer": ["refs", "writer"], "writer": ["writer"], "none": [], "writer+catch": ["writer", "catch"], "refs": ["refs"]}


def shared():
    x = [Mark()]
    return JSObject(k=x, l=x)


def shape_sparse():
    a = JSArray()
    a[40] = Mark()
    a["k"] = [Mark()]
    return a


def shape_dense():
    a = JSArray([1, Mark(), JSHole])
    a["k"] = Mark()
    return a


E_SHAPES = {
    "mark": Mark, "int": lambda: 5, "str": lambda: "k", "none": lambda: None, "list": lambda: ["a", Mark(), "k"],
    "tuple": lambda: (Mark(), 1), "object": lambda: JSObject([("k", Mark()), ("l", 1)]), "int key": lambda: JSObject([(3, "k"), ("k", Mark())]),
    "map": lambda: JSMap([("k", Mark()), ("x", "k")]), "map mark key": lambda: JSMap([(Mark(), "k")]), "dict": lambda: {"k": [1, "k"], "z": Mark()},
    "set": lambda: JSSet(["k", Mark()]), "dense": shape_dense, "sparse": shape_sparse, "cause": lambda: JSErrorData(message="k", cause=[Mark(), 1]),
    "error": lambda: JSErrorData(name="TypeError", message="k", stack="k"), "deep": lambda: [JSObject(k=JSMap([("q", JSSet([(1, [Mark(), "k"])]))]))],
    "two": lambda: [Mark(), Mark(7)], "shared": shared, "wrapped": lambda: [JSPrimitiveObject("k"), JSPrimitiveObject(5.5)],
    "regexp": lambda: [JSRegExp("k"), Mark()], "buffer": lambda: [JSArrayBuffer(b"k"), JSUint8Array(JSArrayBuffer(b"zk"), 1)],
    "nested list": lambda: [[["k", Mark()], 2], 3],
}  # fmt: skip


def label(v):
    if isinstance(v, (Mark, str, int, float)) or v in (None, JSHole, JSUndefined):
        return repr(v)
    return type(v).__name__


def parts(v):
    """(how to make the normal form from parts', the values that are encoded for v, in order)."""
    if isinstance(v, JSArray):
        items, props = list(v.array), list(v.properties.items())
        if len(items) > 20:  # written sparse
            n = len(items)
            flat = [x for kv in v.items() for x in kv]
            return lambda ps: ("arr", n, tuple(zip(map(prop, ps[::2]), ps[1::2]))), flat
        flat = [*items, *(x for kv in props for x in kv)]
        k = len(items)
        return lambda ps: ("arr", k, (*((str(i), p) for i, p in enumerate(ps[:k]) if p != "JSHole"), *zip(map(prop, ps[k::2]), ps[k + 1 :: 2]))), flat
    if isinstance(v, JSObject):
        return lambda ps: ("obj", tuple(zip(map(prop, ps[::2]), ps[1::2]))), [x for kv in v.items() for x in kv]
    if isinstance(v, (dict, JSMap)):
        return lambda ps: ("map", tuple(zip(ps[::2], ps[1::2]))), [x for kv in v.items() for x in kv]
    if isinstance(v, JSSet):
        return lambda ps: ("set", tuple(ps)), list(v)
    if isinstance(v, (list, tuple)):
        n = len(v)
        return lambda ps: ("arr", n, tuple((str(i), p) for i, p in enumerate(ps) if p != "JSHole")), list(v)
    if isinstance(v, JSErrorData):
        if v.cause is None:
            return lambda ps: ("err", str(v.name), v.message, v.stack, None), []
        return lambda ps: ("err", str(v.name), v.message, v.stack, ps[0]), [v.cause]
    if isinstance(v, JSUint8Array):
        with v.get_buffer_as_memoryview() as m:
            data = bytes(m)
        return lambda ps: ("view", type(v).__name__, v.byte_offset, data, *ps), [v.backing_buffer]
    return None


def prop(k):
    """A normal form of a key."""
    return k.strip("'")


def nf_leaf(v):
    if isinstance(v, JSPrimitiveObject):
        return nf_leaf(v.value)
    if isinstance(v, JSArrayBuffer):
        return ("buffer", bytes(v.data))
    if isinstance(v, JSRegExp):
        return ("re", v.source, int(v.flags))
    return repr(float(v)) if isinstance(v, int) and not -(2**31) <= v < 2**32 else repr(v)


def nf(v):
    """The normal form of a loaded value."""
    p = parts(v)
    return p[0]([nf(x) for x in p[1]]) if p else nf_leaf(v)


class EncodeModel:
    def __init__(self, names):
        self.names = names
        self.log = []
        self.seen = {}

    def run(self, v, i=0):
        if i == len(self.names):
            e = UnhandledValueEncodeV8SerializeError("model", value=v)
            raise e
        name = self.names[i]
        self.log.append((i, label(v)))
        if name == "refs":
            if id(v) in self.seen:
                return self.seen[id(v)][1]
            return self.run(v, i + 1)
        if name == "writer":
            p = parts(v)
            if isinstance(v, Mark):
                return self.run(v, i + 1)
            form = p[0]([self.run(x) for x in p[1]]) if p else nf_leaf(v)
            if p or isinstance(v, (JSPrimitiveObject, JSArrayBuffer, JSRegExp)):
                self.seen[id(v)] = (v, form)
            return form
        return ENCODE[name](v, i, lambda v: self.run(v, i + 1), self.run, repr)


def encode_real(names, value, style, iterable=list):
    """Run the real thing: (outcome, log, problem)."""
    log, steps, problems = [], [], []
    passed = {}  # step -> value that its predecessor passed
    first_ctx = []

    def wrap(i, inner):
        def step(value, /, ctx, next):
            log.append((i, label(value)))
            if i in passed and passed.pop(i) is not value:
                problems.append(f"step {i} got another object than was passed to next()")
            if not first_ctx:
                first_ctx.append(ctx)
            elif first_ctx[0] is not ctx:
                problems.append(f"step {i} got another context")

            def nxt(v):
                passed[i + 1] = v
                return next(v)

            return inner(value, ctx, nxt)

        if style == "fn":
            return step
        if style == "attr":
            o = type("StepObject", (), {})()
            o.encode = step
            return o

        class Step:
            def encode(self, value, /, ctx, next):
                return step(value, ctx=ctx, next=next)

        return Step()

    for i, n in enumerate(names):
        if n == "refs":
            steps.append(wrap(i, lambda v, ctx, nxt: serialize_object_references(v, ctx=ctx, next=nxt)))
        elif n == "writer":
            w = TagWriter()
            steps.append(wrap(i, lambda v, ctx, nxt, w=w: w.encode(v, ctx=ctx, next=nxt)))
        else:
            steps.append(wrap(i, lambda v, ctx, nxt, i=i, n=n: ENCODE[n](v, i, nxt, ctx.encode_object, ctx.stream.write_string)))
    try:
        data = dumps(value, encode_steps=iterable(steps))
    except UnhandledValueEncodeV8SerializeError as e:
        out = ("unhandled", label(e.value))
    except Boom as e:
        out = ("boom", e.args)
    except Exception as e:
        out = ("raised", exc_summary(e))
    else:
        try:
            out = ("value", nf(loads(data)))
        except Exception as e:
            out = ("unreadable", exc_summary(e))
    return out, log, problems


def encode_case(r, names, sname, style="fn", iterable=list):
    value = E_SHAPES[sname]()
    m = EncodeModel(names)
    try:
        want = ("value", m.run(value))
    except UnhandledValueEncodeV8SerializeError as e:
        want = ("unhandled", label(e.value))
    except Boom as e:
        want = ("boom", e.args)
    got, log, problems = encode_real(names, value, style, iterable)
    r.states += 1
    r.transitions += len(log)
    r.outcomes[f"encode: {got[0]}"] += 1
    if got != want:
        problems.append(f"gave {got}, expected {want}")
    if log != m.log:
        problems.append(f"steps saw {log}, expected {m.log}")
    if problems:
        r.violation(f"encode: {sname} steps {names} as {style}", "; ".join(problems),
                    f"{PRE}print(encode_real({names!r}, E_SHAPES[{sname!r}](), {style!r}))")  # fmt: skip
    else:
        r.traces += 1


def encode_task(r, seqs):
    for seq in seqs:
        for tail in TAILS.values():
            names = [*seq, *tail]
            if "contain" in seq and "again" in seq:
                continue  # each is the other's trigger: doesn't end
            if any(n == "contain" for n in seq) and "writer" not in tail and "writer" not in seq:
                pass
            for s in E_SHAPES:
                encode_case(r, names, s, "fn")
                encode_case(r, names, s, "object" if len(seq) % 2 else "attr")


def encode_edges_task(r):
    # no steps at all, for everything
    for s, make in E_SHAPES.items():
        for how, f in {
            "dumps": lambda v: dumps(v, encode_steps=[]), "Encoder": lambda v: Encoder(encode_steps=()).encode(v),
            "context": lambda v: DefaultEncodeContext([], stream=WritableTagStream()).encode_object(v),
        }.items():  # fmt: skip
            r.states += 1
            v = make()
            try:
                f(v)
            except UnhandledValueEncodeV8SerializeError as e:
                if e.value is not v:
                    r.violation(f"no encode steps: {how} {s}", f"the error names {e.value!r}")
                r.traces += 1
            except Exception as e:
                r.violation(f"no encode steps: {how} {s}", f"raised {exc_summary(e)}")
            else:
                r.violation(f"no encode steps: {how} {s}", "accepted")
    # None and no argument mean the defaults, iterables of all kinds are accepted and can be reused
    calls = []

    def step(value, /, ctx, next):
        calls.append(value)
        next(value)

    steps = [step, *default_encode_steps]
    for s, make in E_SHAPES.items():
        v = make()

        def result(f):
            try:
                return bytes(f())
            except UnhandledValueEncodeV8SerializeError as e:
                return (label(e.value),)

        base = result(lambda: dumps(v))
        calls.clear()
        with_step = result(lambda: dumps(v, encode_steps=steps))
        seen = len(calls)
        ways = {
            "None": lambda: dumps(v, encode_steps=None), "default": lambda: dumps(v, encode_steps=default_encode_steps), "Encoder": lambda: Encoder().encode(v),
            "Encoder None": lambda: Encoder(encode_steps=None).encode(v), "Encoder reused": lambda e=Encoder(encode_steps=iter(steps)): (result(lambda: e.encode(v)), e.encode(v))[1],
            "tuple": lambda: dumps(v, encode_steps=tuple(steps)), "iterator": lambda: dumps(v, encode_steps=iter(steps)),
            "generator": lambda: dumps(v, encode_steps=(x for x in steps)), "dict keys": lambda: dumps(v, encode_steps=dict.fromkeys(map(Hashed, steps))),
        }  # fmt: skip
        for how, f in ways.items():
            r.transitions += 1
            calls.clear()
            got = result(f)
            want_calls = {"None": 0, "default": 0, "Encoder": 0, "Encoder None": 0, "Encoder reused": 2 * seen}.get(how, seen)
            if got != base or with_step != base:
                r.violation(f"encode steps as {how}: {s}", f"gave {got!r}, expected {base!r}")
            elif len(calls) != want_calls:
                r.violation(f"encode steps as {how}: {s}", f"a step ran {len(calls)} times, expected {want_calls}")
            else:
                r.traces += 1
    if len(default_encode_steps) != 2:
        r.violation("default_encode_steps", "changed")


class Hashed:
    """A step that's hashable by identity whatever it wraps."""

    def __init__(self, step):
        self.step = step

    def encode(self, value, /, ctx, next):
        return self.step(value, ctx=ctx, next=next) if callable(self.step) else self.step.encode(value, ctx=ctx, next=next)

    def decode(self, tag, /, ctx, next):
        return self.step(tag, ctx=ctx, next=next) if callable(self.step) else self.step.decode(tag, ctx=ctx, next=next)


# -- B: decode steps -----------------------------------------------------------


def vi(n):
    out = bytearray()
    while True:
        out.append(n & 127 | (128 if n > 127 else 0))
        n >>= 7
        if not n:
            return bytes(out)


def st(s):
    return b'"' + vi(len(s)) + s.encode("latin1")


# a stream spec: (tag, how the bytes go on, children) where the children are specs
def I(n):  # noqa: E743
    return ("kInt32", b"I" + vi((n << 1) ^ (n >> 31)), n)


def S(s):
    return ("kOneByteString", st(s), s)


CONST = {"kTrue": (b"T", True), "kFalse": (b"F", False), "kUndefined": (b"_", JSUndefined), "kNull": (b"0", None), "kTheHole": (b"-", JSHole)}


def C(tag):
    return (tag, *CONST[tag])


def SEQ(tag, start, children, end, make):
    return (tag, start, children, end, make)


def OBJ(*kids):
    return SEQ("kBeginJSObject", b"o", kids, b"{" + vi(len(kids) // 2), lambda ps: ("obj", pairs(ps)))


def pairs(ps):
    d = {}
    for k, v in zip(ps[::2], ps[1::2]):
        d[str(k)] = v
    return tuple(sorted(d.items()))


def length(n, keys):
    """Steps may have made other indexes."""
    return max([n, *(k + 1 for k in keys if isinstance(k, int))])


def ARR(items, *kids):
    n = len(items)
    return SEQ("kBeginDenseJSArray", b"A" + vi(n), (*items, *kids), b"$" + vi(len(kids) // 2) + vi(n),
               lambda ps: ("arr", length(n, ps[n::2]), pairs([x for kv in enumerate(ps[:n]) for x in kv if kv[1] is not JSHole] + list(ps[n:]))))  # fmt: skip


def SPARSE(n, *kids):
    return SEQ("kBeginSparseJSArray", b"a" + vi(n), kids, b"@" + vi(len(kids) // 2) + vi(n), lambda ps: ("arr", length(n, ps[::2]), pairs(ps)))


def MAP(*kids):
    return SEQ("kBeginJSMap", b";", kids, b":" + vi(len(kids)), lambda ps: ("map", tuple(zip(ps[::2], ps[1::2]))))


def SET(*kids):
    return SEQ("kBeginJSSet", b"'", kids, b"," + vi(len(kids)), lambda ps: ("set", tuple(ps)))


def ERR(message, cause):
    m, c = ([message] if message else []), ([cause] if cause else [])
    return ("kError", b"r", [(b"m", x) for x in m] + [(b"c", x) for x in c], b".",
            lambda ps: ("err", ps[0] if m else "", ps[-1] if c else None), "marked")  # fmt: skip


def RE(source):
    return ("kRegExp", b"R", [(b"", source)], vi(2), lambda ps: ("re", ps[0], 2), "marked")


def LEAF(tag, data, value):
    return (tag, data, value)


def REF(n):
    return ("kObjectReference", b"^" + vi(n), ("reference", n))


D_SHAPES = {
    "int": I(5), "string": S("a"), "true": C("kTrue"), "null": C("kNull"), "undefined": C("kUndefined"),
    "double": LEAF("kDouble", b"N" + struct.pack("<d", 1.5), 1.5), "bigint": LEAF("kBigInt", b"Z\x02\x07", 7), "uint": LEAF("kUint32", b"U\x07", 7),
    "object": OBJ(S("a"), I(1), I(2), C("kNull"), S("b"), S("x")), "array": ARR([I(1), C("kTheHole"), S("q")], S("p"), C("kTrue")),
    "sparse": SPARSE(9, I(3), S("v"), S("p"), I(4)), "map": MAP(I(1), S("v"), S("k"), C("kUndefined")), "set": SET(I(1), S("a"), C("kTrue")),
    "error": ERR(S("msg"), ARR([I(1)])), "error without message": ERR(None, C("kUndefined")), "bare error": ERR(S("m"), None), "regexp": RE(S("x+")),
    "number object": LEAF("kNumberObject", b"n" + struct.pack("<d", 2.0), 2.0), "true object": LEAF("kTrueObject", b"y", True),
    "deep": ARR([OBJ(S("a"), MAP(S("k"), SET(ARR([I(1), C("kNull")]), I(2)))), C("kTrue")]), "shared object": LEAF("kSharedObject", b"p\x03", V8SharedObjectReference(3)),
    "shared": ARR([OBJ(S("a"), I(1)), REF(1), SET(I(3)), REF(2)]), "mix": OBJ(S("a"), SET(C("kTrue"), I(9)), S("b"), ERR(S("m"), MAP(I(1), C("kUndefined")))),
}  # fmt: skip


def to_bytes(spec):
    tag, data = spec[:2]
    if len(spec) == 3:
        return data
    kids = spec[2]
    if len(spec) == 6:
        return data + b"".join(mark + to_bytes(k) for mark, k in kids) + spec[3]
    return data + b"".join(map(to_bytes, kids)) + spec[3]


# behaviours: (tag name, i, next, own) -> value.  `own` reads the value without next()


def d_pass(t, i, nxt, own):
    return nxt()


def d_int(t, i, nxt, own):
    return nxt() + 100 if t == "kInt32" else nxt()


def d_str(t, i, nxt, own):
    return nxt() + f"!{i}" if t == "kOneByteString" else nxt()


def d_own_int(t, i, nxt, own):
    return own() * 10 if t == "kInt32" else nxt()


def d_own_true(t, i, nxt, own):
    return f"T{i}" if t == "kTrue" else nxt()


def d_fail(t, i, nxt, own):
    if t == "kNull":
        raise Boom(i)
    return nxt()


def d_late_fail(t, i, nxt, own):
    v = nxt()
    if t == "kNull":
        raise Boom(i)
    return v


def d_catch(t, i, nxt, own):
    if t != "kUndefined":
        return nxt()
    try:
        return nxt()
    except UnhandledTagDecodeV8SerializeError as e:
        return f"caught{i} {e.tag.name}"


def d_box(t, i, nxt, own):
    return Box(i, nxt()) if t in ("kBeginJSObject", "kObjectReference") else nxt()


def d_own_set(t, i, nxt, own):
    return own() if t == "kBeginJSSet" else nxt()


class Box:
    def __init__(self, i, value):
        self.i, self.value = i, value


DECODE = {f.__name__[2:]: f for f in (d_pass, d_int, d_str, d_own_int, d_own_true, d_fail, d_late_fail, d_catch, d_box, d_own_set)}
D_TAILS = {"reader": ["reader"], "none": [], "few": ["few"], "few+reader": ["few", "reader"], "reader+pass": ["reader", "pass"]}


class Few(TagReader):
    """Reads everything but undefined and sets."""

    def register_tag_readers(self, tag_readers):
        everything = TagReaderRegistry()
        super().register_tag_readers(everything)
        for tag, fn in everything.index.items():
            if tag not in (T.kUndefined, T.kBeginJSSet):
                tag_readers.register(tag, fn)


class DecodeModel:
    def __init__(self, names):
        self.names, self.log, self.objects = names, [], []

    def start(self, spec):
        return self.run(spec, 0)

    def run(self, spec, i):
        tag = spec[0]
        if i == len(self.names):
            raise UnhandledTagDecodeV8SerializeError("model", tag=T[tag], position=0, data=b"")
        name = self.names[i]
        self.log.append((i, tag))
        if name in ("reader", "few"):
            if name == "few" and tag in ("kUndefined", "kBeginJSSet"):
                return self.run(spec, i + 1)
            return self.read(spec)
        return DECODE[name](tag, i, lambda: self.run(spec, i + 1), lambda: self.read(spec, own=True))

    def read(self, spec, own=False):
        if len(spec) == 3:
            v = spec[2]
            if isinstance(v, tuple) and v[0] == "reference":
                return self.objects[v[1]]
            if spec[0] in ("kNumberObject", "kTrueObject", "kSharedObject"):
                self.objects.append(v)
            return v
        cell = Cell()
        kids = spec[2]
        if len(spec) == 6:
            if spec[0] == "kRegExp":
                ps = [self.start(k) for _m, k in kids]
                self.objects.append(cell)
            else:  # the message is read before the error is known
                ps = []
                for mark, k in kids:
                    if mark == b"c":
                        self.objects.append(cell)
                    ps.append(self.start(k))
                if not any(m == b"c" for m, _k in kids):
                    self.objects.append(cell)
        else:
            self.objects.append(cell)
            ps = [self.start(k) for k in kids]
        cell.form = ("own", tuple(map(nfd, ps))) if own else spec[4]([p if isinstance(p, (str, int, float)) or p is JSHole else nfd(p) for p in ps])
        return cell


class Cell:
    form = None


def nfd(v):
    """The normal form of a decoded or model value."""
    if isinstance(v, Cell):
        return v.form
    if isinstance(v, Box):
        return ("box", v.i, nfd(v.value))
    if isinstance(v, JSArray):
        return ("arr", len(v.array), pairs([x for k, e in v.items() for x in (k, nfd(e))]))
    if isinstance(v, JSObject):
        return ("obj", pairs([x for k, e in v.items() for x in (k, nfd(e))]))
    if isinstance(v, JSMap):
        return ("map", tuple((nfd(k), nfd(e)) for k, e in v.items()))
    if isinstance(v, JSSet):
        return ("set", tuple(nfd(e) for e in v))
    if isinstance(v, list):
        return ("own", tuple(nfd(e) for e in v))
    if isinstance(v, (JSError, JSErrorData)):
        return ("err", v.message or "", nfd(v.cause))
    if isinstance(v, JSRegExp):
        return ("re", v.source, int(v.flags))
    return v


def decode_real(names, data, style, entry="loads"):
    log, problems, passed, first_ctx, steps = [], [], {}, [], []

    def wrap(i, inner):
        def step(tag, /, ctx, next):
            log.append((i, tag.name))
            s = ctx.stream
            if s.data[s.pos - 1] != tag:
                problems.append(f"step {i} gets {tag.name} at position {s.pos}")
            if i in passed and passed.pop(i) != (tag, s.pos):
                problems.append(f"step {i} gets {tag.name} at position {s.pos}")
            if not first_ctx:
                first_ctx.append(ctx)
            elif first_ctx[0] is not ctx:
                problems.append(f"step {i} got another context")
            returned = []

            def nxt(tag=tag):
                passed[i + 1] = (tag, s.pos)
                v = next(tag)
                passed.pop(i + 1, None)
                if i + 1 in results and results.pop(i + 1) is not v:
                    problems.append(f"next() of step {i} returns something else than step {i + 1} did")
                return v

            results.pop(i, None)
            v = inner(tag, ctx, nxt)
            results[i] = v
            del returned
            return v

        if style == "fn":
            return step
        if style == "attr":
            o = type("StepObject", (), {})()
            o.decode = step
            return o

        class Step:
            def decode(self, tag, /, ctx, next):
                return step(tag, ctx=ctx, next=next)

        return Step()

    results = {}

    def own(tag, ctx):
        if tag is T.kInt32:
            return ctx.stream.read_int32()
        out = []
        out.extend(ctx.stream.read_jsset(ctx, identity=out))
        return out

    for i, n in enumerate(names):
        if n in ("reader", "few"):
            reader = TagReader() if n == "reader" else Few()
            steps.append(wrap(i, lambda t, ctx, nxt, w=reader: w.decode(t, ctx=ctx, next=nxt)))
        else:
            steps.append(wrap(i, lambda t, ctx, nxt, i=i, n=n: DECODE[n](t.name, i, nxt, lambda: own(t, ctx))))
    try:
        if entry == "loads":
            v = loads(data, decode_steps=steps)
        elif entry == "decoder":
            v = Decoder(iter(steps)).decode(io.BytesIO(data))
        else:
            ctx = DefaultDecodeContext(data=data, decode_steps=(x for x in steps))
            ctx.stream.read_header()
            v = ctx.decode_object()
            if not ctx.stream.eof:
                problems.append(f"stopped at {ctx.stream.pos} of {len(data)}")
        out = ("value", nfd(v))
    except UnhandledTagDecodeV8SerializeError as e:
        out = ("unhandled", e.tag.name)
        if not (0 < e.position <= len(data)) or data[e.position - 1] != e.tag:
            problems.append(f"the error names {e.tag} at {e.position}")
    except Boom as e:
        out = ("boom", e.args)
    except Exception as e:
        out = ("raised", exc_summary(e))
    return out, log, problems


def decode_case(r, names, sname, style, entry):
    spec = D_SHAPES[sname]
    m = DecodeModel(names)
    try:
        want = ("value", nfd(m.start(spec)))
    except UnhandledTagDecodeV8SerializeError as e:
        want = ("unhandled", e.tag.name)
    except Boom as e:
        want = ("boom", e.args)
    data = b"\xff\x0f" + to_bytes(spec)
    got, log, problems = decode_real(names, data, style, entry)
    r.states += 1
    r.transitions += len(log)
    r.outcomes[f"decode: {got[0]}"] += 1
    if got != want:
        problems.append(f"gave {got}, expected {want}")
    if log != m.log:
        problems.append(f"steps saw {log}, expected {m.log}")
    if problems:
        r.violation(f"decode: {sname} steps {names} as {style} by {entry}", "; ".join(problems), f"{PRE}print(decode_real({names!r}, {data!r}, {style!r}, {entry!r}))")
    else:
        r.traces += 1


def decode_task(r, seqs):
    for seq in seqs:
        for tail in D_TAILS.values():
            names = [*seq, *tail]
            for n, s in enumerate(D_SHAPES):
                decode_case(r, names, s, "fn", ("loads", "decoder", "context")[n % 3])
                decode_case(r, names, s, "object" if len(seq) % 2 else "attr", ("context", "loads", "decoder")[n % 3])


def decode_edges_task(r):
    for s, spec in D_SHAPES.items():
        data = b"\xff\x0f" + to_bytes(spec)
        for how, f in {
            "loads": lambda d: loads(d, decode_steps=[]), "Decoder": lambda d: Decoder([]).decodes(d), "tuple": lambda d: loads(d, decode_steps=()),
            "iterator": lambda d: loads(d, decode_steps=iter(())), "context": lambda d: DefaultDecodeContext(data=d[2:], decode_steps=[]).decode_object(),
        }.items():  # fmt: skip
            r.states += 1
            key = f"no decode steps: {how} {s}"
            try:
                f(data)
            except UnhandledTagDecodeV8SerializeError as e:
                if e.tag.name != spec[0] or e.data[e.position - 1] != e.tag:
                    r.violation(key, f"the error names {e.tag} at {e.position}")
                r.traces += 1
            except Exception as e:
                r.violation(key, f"raised {exc_summary(e)}")
            else:
                r.violation(key, "accepted")
        want = nfd(loads(data))
        for how, f in {
            "None": lambda d: loads(d, decode_steps=None), "default": lambda d: loads(d, decode_steps=default_decode_steps), "Decoder": lambda d: Decoder().decodes(d),
            "Decoder None": lambda d: Decoder(None).decodes(d), "Decoder file": lambda d: Decoder().decode(io.BytesIO(d)), "reader": lambda d: loads(d, decode_steps=[TagReader()]),
            "Decoder reused": lambda d, e=Decoder(iter([TagReader()])): (e.decodes(d), e.decodes(d))[1],
        }.items():  # fmt: skip
            r.transitions += 1
            try:
                got = nfd(f(data))
            except Exception as e:
                got = exc_summary(e)
            if got != want:
                r.violation(f"decode steps as {how}: {s}", f"gave {got!r}, expected {want!r}")
            else:
                r.traces += 1
    stream = ReadableTagStream(b"T")
    for kw, ok in (({"data": b"T"}, True), ({"stream": stream}, True), ({}, False), ({"data": b"T", "stream": stream}, False), ({"data": b"", "stream": stream}, False)):
        try:
            DefaultDecodeContext(**kw)
        except ValueError:
            if ok:
                r.violation(f"DefaultDecodeContext({kw})", "refused")
        else:
            if not ok:
                r.violation(f"DefaultDecodeContext({kw})", "accepted")


# -- C: options of loads() and TagReader --------------------------------------


class MyMap(JSMap):
    pass


class MySet(JSSet):
    pass


class MyObject(JSObject):
    pass


class MyArray(JSArray):
    pass


class MyError:
    """What my_error builds."""

    def __init__(self, data):
        self.data = data


def my_error(data):
    return MyError(data), data


def my_host(*, stream):
    """Reads what Node.js writes: a view kind, a length, and bytes."""
    kind, n = stream.read_varint(), stream.read_varint()
    return ("host", kind, bytes(stream.read_bytes(n)))


class MyHostObj:
    def deserialize_host_object(self, *, stream):
        return my_host(stream=stream)


ZONE = timezone(timedelta(hours=5, minutes=30))
CONSTANTS = {T.kUndefined: None, T.kNull: "null", T.kTrue: ("yes",), T.kFalse: 0, T.kTheHole: "hole"}
OPTIONS = {
    "jsmap_type": [MyMap, dict], "jsset_type": [MySet, set], "js_object_type": [MyObject, dict], "js_array_type": [MyArray, dict],
    "js_constants": [CONSTANTS, {}, {T.kUndefined: None}], "host_object_deserializer": [my_host, MyHostObj()], "js_error_builder": [my_error, JSErrorData.builder], "default_timezone": [ZONE, timezone.utc],
}  # fmt: skip


def kitchen_sink():
    """One of everything, nested in one of everything; and (name, how to get it) of each part."""
    unit = [
        ("map", MAP(I(1), C("kTrue"))), ("set", SET(I(1), I(2))), ("object", OBJ(S("a"), C("kFalse"))), ("array", ARR([I(1), C("kTheHole"), I(3)], S("p"), I(1))),
        ("sparse", SPARSE(40, I(3), C("kNull"))), ("no array", ARR([])), ("no sparse", SPARSE(0)), ("one sparse", SPARSE(1, I(0), C("kNull"))), ("true", C("kTrue")), ("false", C("kFalse")), ("null", C("kNull")), ("undefined", C("kUndefined")),
        ("error", ERR(S("m"), C("kUndefined"))), ("date", LEAF("kDate", b"D" + struct.pack("<d", 0.0), None)), ("host", LEAF("kHostObject", b"\\\x01\x02hi", None)),
        ("int", I(7)), ("string", S("s")), ("regexp", RE(S("x"))), ("buffer", LEAF("kArrayBuffer", b"B\x01z", None)), ("true object", LEAF("kTrueObject", b"y", None)),
    ]  # fmt: skip
    return unit


def hole_free(d):
    return {k: v for k, v in d.items() if v is not JSHole}


def part_form(name, v, o):
    """None if v is what options o make of the part, or what's wrong."""
    const = {T.kTheHole: JSHole, T.kUndefined: JSUndefined, T.kNull: None, T.kTrue: True, T.kFalse: False, **(o.get("js_constants") or {})}

    def want(cls, content, got):
        if type(v) is not cls:
            return f"is a {type(v).__name__}, not a {cls.__name__}"
        return None if got == content and [type(x) for x in flat(got)] == [type(x) for x in flat(content)] else f"is {got!r}, not {content!r}"

    def flat(x):
        return list(itertools.chain(*x.items())) if isinstance(x, dict) else list(x)

    if name == "map":
        cls = o.get("jsmap_type") or JSMap
        return want(cls, {1: const[T.kTrue]}, dict(v.items()))
    if name == "set":
        cls = o.get("jsset_type") or JSSet
        return want(cls, [1, 2], list(v))
    if name == "object":
        cls = o.get("js_object_type") or JSObject
        return want(cls, {"a": const[T.kFalse]}, dict(v.items()))
    arrays = {"array": 3, "sparse": 40, "no array": 0, "no sparse": 0, "one sparse": 1}
    if name in arrays:
        cls = o.get("js_array_type") or JSArray
        content = {"array": hole_free({0: 1, 1: const[T.kTheHole], 2: 3, "p": 1}), "sparse": {3: const[T.kNull]}, "one sparse": {0: const[T.kNull]}}.get(name, {})
        if cls is not dict and len(v.array) != arrays[name]:
            return f"has length {len(v.array)}"
        if any(x is JSHole and k not in range(arrays[name]) for k, x in v.items()):
            return f"has a hole that's not an element: {v!r}"
        return want(cls, content, hole_free(dict(v.items())))
    constants = {"true": T.kTrue, "false": T.kFalse, "null": T.kNull, "undefined": T.kUndefined}
    if name in constants:
        w = const[constants[name]]
        return None if v is w or type(v) is type(w) and v == w else f"is {v!r}, not {w!r}"
    if name == "error":
        b = o.get("js_error_builder") or JSError.builder
        cls = {my_error: MyError, JSErrorData.builder: JSErrorData}.get(b, JSError)
        if type(v) is not cls:
            return f"is a {type(v).__name__}, not a {cls.__name__}"
        d = v.data if cls is MyError else v
        return None if (d.message, d.cause) == ("m", const[T.kUndefined]) else f"has {d.message!r}, {d.cause!r}"
    if name == "date":
        z = o.get("default_timezone")
        w = datetime.fromtimestamp(0, tz=z)
        return None if type(v) is datetime and v == w and v.tzinfo is z else f"is {v!r}, not {w!r}"
    if name == "host":
        if o.get("host_object_deserializer") is not None:
            return None if v == ("host", 1, b"hi") else f"is {v!r}"
        return None if isinstance(v, JSTypedArray) and type(v) is JSUint8Array and bytes(v.get_buffer_as_memoryview()) == b"hi" else f"is {v!r}"
    w = {"int": 7, "string": "s", "regexp": JSRegExp("x", 2), "true object": True, "buffer": JSArrayBuffer(b"z")}[name]
    return None if type(v) is type(w) and v == w else f"is {v!r}, not {w!r}"


SKIP_IN = {"dict"}


def option_sets():
    """Every assignment of absent / None / each value to every option, with at most one not plain."""
    names = list(OPTIONS)
    for bits in itertools.product((0, 1), repeat=len(names)):
        base = {n: OPTIONS[n][0] for n, b in zip(names, bits) if b}
        yield base
    for n in names:
        for alt in (None, *OPTIONS[n][1:]):
            for bits in itertools.product((0, 1), repeat=len(names)):
                if bits[names.index(n)]:
                    yield {m: alt if m == n else OPTIONS[m][0] for m, b in zip(names, bits) if b}


def options_task(r, sets):
    unit = kitchen_sink()
    whole = b"\xff\x0fA" + vi(len(unit)) + b"".join(to_bytes(s) for _n, s in unit) + b"$\0" + vi(len(unit))
    alone = {n: b"\xff\x0f" + to_bytes(s) for n, s in unit}
    for o in sets:
        r.states += 1
        o = dict(o)
        constants = o.get("js_constants")
        if constants is not None:
            o["js_constants"] = constants = dict(constants)
            before = dict(constants)
        node = [{}, {"nodejs": None}]
        if o.get("host_object_deserializer") is None:
            node += [{"nodejs": True}, {"nodejs": False}]
        else:
            node.append({"nodejs": False})
        for nodejs in node:
            kw = {**o, **nodejs}
            key = f"options: {sorted((k, getattr(v, '__name__', None) or str(v)) for k, v in kw.items())}"
            handler = o.get("host_object_deserializer")
            if handler is None and nodejs.get("nodejs") is not False:
                handler = NodeJsArrayBufferViewHostObjectHandler()
            tr = {**o, "host_object_deserializer": handler}
            ways = {
                "loads": lambda d: loads(d, **kw), "TagReader": lambda d: loads(d, decode_steps=[TagReader(**tr)]),
                "Decoder": lambda d: Decoder([TagReader(**tr)]).decodes(d),
            }  # fmt: skip
            for way, f in ways.items():
                for name, data in alone.items():
                    r.transitions += 1
                    try:
                        v = f(data)
                    except Exception as e:
                        wrong = f"raised {exc_summary(e)}"
                        if name == "host" and handler is None and type(e).__name__ == "DecodeV8SerializeError":
                            wrong = None
                    else:
                        wrong = part_form(name, v, o) if not (name == "host" and handler is None) else "a host object is read"
                    if wrong:
                        r.violation(f"{key} {way} {name}", wrong, f"{PRE}print(loads({data!r}, **{kw!r}))")
                    else:
                        r.traces += 1
                if handler is None:
                    continue
                r.transitions += 1
                try:
                    v = f(whole)
                    vs = [v[i] for i in range(len(unit))]
                except Exception as e:
                    r.violation(f"{key} {way}", f"raised {exc_summary(e)}")
                    continue
                for (name, _s), x in zip(unit, vs):
                    wrong = part_form(name, x, o)
                    if wrong:
                        r.violation(f"{key} {way} {name} in an array", wrong, f"{PRE}print(loads({whole!r}, **{kw!r}))")
            r.outcomes["options"] += 1
        if constants is not None and constants != before:
            r.violation(f"options: js_constants {before}", f"the caller's mapping is changed to {constants}")


def constants_task(r):
    """Every subset of constants, with odd values, frozen mappings and later changes to the mapping."""
    from types import MappingProxyType

    tags = list(CONSTANTS)
    default = {T.kTheHole: JSHole, T.kUndefined: JSUndefined, T.kNull: None, T.kTrue: True, T.kFalse: False}
    code = {T[k]: v[0] for k, v in CONST.items()}
    for values in ([None] * 5, [False] * 5, [0] * 5, [JSUndefined] * 5, [1.5, "a", (), [], object()]):
        for bits in itertools.product((0, 1), repeat=5):
            given = {t: v for t, v, b in zip(tags, values, bits) if b}
            for wrap in (dict, MappingProxyType):
                before = dict(given)
                mapping = wrap(given)
                reader = TagReader(js_constants=mapping)
                if dict(mapping) != before:
                    r.violation(f"constants: {before}", f"the caller's mapping is changed to {dict(mapping)}")
                given = before
                for t in tags:
                    r.transitions += 1
                    data = b"\xff\x0f" + code[t]
                    want = before.get(t, default[t])
                    for v in (loads(data, js_constants=mapping), loads(data, decode_steps=[reader]), loads(b"\xff\x0f;I\x02" + code[t] + b":\x02", js_constants=mapping)[1]):
                        if v is not want:
                            r.violation(f"constants: {before} {t.name}", f"gave {v!r}, expected {want!r}")
                        else:
                            r.traces += 1
                    for v in (loads(data), loads(data, decode_steps=default_decode_steps), loads(data, decode_steps=[TagReader()])):
                        if v is not default[t]:
                            r.violation(f"constants: default {t.name} after {before}", f"gave {v!r}")


def conflicts_task(r):
    data = b"\xff\x0fT"
    values = {**{k: v[0] for k, v in OPTIONS.items()}, "nodejs": True}
    more = [("nodejs", False), ("js_constants", {})]
    for n in range(len(values) + 1):
        for names in itertools.combinations(values, n):
            for steps in (default_decode_steps, [], None):
                kw = {k: values[k] for k in names}
                for extra in (None, *more):
                    o = dict(kw)
                    if extra:
                        o[extra[0]] = extra[1]
                    if steps is not None:
                        o["decode_steps"] = steps
                    bad = steps is not None and len(o) > 1 or o.get("nodejs") and "host_object_deserializer" in o
                    r.states += 1
                    try:
                        loads(data, **o)
                        got = False
                    except TypeError:
                        got = True
                    except UnhandledTagDecodeV8SerializeError:
                        got = False
                    if got != bool(bad):
                        r.violation(f"conflict: {sorted(o)} {extra}", "refused" if got else "accepted", f"{PRE}loads({data!r}, **{sorted(o)})")
                    else:
                        r.traces += 1
                    r.outcomes["refused" if got else "accepted"] += 1


def registry_task(r, depth):
    """TagReader(tag_readers=) and TagReaderRegistry against a dict."""
    tags = [T.kTrue, T.kInt32, T.kBeginJSObject, JS_CONSTANT_TAGS, JS_OBJECT_KEY_TAGS]
    fns = {n: (lambda reader, tag, ctx, n=n: f"{n} {tag.name}") for n in ("f", "g")}
    other = TagReaderRegistry()
    other.register(T.kNull, fns["f"])
    other.register(T.kTrue, fns["g"])
    ops = [("register", t, n) for t in tags for n in fns] + [("register_all", None, None)]
    codes = {T.kTrue: b"T", T.kNull: b"0", T.kInt32: b"I\x02", T.kBeginJSObject: b"o{\0", T.kOneByteString: b'"\x01a', T.kDate: b"D" + bytes(8), T.kUndefined: b"_"}
    base = {t: nfd(loads(b"\xff\x0f" + c)) for t, c in codes.items()}
    for d in range(depth + 1):
        for h in itertools.product(ops, repeat=d):
            reg, model = TagReaderRegistry(), {}
            for op, t, n in h:
                if op == "register":
                    reg.register(t, fns[n])
                    for x in t.allowed_tags if isinstance(t, TagConstraint) else [t]:
                        model[x] = fns[n]
                else:
                    reg.register_all(other)
                    model.update({T.kNull: fns["f"], T.kTrue: fns["g"]})
            r.states += 1
            key = f"registry: {[(op, getattr(t, 'name', t), n) for op, t, n in h]}"
            if dict(reg.index) != model or any(reg.match(t) is not model.get(t) for t in T):
                r.violation(key, f"has {dict(reg.index)}")
            copy = TagReaderRegistry(reg)
            copy.register(T.kDate, fns["f"])
            reader = TagReader(tag_readers=reg)
            if dict(reg.index) != model:
                r.violation(key, "the caller's registry is changed")
            for t, c in codes.items():
                r.transitions += 1
                got = nfd(loads(b"\xff\x0f" + c, decode_steps=[reader]))
                want = model[t](None, t, None) if t in model else base[t]
                if t is T.kDate:
                    got, want = type(got), type(want)
                if got != want:
                    r.violation(f"{key} {t.name}", f"gave {got!r}, expected {want!r}")
                else:
                    r.traces += 1
            if len(other.index) != 2:
                r.violation(key, "register_all changes the other registry")
    try:
        TagReaderRegistry().index[T.kTrue] = fns["f"]
        r.violation("registry: index", "can be assigned")
    except TypeError:
        pass


def dumps_options_task(r):
    """dumps(), Encoder and a context by hand are the same."""
    views = {"resizable": lambda: JSArrayBuffer(4, max_byte_length=8), "error": lambda: (lambda e: (setattr(e, "cause", e), e)[1])(JSErrorData("m")), "list": lambda: [1, "a"]}
    for fs in itertools.product((False, True), repeat=len(list(SerializationFeature))):
        features = SerializationFeature(0)
        for f, on in zip(SerializationFeature, fs):
            features |= f if on else SerializationFeature(0)
        for given in ({}, {"features": features}, {"features": features, "v8_version": "12.0.0"}, {"v8_version": "11.0.0"}, {"features": None, "v8_version": None}):
            for name, make in views.items():
                r.transitions += 1
                effective = given.get("features") or SerializationFeature(0)
                if given.get("v8_version"):
                    effective |= SerializationFeature.supported_by(v8_version=given["v8_version"])
                got = []
                for f in (
                    lambda v: dumps(v, **given), lambda v: bytes(Encoder(**given).encode(v)), lambda v: bytes(Encoder(features=effective).encode(v)),
                    lambda v: by_hand(v, effective),
                ):  # fmt: skip
                    try:
                        got.append(f(make()))
                    except Exception as e:
                        got.append(type(e))
                if len(set(got)) != 1:
                    r.violation(f"dumps options: {given} {name}", f"{got}")
                else:
                    r.traces += 1


def by_hand(v, features):
    ctx = DefaultEncodeContext(stream=WritableTagStream(features=features))
    ctx.stream.write_header()
    ctx.encode_object(v)
    return bytes(ctx.stream.data)


def main(check):
    t = check.thorough
    check.bounds = {
        "steps": f"all sequences of up to {4 if t else 3} of {len(ENCODE)} encode and {len(DECODE)} decode step behaviours x {len(TAILS)} endings x {len(E_SHAPES)}/{len(D_SHAPES)} values, steps as functions and two kinds of objects",
        "options": "all subsets of the 8 options, each also None and with other values, x nodejs absent/None/True/False x 17 constructs alone and together; all subsets with decode_steps",
        "registries": "all sequences of up to 3 registrations",
    }
    check.assumptions = ["a step calls next() at most once for a value, and a step that doesn't writes exactly one value"]
    depth = 4 if t else 3
    enc = [s for d in range(depth + 1) for s in itertools.product(ENCODE, repeat=d)]
    dec = [s for d in range(depth + 1) for s in itertools.product(DECODE, repeat=d)]
    if not t:  # the longest: those with a step of each of three kinds
        enc = [s for s in enc if len(s) < 3 or len(set(s)) == 3]
        dec = [s for s in dec if len(s) < 3 or len(set(s)) == 3]
    check.phase("encode steps", [(encode_task, (c,)) for c in chunks(enc, 64)])
    check.phase("decode steps", [(decode_task, (c,)) for c in chunks(dec, 64)])
    check.phase("edges", [(encode_edges_task, ()), (decode_edges_task, ()), (conflicts_task, ()), (constants_task, ()), (registry_task, (3 if t else 2,)), (dumps_options_task, ())])
    sets = list(option_sets())
    if not t:
        sets = [s for i, s in enumerate(sets) if i < 256 or len(s) <= 2 or len(s) == 8]
    check.phase("options", [(options_task, (c,)) for c in chunks(sets, 32)])


JS_ARRAY_BUFFER_TAGS  # noqa: B018
