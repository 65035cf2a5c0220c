"""C20: host objects and Node.js buffers are handled exactly."""

from __future__ import annotations

import array
import itertools
import json

from v8serialize import DecodeV8SerializeError, SerializationFeature, TagReader, dumps, loads
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream
from v8serialize.encode import (
    DefaultEncodeContext,
    TagWriter,
    WritableTagStream,
    serialize_object_references,
)
from v8serialize.extensions import (
    NodeJsArrayBufferViewHostObjectHandler,
    serialize_js_array_buffer_views_as_nodejs_host_object,
)
from v8serialize.jstypes import (
    ArrayBufferViewStructFormat,
    JSArray,
    JSArrayBuffer,
    JSArrayBufferTransfer,
    JSDataView,
    JSErrorData,
    JSHole,
    JSMap,
    JSObject,
    JSSet,
    JSSharedArrayBuffer,
    JSUint8Array,
)

from .. import nodejs
from ..core import chunks, exc_summary

SIZES = {
    "Int8Array": 1, "Uint8Array": 1, "Uint8ClampedArray": 1, "Int16Array": 2, "Uint16Array": 2, "Int32Array": 4,
    "Uint32Array": 4, "Float32Array": 4, "Float64Array": 8, "DataView": 1, "BigInt64Array": 8, "BigUint64Array": 8,
}  # fmt: skip
CODES = ["Int8Array", "Uint8Array", "Uint8ClampedArray", "Int16Array", "Uint16Array", "Int32Array", "Uint32Array",
         "Float32Array", "Float64Array", "DataView", "Buffer", "BigInt64Array", "BigUint64Array"]  # fmt: skip
TYPES = {name: ArrayBufferViewStructFormat[name].view_type for name in SIZES}
PRE = "import sys; sys.path.insert(0, '/verif')\nfrom mc.checks.c20 import *\n"


def content(n, seed=0):
    return bytes((i * 7 + i // 251 + 0xF3 + seed * 29) & 255 for i in range(n))


def js_eval(src):
    (reply,) = nodejs.batch([{"op": "eval", "src": src}])
    if "err" in reply:
        raise RuntimeError(reply["err"])
    return reply["ok"]


def vi(n, extra=0):
    out = bytearray()
    while True:
        out.append(n & 127 | (128 if n > 127 or extra else 0))
        n >>= 7
        if not n and not extra:
            return bytes(out)
        if not n:
            out += b"\x80" * (extra - 1) + b"\0"
            return bytes(out)


def raw(view):
    with view.get_buffer_as_memoryview() as m:
        return bytes(m)


def is_view(v, kind, data):
    """None, or how v isn't a view of a kind over exactly data."""
    t = TYPES["Uint8Array" if kind == "Buffer" else kind]
    if type(v) is not t:
        return f"is {type(v).__name__}, expected {t.__name__}"
    got = raw(v)
    if got != data or v.byte_length != len(data) or not v.is_in_range:
        return f"has {v.byte_length} bytes {got[:40].hex()}…, expected {len(data)} bytes {data[:40].hex()}…"
    with v.get_buffer() as b:
        items = len(b)
        whole = bytes(b.buffer if isinstance(v, JSDataView) else b)
    if items * SIZES.get(kind, 1) != len(data) or whole != data:
        return f"has {items} items {whole[:40].hex()}"
    return None


# -- A: what Node.js writes ----------------------------------------------------

# where a view is, as JavaScript and as a way to reach it.  x and y are two views
PLACES = {
    "alone": ("x", lambda v: [("x", v)]),
    "array": ("[1, x, 'after', 2]", lambda v: [("x", v[1]), (1, v[0]), ("after", v[2]), (2, v[3])]),
    "property": ("({a: 'k', b: x, c: null})", lambda v: [("x", v["b"]), ("k", v["a"]), (None, v["c"])]),
    "map": ("new Map([['k', x], [y, 1.5]])", lambda v: [("x", v["k"]), ("y", list(v)[1]), (1.5, list(v.values())[1])]),
    "set": ("new Set(['k', x, y, 5])", lambda v: [("x", list(v)[1]), ("y", list(v)[2]), (5, list(v)[3])]),
    "cause": ("Object.assign(new Error('m', {cause: x}), {stack: undefined})", lambda v: [("x", v.cause)]),
    "sparse": ("Object.assign([,,,,,,,,,,,,x,,,,,,,,,,,,,'z'], {p: y})", lambda v: [("x", v[12]), ("z", v[25]), ("y", v["p"])]),
    "two": ("[x, y, 'after']", lambda v: [("x", v[0]), ("y", v[1]), ("after", v[2])]),
    "same": ("[x, x, y, x, 'after']", lambda v: [("x", v[0]), ("same", v[0], v[1]), ("y", v[2]), ("same", v[0], v[3]), ("after", v[4])]),
    "after objects": ("(() => { const o = {n: 1}; return [o, x, y, o, x, y, 'after']; })()",
                      lambda v: [("x", v[1]), ("y", v[2]), ("same", v[0], v[3]), ("same", v[1], v[4]), ("same", v[2], v[5]), ("after", v[6]), (1, v[0]["n"])]),
    "cycle": ("(() => { const o = {x}; o.o = o; const m = new Map([[o, x]]); return [m, x, o, y]; })()",
              lambda v: [("x", v[1]), ("same", v[2]["x"], v[1]), ("same", v[2]["o"], v[2]), ("same", list(v[0])[0], v[2]), ("same", list(v[0].values())[0], v[1]), ("y", v[3])]),
    "with its buffer": ("[x, x.buffer, x, y, y.buffer]", lambda v: [("x", v[0]), ("xb", v[1]), ("same", v[0], v[2]), ("y", v[3]), ("yb", v[4])]),
}  # fmt: skip


def make_view(kind, offset, items, seed, tail=3):
    """JavaScript of a view and the bytes of it and of its buffer."""
    size = SIZES.get(kind, 1)
    n = items * size
    whole = content(offset + n + tail, seed)
    buf = f"Uint8Array.from([{','.join(map(str, whole))}]).buffer" if len(whole) < 2000 else (
        f"(() => {{ const b = new Uint8Array({len(whole)}); for (let i = 0; i < b.length; i++) b[i] = i * 7 + Math.floor(i / 251) + 0xF3 + {seed} * 29; return b.buffer; }})()")  # fmt: skip
    ctor = f"Buffer.from({buf}, {offset}, {n})" if kind == "Buffer" else f"new {kind}({buf}, {offset}, {items})"
    return ctor, whole[offset : offset + n], whole


def check_places(reach, value, kinds, data):
    for what, *got in reach(value):
        if what in ("x", "y"):
            wrong = is_view(got[0], kinds[what], data[what])
        elif what in ("xb", "yb"):
            wrong = None if isinstance(got[0], JSArrayBuffer) and bytes(got[0].data) == data[what] else f"is {got[0]!r}"
        elif what == "same":
            wrong = None if got[0] is got[1] else "are different objects"
        else:
            wrong = None if got[0] == what and type(got[0]) is type(what) else f"is {got[0]!r}"
        if wrong:
            return f"{what} {wrong}"
    return None


def node_written_task(r, cases):
    srcs = []
    for kind, offset, items, place, k2 in cases:
        x, *_ = make_view(kind, offset, items, 0)
        y, *_ = make_view(k2, SIZES.get(k2, 1), 3, 5)
        srcs.append(f"(() => {{ const x = {x}, y = {y}; return {PLACES[place][0]}; }})()")
    replies = nodejs.batch([{"op": "ser", "src": s, "nodesc": True} for s in srcs])
    for (kind, offset, items, place, k2), src, reply in zip(cases, srcs, replies):
        r.states += 1
        key = f"Node.js writes {place}: {kind} of {items} items at {offset}, {k2}"
        if "err" in reply:
            raise RuntimeError(reply["err"] + src[:300])
        _, xd, xb = make_view(kind, offset, items, 0)
        _, yd, yb = make_view(k2, SIZES.get(k2, 1), 3, 5)
        data = {"x": xd, "y": yd, "xb": xb, "yb": yb}
        raw_in = bytes.fromhex(reply["hex"])
        for how, load in LOADERS.items():
            if len(raw_in) > 300 and how not in ("loads", "memoryview"):
                continue
            r.transitions += 1
            try:
                v = load(raw_in)
                wrong = check_places(PLACES[place][1], v, {"x": kind, "y": k2}, data)
            except Exception as e:
                wrong = f"raised {exc_summary(e)}"
            if wrong:
                r.violation(f"{key} by {how}", wrong, f"{PRE}print(loads({raw_in[:4000]!r}))")
            else:
                r.traces += 1
                r.outcomes["read"] += 1


def by_context(data):
    ctx = DefaultDecodeContext(data=data, decode_steps=[TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())])
    ctx.stream.read_header()
    v = ctx.decode_object()
    if not ctx.stream.eof:
        raise ValueError(f"stopped at {ctx.stream.pos} of {len(data)}")
    return v


LOADERS = {
    "loads": loads, "nodejs=True": lambda d: loads(d, nodejs=True), "memoryview": lambda d: loads(memoryview(bytearray(d))),
    "bytearray": lambda d: loads(bytearray(d)), "context": by_context,
    "handler": lambda d: loads(d, host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler()),
    "reader": lambda d: loads(d, decode_steps=[TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())]),
}  # fmt: skip


# -- B: the encoding -----------------------------------------------------------


def encodings_task(r, code):
    """Every length and spelling of one view code, whole and cut off, before other values."""
    name = CODES[code] if code < len(CODES) else None
    size = SIZES.get(name, 1)
    for n in (*range(0, 35), 127, 128, 129, 256, 16383, 16384):
        if n % size:
            continue  # not whole items: Node.js doesn't write it
        body = content(n, code)
        for e1, e2 in itertools.product((0, 1, 3), repeat=2):
            if n > 200 and (e1, e2) != (0, 0):
                continue
            host = b"\\" + vi(code, e1) + vi(n, e2) + body
            for pads in (0, 1):
                data = b"\xff\x0f" + b"A\x04" + b"\0" * pads + host + b'"\x01z' + b"^\x01" + host + b"$\0\x04"
                r.states += 1
                key = f"encoding: code {code} of {n} bytes, {e1}/{e2} more varint bytes, {pads} padding"
                wrong = None
                try:
                    v = loads(data)
                except DecodeV8SerializeError as e:
                    if name is not None:
                        wrong = f"raised {exc_summary(e)}"
                    r.outcomes["refused"] += 1
                except Exception as e:
                    wrong = f"raised {exc_summary(e)}"
                else:
                    r.outcomes["read"] += 1
                    if name is None:
                        wrong = "an unknown view code is accepted"
                    else:
                        wrong = is_view(v[0], name, body) or is_view(v[3], name, body)
                        if v[1] != "z" or v[2] is not v[0] or v[3] is v[0] or len(v) != 4:
                            wrong = wrong or f"gave {v!r}"
                        if not wrong:
                            # its bytes are its own: neither the input's nor another's
                            with v[0].get_buffer_as_memoryview() as m:
                                if m.readonly:
                                    wrong = "isn't writable"
                                elif n:
                                    m[0] ^= 255
                            if n and (raw(v[3]) != body or raw(v[2]) == body):
                                wrong = "shares bytes with another"
                        if v[0].backing_buffer is v[3].backing_buffer:
                            wrong = wrong or "shares its buffer with another"
                if wrong:
                    r.violation(key, wrong, f"{PRE}print(loads({data[:2000]!r}))")
                else:
                    r.traces += 1
                # cut off anywhere
                if n < 20 and pads == 0:
                    for cut in range(2, len(data)):
                        r.transitions += 1
                        try:
                            got = loads(data[:cut])
                        except DecodeV8SerializeError:
                            r.traces += 1
                        except Exception as e:
                            r.violation(f"{key} cut at {cut}", f"raised {exc_summary(e)}", f"{PRE}print(loads({data[:cut]!r}))")
                        else:
                            r.violation(f"{key} cut at {cut}", f"gave {got!r}", f"{PRE}print(loads({data[:cut]!r}))")
                    # more is announced than there is
                    for more in (1, size, 127, 128, 2**16, 2**31 - 1, 2**31, 2**32 - 1):
                        d = b"\xff\x0f\\" + vi(code) + vi(n + more) + body
                        r.transitions += 1
                        try:
                            got = loads(d)
                        except DecodeV8SerializeError:
                            r.traces += 1
                        except Exception as e:
                            r.violation(f"{key} announcing {more} more", f"raised {exc_summary(e)}", f"{PRE}print(loads({d!r}))")
                        else:
                            r.violation(f"{key} announcing {more} more", f"gave {got!r}", f"{PRE}print(loads({d!r}))")
    # the handler leaves a stream right after the view
    for n in (0, size, 3 * size):
        if name is None:
            continue
        for at in range(4):
            data = b"\0" * at + vi(code) + vi(n) + content(n) + b"rest"
            s = ReadableTagStream(data, pos=at)
            r.states += 1
            v = NodeJsArrayBufferViewHostObjectHandler().deserialize_host_object(stream=s)
            wrong = is_view(v, name, content(n))
            if s.pos != len(data) - 4:
                wrong = f"leaves the position at {s.pos} of {len(data)}"
            if wrong:
                r.violation(f"handler: code {code} of {n} at {at}", wrong)
            else:
                r.traces += 1


# -- C: writing for Node.js ------------------------------------------------------

BUFFERS = {
    "JSArrayBuffer": lambda d: JSArrayBuffer(d), "shared data": lambda d: JSArrayBuffer(bytearray(d), copy_data=False), "bytes": bytes, "bytearray": bytearray,
    "memoryview": lambda d: memoryview(bytes(d)), "resizable": lambda d: JSArrayBuffer(d, max_byte_length=len(d) + 9),
    "sliced": lambda d: memoryview(b"##" + bytes(d) + b"###")[2:-3], "array": lambda d: array.array("b", d),
}  # fmt: skip
STEPS = {
    "refs first": lambda: [serialize_object_references, serialize_js_array_buffer_views_as_nodejs_host_object, TagWriter()],
    "refs last": lambda: [serialize_js_array_buffer_views_as_nodejs_host_object, serialize_object_references, TagWriter()],
}  # fmt: skip


def py_places(x, y):
    o = JSObject(n=1)
    loop = JSObject(x=x)
    loop["o"] = loop
    sparse = JSArray()
    sparse[60] = x
    sparse["p"] = y
    sparse[70] = "z"
    return {
        "alone": (x, "[v]"), "array": (JSArray([1, x, "after"]), "[v[1], v[0], v[2]]"), "property": (JSObject(a="k", b=x, c=None), "[v.b, v.a, v.c]"),
        "map": (JSMap([("k", x), (y, 1.5)]), "[v.get('k'), [...v.keys()][1], v.get([...v.keys()][1])]"), "set": (JSSet(["k", x, y]), "[...v]"),
        "cause": (JSErrorData(message="m", cause=x), "[v.cause, v.message]"), "sparse": (sparse, "[v[60], v.p, v[70], v.length]"),
        "same": (JSArray([x, x, y, x, "after"]), "[v[0], v[1], v[2], v[3], v[4]]"),
        "after objects": (JSArray([o, x, y, o, x, y]), "[v[0], v[1], v[2], v[3], v[4], v[5]]"), "cycle": (JSArray([loop, x, loop]), "[v[0].x, v[0].o, v[1], v[2], v[0]]"),
    }  # fmt: skip


READ_JS = r"""
(function (cases) {
  return cases.map(([hex, path]) => {
    try {
      const v = v8.deserialize(Buffer.from(hex, 'hex'));
      const parts = eval(path), ids = new Map();
      return parts.map((p) => {
        if (p === null || typeof p !== 'object') return p === undefined ? 'undefined' : p;
        if (ids.has(p)) return {same: ids.get(p)};
        ids.set(p, ids.size);
        if (ArrayBuffer.isView(p)) return {view: p instanceof DataView ? 'DataView' : p[Symbol.toStringTag], bytes: Buffer.from(p.buffer, p.byteOffset, p.byteLength).toString('hex')};
        return {object: Object.prototype.toString.call(p)};
      });
    } catch (e) { return String(e); }
  });
})
"""


def expect_parts(place, x, y):
    """The parts of a place as READ_JS tells them; with identity, when references are written."""
    X, Y = {"view": x[0], "bytes": x[1].hex()}, {"view": y[0], "bytes": y[1].hex()}
    O = {"object": "[object Object]"}  # noqa: E741
    return {
        "alone": [X], "array": [X, 1, "after"], "property": [X, "k", None], "map": [X, Y, 1.5], "set": ["k", X, Y], "cause": [X, "m"], "sparse": [X, Y, "z", 71],
        "same": [X, {"same": 0}, Y, {"same": 0}, "after"], "after objects": [O, X, Y, {"same": 0}, {"same": 1}, {"same": 2}],
        "cycle": [X, O, {"same": 0}, {"same": 1}, {"same": 1}],
    }[place]  # fmt: skip


def unshared(place, x, y):
    """The same where a repeated view is written again (references are only looked up afterwards)."""
    X, Y = {"view": x[0], "bytes": x[1].hex()}, {"view": y[0], "bytes": y[1].hex()}
    O = {"object": "[object Object]"}  # noqa: E741
    return {"same": [X, X, Y, X, "after"], "after objects": [O, X, Y, {"same": 0}, X, Y], "cycle": [X, O, X, {"same": 1}, {"same": 1}]}.get(place)


def py_written_task(r, kind):
    size = SIZES[kind]
    cases, wants, keys = [], [], []
    for bname, make in BUFFERS.items():
        for before, items, after in itertools.product((0, 1, 2), (0, 1, 2, 3, 17), (0, 1)):
            whole = content(before * size + items * size + after * size, 2)
            for explicit in (True, False):
                n = items if explicit else items + after
                kw = {"item_length": items} if explicit else {}
                data = whole[before * size : (before + n) * size]
                for sname, steps in STEPS.items():
                    x = TYPES[kind](make(whole), item_offset=before, **kw)
                    y = JSUint8Array(JSArrayBuffer(b"<y>"), 1, 1)
                    for place, (value, path) in py_places(x, y).items():
                        if place not in ("alone", "same", "array", "after objects") and (items != 2 or bname not in ("JSArrayBuffer", "bytes")):
                            continue
                        r.states += 1
                        key = f"written for Node.js: {place} {kind} over {bname} at {before}, {n} items, explicit={explicit}, {sname}"
                        try:
                            got = dumps(value, encode_steps=steps())
                        except Exception as e:
                            r.violation(key, f"raised {exc_summary(e)}")
                            continue
                        cases.append([got.hex(), path])
                        want = [expect_parts(place, (kind, data), ("Uint8Array", b"y"))]
                        if sname == "refs last":
                            want.append(unshared(place, (kind, data), ("Uint8Array", b"y")))
                        wants.append(want)
                        keys.append(key)
                        # and back here
                        try:
                            v = loads(got)
                            x2 = v if place == "alone" else v[1] if place in ("array", "after objects") else v[0] if place == "same" else None
                            wrong = x2 is not None and is_view(x2, kind, data)
                        except Exception as e:
                            wrong = exc_summary(e)
                        if wrong:
                            r.violation(key, f"loads gives {wrong}")
    for part in chunks(list(range(len(cases))), max(1, len(cases) // 300)):
        out = js_eval(f"{READ_JS}({json.dumps([cases[i] for i in part])})")
        for i, got in zip(part, out):
            r.transitions += 1
            if got not in wants[i]:
                r.violation(keys[i], f"Node.js reads {json.dumps(got)[:300]}, expected {json.dumps(wants[i][0])[:300]}", f"hex = {cases[i][0]!r}")
            else:
                r.traces += 1
                r.outcomes["Node.js reads it"] += 1


def py_edges_task(r):
    """Views out of range, of buffers without bytes, and kinds Node.js doesn't have."""
    for sname, steps in STEPS.items():
        for kind, size in SIZES.items():
            # out of range after a resize: has no bytes
            for n in (None, 1, 2):
                b = JSArrayBuffer(4 * size, max_byte_length=8 * size)
                v = TYPES[kind](b, item_offset=1, item_length=n)
                for length in (8 * size, 2 * size, size, 0):
                    b.resize(length)
                    with b.data as d:
                        d[:] = content(length)
                    want = v.byte_length or 0
                    r.states += 1
                    data = content(length)[size : size + want] if v.is_in_range else b""
                    got = js_eval(f"{READ_JS}({json.dumps([[dumps([v, 'z'], encode_steps=steps()).hex(), '[v[0], v[1]]']])})")[0]
                    if got != [{"view": kind, "bytes": data.hex()}, "z"]:
                        r.violation(f"edge: {kind} {n} at {length} {sname}", f"Node.js reads {got}")
                    else:
                        r.traces += 1
            # the bytes of shared and transferred buffers aren't here: it must not be written as an empty view
            for bname, b in (("shared", JSSharedArrayBuffer(3)), ("transfer", JSArrayBufferTransfer(3))):
                for n in (None, 0, 2):
                    v = TYPES[kind](b, item_offset=1, item_length=n)
                    r.states += 1
                    key = f"edge: {kind} of {n} items of a {bname} buffer {sname}"
                    try:
                        data = dumps([v, "z"], encode_steps=steps())
                        back = loads(data)
                    except Exception as e:
                        if type(e).__module__.startswith("v8serialize"):
                            r.traces += 1
                            r.outcomes["refused"] += 1
                        else:
                            r.violation(key, f"raised {exc_summary(e)}")
                        continue
                    w = back[0]
                    if back[1] != "z" or type(w) is not TYPES[kind] or type(w.backing_buffer) is not type(b) or w.item_offset != 1 or (w.item_length or 0) != (n or 0):
                        r.violation(key, f"reads back as {w!r}", f"{PRE}print(dumps([{v!r}], encode_steps=STEPS[{sname!r}]()))")
                    else:
                        r.traces += 1
        # Float16Array isn't one of Node.js's kinds
        f16 = ArrayBufferViewStructFormat.Float16Array.view_type(JSArrayBuffer(b"abcd"))
        v = loads(dumps([f16, "z"], encode_steps=steps(), features=SerializationFeature.Float16Array))
        r.states += 1
        if type(v[0]) is not type(f16) or raw(v[0]) != b"abcd" or v[1] != "z":
            r.violation(f"edge: Float16Array {sname}", f"reads back as {v!r}")
        # values that aren't views are none of its business
        for value in (1, "a", [1], JSArrayBuffer(b"x"), b"x", None, JSObject(a=1)):
            r.states += 1
            if dumps(value, encode_steps=steps()) != dumps(value):
                r.violation(f"edge: {value!r} {sname}", "is written in another way")
            else:
                r.traces += 1


# -- D: custom host objects ------------------------------------------------------

# A value: int | str | ["arr", ...] | ["obj", id, [[k, v]...]] | ["host", id, [op...]] | ["same", id]
# An op of a host object's data: ["u32", n] | ["f64", x] | ["raw", hex] | ["val", value]

HOST_JS = r"""
(function (cases) {
  const made = () => {
    const ids = new Map(), recipes = new WeakMap();
    const make = (s) => {
      if (!Array.isArray(s)) return s;
      if (s[0] === 'arr') return s.slice(1).map(make);
      if (s[0] === 'same') return ids.get(s[1]);
      if (s[0] === 'obj') { const o = {}; ids.set(s[1], o); for (const [k, v] of s[2]) o[k] = make(v); return o; }
      const h = new Uint8Array(1);
      ids.set(s[1], h);
      recipes.set(h, s[2].map((op) => op[0] === 'val' ? ['val', make(op[1])] : op));
      return h;
    };
    return {make, recipes};
  };
  return cases.map(([spec, hex]) => {
    const out = {};
    try {
      const {make, recipes} = made();
      class S extends v8.Serializer {
        _writeHostObject(h) {
          const ops = recipes.get(h);
          this.writeUint32(ops.length);
          for (const [op, x] of ops) {
            if (op === 'u32') { this.writeUint32(0); this.writeUint32(x); }
            else if (op === 'f64') { this.writeUint32(1); this.writeDouble(x); }
            else if (op === 'raw') { const b = Buffer.from(x, 'hex'); this.writeUint32(2); this.writeUint32(b.length); this.writeRawBytes(b); }
            else { this.writeUint32(3); this.writeValue(x); }
          }
        }
      }
      const s = new S();
      s._setTreatArrayBufferViewsAsHostObjects(true);
      s.writeHeader();
      s.writeValue(make(spec));
      out.hex = s.releaseBuffer().toString('hex');
    } catch (e) { out.error = String(e); }
    try {
      class Host { constructor(ops) { this.ops = ops; } }
      class D extends v8.Deserializer {
        _readHostObject() {
          const n = this.readUint32(), ops = [];
          for (let i = 0; i < n; i++) {
            const k = this.readUint32();
            if (k === 0) ops.push(['u32', this.readUint32()]);
            else if (k === 1) ops.push(['f64', this.readDouble()]);
            else if (k === 2) ops.push(['raw', Buffer.from(this.readRawBytes(this.readUint32())).toString('hex')]);
            else if (k === 3) ops.push(['val', this.readValue()]);
            else throw new Error('bad op');
          }
          return new Host(ops);
        }
      }
      const d = new D(Buffer.from(hex, 'hex'));
      d.readHeader();
      const ids = new Map();
      const tell = (v) => {
        if (v === null || typeof v !== 'object') return v === undefined ? 'undefined' : v;
        if (ids.has(v)) return ['same', ids.get(v)];
        ids.set(v, ids.size);
        if (Array.isArray(v)) return ['arr', ids.get(v), ...v.map(tell)];
        if (v instanceof Host) return ['host', ids.get(v), v.ops.map(([o, x]) => o === 'val' ? [o, tell(x)] : [o, x])];
        return ['obj', ids.get(v), Object.keys(v).map((k) => [k, tell(v[k])])];
      };
      out.told = tell(d.readValue());
      let rest = 0;
      try { for (;;) { d.readRawBytes(1); rest++; } } catch (e) { /* end */ }
      out.rest = rest;
    } catch (e) { out.told = String(e); }
    return out;
  });
})
"""


class Host:
    """A host object: with or without a place for its data."""

    def __init__(self, ops):
        self.ops = ops


def build_py(spec, ids=None):
    ids = {} if ids is None else ids
    if not isinstance(spec, list):
        return spec
    if spec[0] == "arr":
        return JSArray([build_py(s, ids) for s in spec[1:]])
    if spec[0] == "same":
        return ids[spec[1]]
    if spec[0] == "obj":
        o = ids[spec[1]] = JSObject()
        for k, v in spec[2]:
            o[k] = build_py(v, ids)
        return o
    h = ids[spec[1]] = Host([])
    h.ops = [["val", build_py(x, ids)] if op == "val" else [op, x] for op, x in spec[2]]
    return h


def tell(v, ids=None):
    """The same as HOST_JS tells of a value."""
    ids = {} if ids is None else ids
    if not isinstance(v, (JSObject, JSArray, Host)):
        return v
    if id(v) in ids:
        return ["same", ids[id(v)]]
    n = ids[id(v)] = len(ids)
    if isinstance(v, JSArray):
        return ["arr", n, *(tell(x, ids) for x in v.array)]
    if isinstance(v, Host):
        return ["host", n, [["val", tell(x, ids)] if op == "val" else [op, x] for op, x in v.ops]]
    return ["obj", n, [[k, tell(x, ids)] for k, x in v.items()]]


def write_host(stream, value, ctx, log):
    log.append((value, bytes(stream.data[-1:])))
    stream.write_uint32(len(value.ops), tag=None)
    for op, x in value.ops:
        stream.write_uint32(["u32", "f64", "raw", "val"].index(op), tag=None)
        if op == "u32":
            stream.write_uint32(x, tag=None)
        elif op == "f64":
            stream.write_double(x, tag=None)
        elif op == "raw":
            stream.write_uint32(len(x) // 2, tag=None)
            stream.data.extend(bytes.fromhex(x))
        else:
            ctx.encode_object(x)


def dump_hosts(value, style, identity):
    """Write a value with Hosts in it with a custom serializer of some style."""
    log, seen = [], []

    def step(v, /, ctx, next):
        if not isinstance(v, Host):
            return next(v)
        seen.append(v)
        if style == "fn":

            def serializer(*, stream, value):
                write_host(stream, value, ctx, log)
        elif style == "method":

            class Serializer:
                def serialize_host_object(self, *, stream, value):
                    write_host(stream, value, ctx, log)

            serializer = Serializer()
        else:  # both: an object with the method that's also callable

            class Both:
                def __call__(self, **kw):
                    raise AssertionError("called")

                def serialize_host_object(self, *, stream, value):
                    write_host(stream, value, ctx, log)

            serializer = Both()
        ctx.stream.write_host_object(v, serializer=serializer, **({"identity": v} if identity else {}))

    data = dumps(value, encode_steps=[serialize_object_references, step, TagWriter()])
    if [id(a) for a, _b in log] != [id(v) for v in seen] or any(b != b"\\" for _a, b in log):
        raise AssertionError(f"the serializer got {log}, for {seen}")
    return data


def load_hosts(data, style, entry):
    """Read with a custom deserializer of some style."""
    log = []
    steps = []

    def read(stream):
        h = Host([])
        log.append((stream, bytes(stream.data[stream.pos - 1 : stream.pos])))
        for _ in range(stream.read_varint()):
            k = stream.read_varint()
            if k == 0:
                h.ops.append(["u32", stream.read_uint32()])
            elif k == 1:
                h.ops.append(["f64", stream.read_double()])
            elif k == 2:
                h.ops.append(["raw", bytes(stream.read_bytes(stream.read_varint())).hex()])
            elif k == 3:
                h.ops.append(["val", DefaultDecodeContext(stream=stream, decode_steps=steps).decode_object()])
            else:
                raise ValueError("bad op")
        return h

    if style == "fn":

        def deserializer(*, stream):
            return read(stream)
    elif style == "method":

        class Deserializer:
            def deserialize_host_object(self, *, stream):
                return read(stream)

        deserializer = Deserializer()
    else:

        class Both:
            def __call__(self, **kw):
                raise AssertionError("called")

            def deserialize_host_object(self, *, stream):
                return read(stream)

        deserializer = Both()
    steps.append(TagReader(host_object_deserializer=deserializer))
    if entry == "loads":
        v = loads(data, host_object_deserializer=deserializer)
    else:
        ctx = DefaultDecodeContext(data=data, decode_steps=steps)
        ctx.stream.read_header()
        v = ctx.decode_object()
        if not ctx.stream.eof:
            raise AssertionError(f"stopped at {ctx.stream.pos} of {len(data)}")
    if any(b != b"\\" for _s, b in log) or len({id(s) for s, _b in log}) > 1:
        raise AssertionError(f"the deserializer got {log}")
    return v


OPS = [["u32", 0], ["u32", 300], ["f64", -1.5], ["raw", ""], ["raw", "5c6f7b"], ["val", 7], ["val", "s"], ["val", ["arr", 1, "x"]]]


def host_specs(depth):
    """Specs of values with host objects, whose data has up to depth parts."""
    recipes = [list(x) for d in range(depth + 1) for x in itertools.product(OPS, repeat=d)]
    for ops in recipes:
        h = ["host", "h", ops]
        yield "alone", h
        yield "array", ["arr", 1, h, "after", ["same", "h"]]
        yield "object", ["obj", "o", [["a", h], ["b", ["same", "h"]], ["c", ["same", "o"]]]]
    small = [list(x) for d in range(min(depth, 2) + 1) for x in itertools.product([OPS[1], OPS[4], OPS[7]], repeat=d)]
    for ops, ops2 in itertools.product(small, repeat=2):
        a, b = ["host", "a", ops], ["host", "b", ops2]
        yield "two", ["arr", ["obj", "o", [["n", 1]]], a, b, ["same", "o"], ["same", "a"], ["same", "b"], "after"]
        yield "nested", ["arr", ["obj", "o", []], ["host", "a", [*ops, ["val", b], *ops2]], ["same", "b"], ["same", "a"], ["same", "o"]]
        yield "outer ref", ["arr", ["obj", "o", []], ["host", "a", [*ops, ["val", ["same", "o"]], ["val", ["arr", b, ["same", "o"]]], *ops2]], ["same", "b"], ["same", "o"]]
        yield "inner object", ["arr", ["host", "a", [["val", ["obj", "i", [["k", b]]]], *ops]], ["same", "i"], ["same", "b"], ["same", "a"], "z"]


def custom_task(r, specs):
    written, keys = [], []
    for n, (name, spec) in enumerate(specs):
        key = f"custom: {name} {json.dumps(spec)}"
        r.states += 1
        want = tell(build_py(spec))
        streams = set()
        for style, identity in itertools.product(("fn", "method", "both"), (False, True)):
            r.transitions += 1
            try:
                streams.add(dump_hosts(build_py(spec), style, identity))
            except Exception as e:
                r.violation(key, f"writing by {style}: raised {exc_summary(e)}", f"{PRE}print(dump_hosts(build_py({spec!r}), {style!r}, {identity!r}))")
        if len(streams) != 1:
            r.violation(key, f"is written in different ways: {streams}")
            continue
        (data,) = streams
        written.append((key, spec, data, want))
    for part in chunks(written, max(1, len(written) // 200)):
        replies = js_eval(f"{HOST_JS}({json.dumps([[s, d.hex()] for _k, s, d, _w in part])})")
        for (key, spec, data, want), reply in zip(part, replies):
            if reply["told"] != want or reply.get("rest"):
                r.violation(key, f"V8 reads {reply['told']}, {reply.get('rest')} bytes left, expected {want}", f"data = {data!r}")
            else:
                r.traces += 1
            if "error" in reply:
                raise RuntimeError(reply["error"])
            for source, d in (("V8's", bytes.fromhex(reply["hex"])), ("its own", data)):
                for style, entry in (("fn", "loads"), ("method", "loads"), ("both", "loads"), ("fn", "context"), ("both", "context")):
                    r.transitions += 1
                    try:
                        got = tell(load_hosts(d, style, entry))
                    except Exception as e:
                        got = exc_summary(e)
                    if got != want:
                        r.violation(f"{key} {source}", f"reads {got}, expected {want}", f"{PRE}print(tell(load_hosts({d!r}, {style!r}, {entry!r})))")
                    else:
                        r.traces += 1
                        r.outcomes["custom"] += 1


def results_task(r):
    """Whatever a deserializer returns is the value, and what references to it give; errors pass through."""
    odd = [None, False, 0, "", (), [], {}, JSHole, 5, "x", b"", object(), Host([]), JSErrorData(), float("nan"), NotImplemented, Exception("e"), int]
    for v in odd:
        for style in ("fn", "method"):
            def read(*, stream, v=v):
                stream.read_varint()
                return v

            d = read if style == "fn" else type("D", (), {"deserialize_host_object": staticmethod(read)})()
            for tpl, path in (
                (b"A\x03\\\x05^\x01T$\0\x03", lambda x: [x[0], x[1]]), (b"\\\x05", lambda x: [x]),
                (b'o"\x01a\\\x05"\x01b^\x01{\x02', lambda x: [x["a"], x["b"]]), (b"r.", None), (b";I\x02\\\x05:\x02", lambda x: [x[1]]),
            ):  # fmt: skip
                if path is None:
                    continue
                r.states += 1
                key = f"result: {v!r} {style} {tpl!r}"
                try:
                    got = path(loads(b"\xff\x0f" + tpl, host_object_deserializer=d))
                except Exception as e:
                    if v is JSHole:
                        continue
                    r.violation(key, f"raised {exc_summary(e)}")
                    continue
                if any(g is not v for g in got):
                    if v is JSHole:
                        continue  # (a hole in an array isn't a value)
                    r.violation(key, f"gave {got!r}")
                else:
                    r.traces += 1
    # an object that's referred to before the deserializer returns
    def early(*, stream):
        return DefaultDecodeContext(stream=stream, decode_steps=[TagReader()]).decode_object()

    for inner in (b"^\0", b"A\x01^\0$\0\x01", b'o"\x01a^\0{\x01'):
        r.states += 1
        try:
            v = loads(b"\xff\x0f\\" + inner, host_object_deserializer=early)
        except DecodeV8SerializeError:
            r.traces += 1
        except Exception as e:
            r.violation(f"early reference {inner!r}", f"raised {exc_summary(e)}")
        else:
            r.violation(f"early reference {inner!r}", f"gave {v!r}")
    # errors of the deserializer and the serializer are the caller's
    for error in (ValueError("mine"), KeyError("mine"), StopIteration("mine"), KeyboardInterrupt("mine"), DecodeV8SerializeError("mine", position=0, data=b"")):
        for where in (b"\\", b"A\x01\\", b";\\", b"'\\", b'o"\x01a\\', b"rc\\"):
            def fail(*, stream, error=error):
                raise error

            r.states += 1
            try:
                loads(b"\xff\x0f" + where, host_object_deserializer=fail)
            except BaseException as e:
                if e is error or isinstance(error, StopIteration) and isinstance(e, RuntimeError):
                    r.traces += 1
                else:
                    r.violation(f"deserializer raises {error!r} in {where!r}", f"raised {exc_summary(e)}")
            else:
                r.violation(f"deserializer raises {error!r} in {where!r}", "is ignored")

        def wfail(*, stream, value, error=error):
            raise error

        r.states += 1
        ctx = DefaultEncodeContext(stream=WritableTagStream())
        try:
            ctx.stream.write_host_object(Host([]), serializer=wfail)
        except BaseException as e:
            if e is not error:
                r.violation(f"serializer raises {error!r}", f"raised {exc_summary(e)}")
        else:
            r.violation(f"serializer raises {error!r}", "is ignored")
    # without a deserializer
    node = b"\\\x01\x02hi"
    for tpl in (node, b"A\x01" + node + b"$\0\x01", b'o"\x01a' + node + b"{\x01", b";" + node + b"T:\x02", b"'" + node + b",\x01", b"rc" + node + b"."):
        data = b"\xff\x0f" + tpl
        for how, f in {
            "nodejs=False": lambda d: loads(d, nodejs=False), "TagReader()": lambda d: loads(d, decode_steps=[TagReader()]), "default steps": lambda d: DefaultDecodeContextRead(d),
        }.items():  # fmt: skip
            r.states += 1
            try:
                v = f(data)
            except DecodeV8SerializeError as e:
                if e.position != data.index(b"\\") + 1:
                    r.violation(f"no deserializer: {how} {tpl!r}", f"error at {e.position}")
                r.traces += 1
            except Exception as e:
                r.violation(f"no deserializer: {how} {tpl!r}", f"raised {exc_summary(e)}")
            else:
                r.violation(f"no deserializer: {how} {tpl!r}", f"gave {v!r}")


def DefaultDecodeContextRead(data):
    ctx = DefaultDecodeContext(data=data)
    ctx.stream.read_header()
    return ctx.decode_object()


def main(check):
    t = check.thorough
    check.bounds = {
        "Node.js to Python": f"13 kinds x offsets x item counts up to {300 if t else 20} and around every length boundary up to 70000 bytes x {len(PLACES)} places with sharing, 7 ways to read",
        "encoding": "view codes 0-19 and large, all lengths to 34 bytes and around boundaries, non-minimal varints, every truncation",
        "Python to Node.js": "12 kinds x 8 kinds of buffer x offsets x lengths x 10 places with sharing x both orders of the steps",
        "custom": f"data of up to {3 if t else 2} parts of 8 kinds, nested host objects, references across; written and read by both sides",
    }
    check.assumptions = ["Node.js's own handling is that of the installed node", "a memoryview that isn't contiguous isn't a buffer"]
    cases = []
    for kind in CODES:
        size = SIZES.get(kind, 1)
        other = CODES[(CODES.index(kind) + 5) % len(CODES)]
        for items in [*range(300 if t else 20), 127 // size, 128 // size, 129 // size + 1, 255, 256, 16383 // size, 16384 // size, 65535 // size, 65536 // size, 70000 // size]:
            for offset in (0, size, 8 * size) if items < 300 else (size,):
                for place in PLACES if items in (0, 1, 3, 19) else ("alone", "array", "same"):
                    cases.append((kind, offset, items, place, other))
    for a, b in itertools.product(CODES, repeat=2):
        for place in PLACES:
            cases.append((a, 8, 2, place, b))
    check.phase("written by Node.js", [(node_written_task, (c,)) for c in chunks(cases, 64)])
    check.phase("encodings", [(encodings_task, (code,)) for code in (*range(20), 127, 128, 255, 256, 2**31, 2**32 - 1)])
    check.phase("written for Node.js", [(py_written_task, (k,)) for k in SIZES] + [(py_edges_task, ()), (results_task, ())])
    specs = list(host_specs(3 if t else 2))
    check.phase("custom host objects", [(custom_task, (c,)) for c in chunks(specs, 48)])



