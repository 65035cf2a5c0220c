"""C14: buffers and views track resizing like JavaScript's."""

from __future__ import annotations

import array
import itertools
import json

from v8serialize import dumps, loads
from v8serialize.constants import ArrayBufferViewTag, SerializationFeature
from v8serialize.jstypes import ArrayBufferViewStructFormat, JSArrayBuffer, JSDataView, create_view

from .. import nodejs
from ..core import chunks, exc_summary
from ..space import Space

SIZES = {
    "Int8Array": 1, "Uint8Array": 1, "Uint8ClampedArray": 1, "Int16Array": 2, "Uint16Array": 2, "Int32Array": 4,
    "Uint32Array": 4, "Float16Array": 2, "Float32Array": 4, "Float64Array": 8, "BigInt64Array": 8, "BigUint64Array": 8,
    "DataView": 1,
}  # fmt: skip
TYPES = {name: ArrayBufferViewStructFormat[name].view_type for name in SIZES}
INTS = {"Int8Array", "Uint8Array", "Uint8ClampedArray", "Int16Array", "Uint16Array", "Int32Array", "Uint32Array"}
LITTLE = True


# -- the implementation and its model behind one interface ---------------------


class Impl:
    """specs: (type name, item offset, item length or None)."""

    def __init__(self, source, specs, byte_length, max_byte_length):
        if source == "bytearray":
            self.buffer = bytearray(byte_length)
            self.size = max_byte_length
        elif source == "wrapped":
            self.buffer = JSArrayBuffer(bytearray(byte_length), max_byte_length=max_byte_length, copy_data=False)
        else:
            self.buffer = JSArrayBuffer(byte_length, max_byte_length=max_byte_length)
        self.views = [TYPES[t](self.buffer, item_offset=o, item_length=n) for t, o, n in specs]

    def resize(self, n):
        if isinstance(self.buffer, bytearray):
            if n < 0 or n > max(8, self.size):
                raise ValueError(n)
            del self.buffer[n:]
            self.buffer.extend(bytes(max(0, n - len(self.buffer))))
        else:
            return self.buffer.resize(n)

    def raw(self, i, v):
        with self.data() as d:
            d[i] = v

    def data(self):
        return memoryview(self.buffer) if isinstance(self.buffer, bytearray) else self.buffer.data

    def put(self, k, i, v):
        """Write element i of view k."""
        with self.views[k].get_buffer() as b:
            if isinstance(self.views[k], JSDataView):
                b.set_uint8(i, v)
            elif i < 0:
                raise IndexError(i)
            else:
                b[i] = v


class Model:
    def __init__(self, specs, byte_length, max_byte_length):
        self.bytes = bytearray(byte_length)
        self.max = max_byte_length
        self.specs = specs

    def resize(self, n):
        if not 0 <= n <= self.max:
            raise ValueError(n)
        self.bytes = self.bytes[:n].ljust(n, b'\0')

    def raw(self, i, v):
        self.bytes[i] = v

    def range(self, k):
        """(in range, byte offset, byte length)"""
        t, o, n = self.specs[k]
        size = SIZES[t]
        have = len(self.bytes)
        if n is None:
            ok = o * size <= have
            length = (have - o * size) // size * size
        else:
            ok = (o + n) * size <= have
            length = n * size
        return (True, o * size, length) if ok else (False, 0, 0)

    def put(self, k, i, v):
        ok, start, length = self.range(k)
        size = SIZES[self.specs[k][0]]
        if not 0 <= i * size < length:
            if self.specs[k][0] == "DataView":
                raise ValueError(i)
            raise IndexError(i)
        self.bytes[start + i * size : start + (i + 1) * size] = v.to_bytes(size, "little")


def observe(x):
    if isinstance(x, Model):
        out = {"bytes": bytes(x.bytes).hex()}
        for k, (t, o, n) in enumerate(x.specs):
            ok, start, length = x.range(k)
            items = length // SIZES[t]
            out[f"{t} view at item {o} of length {n}"] = (
                ok, start, length, n is None, True, x.bytes[start : start + length].hex(), items, length,
            )  # fmt: skip
        return out
    with x.data() as d:
        out = {"bytes": bytes(d).hex()}
    for v in x.views:
        with v.get_buffer_as_memoryview() as raw, v.get_buffer() as b:
            whole = bytes(b.buffer if isinstance(v, JSDataView) else b).hex()
            out[f"{type(v).__name__[2:].replace('Big','Big')} view at item {v.item_offset} of length {v.item_length}"] = (
                v.is_in_range, v.byte_offset, v.byte_length, v.is_length_tracking, v.is_backing_buffer_resizable, raw.hex() if raw.hex() == whole else (raw.hex(), whole), len(b), len(raw),
            )  # fmt: skip
    return out


def specs_for(types, size):
    out = []
    for t in types:
        s = SIZES[t]
        for o in range(0, size // s + 2):
            out.append((t, o, None))
            for n in range(0, size // s - o + 2):
                out.append((t, o, n))
    return out


def statements(model, sizes, writes):
    out = [f"r = a.resize({n})" for n in sizes]
    if writes:
        have = len(model.bytes)
        out += [f"a.raw({i}, 255)" for i in {0, have - 1} if i >= 0 and have]
        for k, (t, _, _) in enumerate(model.specs):
            if t in INTS and t not in ("Int8Array", "Int16Array", "Int32Array") or t == "DataView":
                n = model.range(k)[2] // SIZES[t]
                out += [f"a.put({k}, {i}, 1)" for i in sorted({0, n - 1, n}) if i >= 0]
    return out


def history_task(r, source, specs, size, depth, writes, part):
    specs = tuple(specs)
    scope = {}
    s = Space(
        r, "views", scope, lambda v: v, observe, key=lambda m: bytes(m.bytes),
        prelude="from mc.checks.c14 import *\n",
        same=lambda got, want: isinstance(got, (type(want), ValueError if isinstance(want, ValueError) else type(want))),
    )  # fmt: skip
    inits = {
        f"Impl({source!r}, {specs!r}, {n}, {size})": (
            lambda n=n: Impl(source, specs, n, size),
            lambda n=n: Model(specs, n, size),
        )
        for n in (0, size // 2, size)
    }
    sizes = range(-1, size + 2)
    s.explore(inits, lambda m: statements(m, sizes, writes), depth, part=part)


def lengths_task(r, source, t, size, pairs):
    """Every length of the buffer, reached from a longer (and from every other) one, by views of up to 3 items."""
    specs = tuple((t, o, n) for o in (0, 1, 2) for n in (None, 0, 1, 2, 3))
    for first in range(size + 1) if pairs else (size,):
        impl, model = Impl(source, specs, size, size), Model(specs, size, size)
        for x in (impl, model):
            x.resize(size)
            for i in range(size):
                x.raw(i, i + 1)
            x.resize(first)
        for n in (*range(size, -1, -1), *range(size + 1)):
            if source == "bytearray" and n == len(model.bytes):
                continue
            impl.resize(n)
            model.resize(n)
            r.transitions += 1
            got, want = observe(impl), observe(model)
            for k in want:
                if got[k] != want[k]:
                    r.violation(f"lengths: {source} {k} at {n} of {size} bytes", f"{got[k]}, expected {want[k]}")
            r.states += 1
            r.outcomes["length"] += 1


# -- the model against V8 ------------------------------------------------------

JS = r"""
(function (specs, size, histories) {
  return histories.map((h) => {
    const buffer = new ArrayBuffer(size, {maxByteLength: size});
    const views = specs.map(([t, o, n]) => {
      const T = globalThis[t], s = T.BYTES_PER_ELEMENT || 1;
      return n === null ? new T(buffer, o * s) : new T(buffer, o * s, n);
    });
    const out = [];
    for (const [op, a, b, c] of h) {
      if (op === 'resize') buffer.resize(a);
      else if (op === 'raw') new Uint8Array(buffer)[a] = b;
      else if (views[a] instanceof DataView) views[a].setUint8(b, c);
      else views[a][b] = c;
    }
    out.push(Buffer.from(buffer).toString('hex'));
    for (const v of views) {
      let off, len, bytes = '';
      try { off = v.byteOffset; len = v.byteLength; bytes = len ? Buffer.from(buffer, off, len).toString('hex') : ''; }
      catch (e) { off = 0; len = 0; }
      out.push([off, len, bytes]);
    }
    return out;
  });
})"""


def validate_task(r, types, size, depth, part, parts):
    """The model behaves like V8 for every history."""
    specs = [s for s in specs_for(types, size) if s[1] * SIZES[s[0]] + (s[2] or 0) * SIZES[s[0]] <= size]
    put = next(k for k, s in enumerate(specs) if s[0] in INTS and s[1] == 1 and s[2] is None)
    ops = [("resize", n) for n in range(size + 1)] + [("raw", 0, 7), ("put", put, 0, 1)]
    # (a V8 DataView or array write out of range isn't an error / is one: only writes in range are replayed)
    wanted, histories = [], []
    for d in range(depth + 1):
        for h in itertools.islice(itertools.product(ops, repeat=d), part, None, parts):
            m = Model(specs, size, size)
            try:
                for op, *args in h:
                    getattr(m, op)(*args)
            except (IndexError, ValueError):
                continue
            histories.append(h)
            o = observe(m)
            wanted.append([o["bytes"], *([v[1], v[2], v[5]] for k, v in o.items() if k != "bytes")])
    for i in range(0, len(histories), 500):
        src = f"JSON.stringify({JS}({json.dumps(specs)},{size},{json.dumps(histories[i : i + 500])}))"
        (reply,) = nodejs.batch([{"op": "eval", "src": src}])
        for h, a, b in zip(histories[i : i + 500], wanted[i : i + 500], json.loads(reply["ok"])):
            r.traces += 1
            if a != b:
                raise RuntimeError(f"the model differs from V8 after {h}: {a} {b}")


# -- values from V8 and to V8, then resized ------------------------------------

WIRE = r"""
(function (specs, size, now, sizes, b) {
  if (!b) {
    const buffer = new ArrayBuffer(size, {maxByteLength: size});
    new Uint8Array(buffer).set([...Array(size).keys()].map((i) => i + 1));
    const views = specs.map(([t, o, n]) => {
      const T = globalThis[t], s = T.BYTES_PER_ELEMENT || 1;
      return n === null ? new T(buffer, o * s) : new T(buffer, o * s, n);
    });
    buffer.resize(now);
    b = [buffer, ...views];
    const s = new (v8.Serializer)();
    s._setTreatArrayBufferViewsAsHostObjects(false);
    s.writeHeader(); s.writeValue(b);
    return s.releaseBuffer().toString('hex');
  }
  const [buffer, ...views] = v8.deserialize(Buffer.from(b, 'hex'));
  return JSON.stringify(sizes.map((n) => {
    buffer.resize(n);
    return [Buffer.from(buffer).toString('hex'), ...views.map((v) => {
      try { return [v.byteOffset, v.byteLength]; } catch (e) { return [0, 0]; }
    })];
  }));
})"""


def wire_task(r, types, size):
    """Buffers and views that crossed the wire behave the same afterwards."""
    specs = [s for s in specs_for(types, size) if (s[1] + (s[2] or 0)) * SIZES[s[0]] <= size]
    sizes = [*range(size, -1, -1), *range(size + 1)]
    for now in range(size + 1):
        # V8 doesn't serialize out-of-bounds views
        m = Model(specs, now, size)
        here = [s for k, s in enumerate(specs) if m.range(k)[0]]
        args = f"{json.dumps(here)},{size},{now},{json.dumps(sizes)}"
        src = f"{WIRE}({args})"
        (reply,) = nodejs.batch([{"op": "eval", "src": src}])
        data = bytes.fromhex(reply["ok"])
        buffer, *views = loads(data).array
        out = dumps([buffer, *views], features=SerializationFeature.ResizableArrayBuffers)
        src = src.replace(args, args + f",'{out.hex()}'")
        (reply,) = nodejs.batch([{"op": "eval", "src": src}])
        if "err" in reply:
            r.violation(f"wire: {size} {now}", f"V8 can't read it back: {reply['err']}", data.hex())
            continue
        for n, there in zip(sizes, json.loads(reply["ok"])):
            buffer.resize(n)
            got = [bytes(buffer.data).hex(), *([v.byte_offset, v.byte_length] for v in views)]
            r.transitions += 1
            if got != there:
                for s, a, b in zip(["buffer", *here], got, there):
                    if a != b:
                        r.violation(f"wire: {s} {now} {n}", f"{s}: {a}, but {b} in V8 after resizing {now} to {n}", data.hex())
            else:
                r.traces += 1


# -- creation ------------------------------------------------------------------

CREATE = r"""
(function (t, size, max, cases) {
  const buffer = max === null ? new ArrayBuffer(size) : new ArrayBuffer(size, {maxByteLength: max});
  const T = globalThis[t];
  return cases.map(([o, n]) => {
    try {
      const v = n === null ? new T(buffer, o) : new T(buffer, o, n);
      return [v.byteOffset, v.byteLength];
    } catch (e) { return null; }
  });
})"""


def create_task(r, t, size):
    s = SIZES[t]
    for max_ in (None, size, size + 1, size + s):
        cases = [
            (o, n)
            for o in range(-s, size + s + 2)
            for n in (None, *range(-1, size // s + 3))
        ]  # fmt: skip
        if t == "Float16Array":  # not in this V8
            src = f"JSON.stringify({CREATE}('Int16Array',{size},{json.dumps(max_)},{json.dumps(cases)}))"
        else:
            src = f"JSON.stringify({CREATE}('{t}',{size},{json.dumps(max_)},{json.dumps(cases)}))"
        (reply,) = nodejs.batch([{"op": "eval", "src": src}])
        for (o, n), want in zip(cases, json.loads(reply["ok"])):
            data = bytes(range(1, size + 1))
            sources = [("JSArrayBuffer", JSArrayBuffer(data, max_byte_length=max_))]
            if max_ is None:
                sources += [("bytes", data), ("memoryview", memoryview(data)), ("readonly", JSArrayBuffer(data, readonly=True))]
                sources += [("nested", JSArrayBuffer(memoryview(data), copy_data=False))]
            elif max_ == size:
                sources += [("bytearray", bytearray(data))]
            for name, buf in sources:
                makers = [
                    ("create_view tag", lambda **k: create_view(buf, ArrayBufferViewTag[f"k{t}"], **k)),
                    ("from_bytes", lambda **k: TYPES[t].from_bytes(buf, **k)),
                ]
                if t not in ("Uint8ClampedArray", "DataView"):
                    # (a data format names its first type)
                    makers.append(("create_view format", lambda **k: create_view(buf, TYPES[t].data_format, **k)))
                makers.append(("create_view struct", lambda **k: create_view(buf, ArrayBufferViewStructFormat[t], **k)))
                for how, make in makers:
                    r.transitions += 1
                    key = f"create: {t} on {name} of {size} max {max_}: offset {o} items {n} by {how}"
                    kw = {"byte_offset": o, "byte_length": None if n is None else n * s}
                    held = got = None
                    try:
                        v = make(**kw)
                    except ValueError as e:
                        held = e  # (an exception that's kept must not keep the buffer exported)
                    else:
                        got = [v.byte_offset, v.byte_length]
                        if type(v) is not TYPES[t] or v.backing_buffer is not buf:
                            got = f"{type(v)}, {v.backing_buffer!r}"
                        elif v.is_length_tracking != (n is None and max_ is not None):
                            got = f"is_length_tracking={v.is_length_tracking}"
                        else:
                            with v.get_buffer_as_memoryview() as mv:
                                if bytes(mv) != data[want[0] : sum(want)] if want else False:
                                    got = f"bytes {bytes(mv)!r}"
                    if got != want:
                        r.violation(key, f"{held!r}" if held else f"{got}, expected {want}", f"{how}({name}, {kw})")
                    else:
                        r.traces += 1
                        r.outcomes["refused" if want is None else "created"] += 1
                    if name == "JSArrayBuffer" and max_:
                        buf.resize(max_)
                        buf.resize(size)
                        with buf.data as d:
                            d[:] = data
                    if n is not None and s > 1 and n >= 0:
                        # a byte length that isn't whole items is refused
                        for extra in range(1, s):
                            try:
                                make(byte_offset=o, byte_length=n * s + extra)
                            except ValueError:
                                r.outcomes["refused"] += 1
                            else:
                                r.violation(key + f" + {extra}", "byte_length of partial items is accepted")


# -- constructing buffers ------------------------------------------------------


def construct_task(r):
    sources = {
        "None": lambda: None, "bytes": lambda: b"abc", "bytearray": lambda: bytearray(b"abc"), "empty": lambda: b"",
        "memoryview": lambda: memoryview(b"abc"), "memoryview rw": lambda: memoryview(bytearray(b"abc")),
        "sliced": lambda: memoryview(bytearray(b"xabcx"))[1:4], "array": lambda: array.array("H", [0x6261, 0x6463]),
        "cast": lambda: memoryview(bytearray(b"abcd")).cast("H"), "count": lambda: 3, "zero": lambda: 0,
    }  # fmt: skip
    for (sname, src), max_, resizable, copy, ro in itertools.product(
        sources.items(), (None, 0, 2, 3, 4, 9), (None, False, True), (None, False, True), (None, False, True)
    ):
        r.transitions += 1
        key = f"construct: {sname} max={max_} resizable={resizable} copy={copy} readonly={ro}"
        source = src()
        kw = {"max_byte_length": max_, "resizable": resizable, "copy_data": copy, "readonly": ro}
        content = bytes(source) if source is not None else b""
        wants_resize = resizable is True or max_ is not None
        shared = copy is False and not isinstance(source, (int, type(None)))
        expect_ok = not (wants_resize and ro) and not (max_ is not None and len(content) > max_)
        if wants_resize and shared and not isinstance(source, bytearray):
            expect_ok = False
        try:
            b = JSArrayBuffer(source, **kw)
        except ValueError:
            if expect_ok:
                r.violation(key, "refused")
            r.outcomes["refused"] += 1
            continue
        if not expect_ok:
            r.violation(key, "accepted")
            continue
        r.outcomes["constructed"] += 1

        def bad(what, key=key, kw=kw, sname=sname):
            r.violation(key, what, f"JSArrayBuffer({sname}, **{kw})")

        with b.data as d:
            if bytes(d) != content or d.nbytes != len(content) or d.format != "B":
                bad(f"data is {bytes(d)!r}")
            readonly = d.readonly
        source_ro = isinstance(source, bytes) or isinstance(source, memoryview) and source.readonly
        if readonly != (bool(ro) or shared and source_ro):
            bad(f"data.readonly is {readonly}")
        if b.resizable != wants_resize or b.max_byte_length != (len(content) if max_ is None else max_):
            bad(f"resizable={b.resizable} max_byte_length={b.max_byte_length}")
        # writes reach the source when it's shared, and only then
        if not readonly and content:
            with b.data as d:
                d[0] = 0x7A
            if isinstance(source, int) or source is None:
                pass
            elif bytes(source) != ((b"z" + content[1:]) if shared else content):
                bad(f"after a write the source is {bytes(source)!r}")
        if isinstance(source, bytearray):
            before = bytes(b.data)
            try:
                source[0] = 0x79
            except IndexError:
                pass
            if (bytes(b.data) != before) != (shared and bool(source)):
                bad("a write to the source " + ("isn't" if shared else "is") + " seen")
        for n in (-1, 0, 1, b.max_byte_length, b.max_byte_length + 1):
            was = bytes(b.data)
            try:
                b.resize(n)
            except ValueError:
                if wants_resize and 0 <= n <= b.max_byte_length:
                    bad(f"resize({n}) refused")
                if bytes(b.data) != was:
                    bad(f"resize({n}) failed but changed data")
            else:
                if not wants_resize or not 0 <= n <= b.max_byte_length:
                    bad(f"resize({n}) accepted")
                elif bytes(b.data) != was[:n].ljust(n, b'\0'):
                    bad(f"resize({n}) made {was!r} {bytes(b.data)!r}")
                if shared and isinstance(source, bytearray) and bytes(source) != bytes(b.data):
                    bad(f"resize({n}) left the wrapped bytearray {source!r}")
        # closing releases our view of the source but not the caller's
        b.close()
        if isinstance(source, memoryview):
            try:
                bytes(source)
                source.obj  # noqa: B018
            except ValueError:
                bad("close() released the caller's memoryview")
        if isinstance(source, bytearray):
            try:
                source.append(1)
            except BufferError:
                if not ro:  # the toreadonly() view of a readonly buffer is released too
                    bad("close() leaves the source exported")


# -- readonly ------------------------------------------------------------------


def attempts(view):
    """Ways to write through a view: (name, function(readonly))."""
    yield "get_buffer_as_memoryview", lambda ro: view.get_buffer_as_memoryview(readonly=ro)
    if isinstance(view, JSDataView):
        yield "get_buffer().buffer", lambda ro: view.get_buffer(readonly=ro).buffer
        yield "memoryview(get_buffer())", lambda ro: memoryview(view.get_buffer(readonly=ro))
    else:
        yield "get_buffer", lambda ro: view.get_buffer(readonly=ro)
        yield "get_buffer().cast", lambda ro: view.get_buffer(readonly=ro).cast("B")


def readonly_task(r):
    for t in TYPES:
        for kind, vro, aro, item_length in itertools.product(
            ("bytes", "bytearray", "mv ro", "mv rw", "js", "js ro", "js ro copy", "js ro shared", "js wrap bytes", "js resizable"),
            (None, True), (None, True), (None, 1),
        ):  # fmt: skip
            base = bytearray(range(16))
            buf = {
                "bytes": lambda: bytes(base), "bytearray": lambda: base, "mv ro": lambda: memoryview(base).toreadonly(),
                "mv rw": lambda: memoryview(base), "js": lambda: JSArrayBuffer(base, copy_data=False),
                "js ro": lambda: JSArrayBuffer(base, copy_data=False, readonly=True),
                "js ro copy": lambda: JSArrayBuffer(base, readonly=True),
                "js ro shared": lambda: JSArrayBuffer(memoryview(base), copy_data=False, readonly=True),
                "js wrap bytes": lambda: JSArrayBuffer(bytes(base), copy_data=False),
                "js resizable": lambda: JSArrayBuffer(base, copy_data=False, max_byte_length=16),
            }[kind]()  # fmt: skip
            locked = kind in ("bytes", "mv ro", "js ro", "js ro copy", "js ro shared", "js wrap bytes")
            view = TYPES[t](buf, item_offset=1, item_length=item_length, readonly=vro)
            others = [create_view(buf, ArrayBufferViewStructFormat[t], byte_offset=SIZES[t], byte_length=SIZES[t], readonly=vro)]
            for v in [view, *others]:
                for how, get in attempts(v):
                    r.transitions += 1
                    key = f"readonly: {t} on {kind} view {vro} access {aro} {how}"
                    want = bool(locked or vro or aro)
                    b = get(aro)
                    if b.readonly != want:
                        r.violation(key, f"readonly is {b.readonly}, expected {want}")
                    before = bytes(base)
                    mv = b if b.format == "B" else b.cast("B")
                    try:
                        mv[0] = mv[0] ^ 0xFF
                    except TypeError:
                        if not want:
                            r.violation(key, "can't write")
                        if bytes(base) != before:
                            r.violation(key, "a refused write changed the data")
                    else:
                        at = SIZES[t]
                        if want:
                            r.violation(key, "written though readonly")
                        elif bytes(base) != before[:at] + bytes([before[at] ^ 0xFF]) + before[at + 1 :]:
                            r.violation(key, f"wrote {bytes(base).hex()}")
                        else:
                            r.traces += 1
                    if isinstance(v, JSDataView):
                        dv = v.get_buffer(readonly=aro)
                        for name in ("int8", "uint8", "int16", "float32", "bigint64"):
                            if name not in ("int8", "uint8") and v.byte_length < 8:
                                continue
                            before = bytes(base)
                            try:
                                getattr(dv, f"set_{name}")(0, 1)
                            except TypeError:
                                if not want:
                                    r.violation(key, f"can't set_{name}")
                            else:
                                if want:
                                    r.violation(key, f"set_{name} written though readonly")
                            if want and bytes(base) != before:
                                r.violation(key, "a refused write changed the data")
                    r.outcomes["readonly" if want else "writable"] += 1
                    b.release()
            for value in (False, 0, 1, "yes"):
                try:
                    v = TYPES[t](buf, readonly=value)
                except ValueError:
                    continue
                if value is False or value == 0 or not v.get_buffer_as_memoryview().readonly:
                    r.violation(f"readonly: {t} readonly={value!r}", "accepted")
            for kw in ({"item_offset": -1}, {"item_length": -1}):
                try:
                    TYPES[t](buf, **kw)
                except ValueError:
                    continue
                r.violation(f"readonly: {t} {kw}", "accepted")


# -- resizing while a view is held ---------------------------------------------


def held_task(r):
    for t in TYPES:
        for how in ("get_buffer", "raw", "data"):
            for n in (0, 3, 8, 12):
                r.transitions += 1
                b = JSArrayBuffer(bytes(range(8)), max_byte_length=16)
                v = TYPES[t](b)
                held = {"get_buffer": v.get_buffer, "raw": v.get_buffer_as_memoryview, "data": lambda b=b: b.data}[how]()
                mv = getattr(held, "buffer", held)
                was = bytes(mv)
                key = f"held: {t} {how} resize({n})"
                try:
                    b.resize(n)
                except BufferError:
                    if bytes(b.data) != bytes(range(8)) or bytes(mv) != was:
                        r.violation(key, "a failed resize changed the data")
                except Exception as e:
                    r.violation(key, f"raised {exc_summary(e)}")
                mv.release()
                b.resize(n)
                if bytes(b.data) != bytes(range(min(8, n))) + bytes(max(0, n - 8)):
                    r.violation(key, f"data is {bytes(b.data)!r} after the view's release")
                r.traces += 1
                r.outcomes["held"] += 1


def main(check):
    size = 8
    check.bounds = {
        "sizes": f"buffers resizable from 0 to {size} bytes, all views of 13 types incl. partly out of range, histories of resizes and writes",
        "creation": "13 types x lengths x offsets x item lengths x resizable or not, verdict of V8",
    }
    check.assumptions = [
        "Float16Array isn't in this V8: its creation rules are those of Int16Array",
        "constructing a view class directly may be out of range (documented as lenient)",
        "a little-endian machine (documented)",
    ]
    depth = 5 if check.thorough else 3
    groups = [["Uint8Array", "Uint16Array", "DataView"], ["Int16Array", "Uint32Array"], ["Int8Array", "Float32Array", "Float64Array"],
              ["Uint8ClampedArray", "Int32Array", "Float16Array"], ["BigInt64Array", "BigUint64Array", "Uint8Array"]]  # fmt: skip
    check.phase(
        "model vs V8",
        [(validate_task, (["Uint8Array", "Int16Array", "Float32Array", "BigInt64Array", "DataView"], size, 5 if check.thorough else 4, i, 8)) for i in range(8)],
    )
    tasks = []
    for source in ("JSArrayBuffer", "wrapped", "bytearray"):
        for g in groups:
            specs = specs_for(g, size)
            tasks.append((history_task, (source, specs, size, depth + 1, False, None)))
    few = [("Uint8Array", 1, None), ("Uint8Array", 2, 3), ("Uint16Array", 1, None), ("Uint16Array", 1, 2), ("DataView", 0, None), ("DataView", 3, 3), ("Uint32Array", 0, 1)]
    for source in ("JSArrayBuffer", "wrapped"):
        for i in range(8):
            tasks.append((history_task, (source, few, 6, depth + 1, True, (i, 8))))
    check.phase("histories", tasks)
    check.phase(
        "lengths",
        [(lengths_task, (source, t, 5 * SIZES[t] + 3, check.thorough)) for source in ("JSArrayBuffer", "wrapped", "bytearray") for t in TYPES],
    )
    wire = [["Uint8Array", "Int16Array", "DataView"], ["Float32Array", "BigUint64Array"], ["Uint8ClampedArray", "Uint32Array", "Float64Array"], ["Int8Array", "Uint16Array", "Int32Array", "BigInt64Array"]]
    check.phase("across the wire", [(wire_task, (g, s)) for g in wire for s in (5, 8)])
    check.phase("creation", [(create_task, (t, n)) for t in TYPES for n in (range(26) if check.thorough else (*range(10), 12, 16))])
    check.phase("construction", [(construct_task, ())])
    check.phase("readonly", [(readonly_task, ()), (held_task, ())])


chunks  # noqa: B018
