"""C15: typed elements read and write with JavaScript's binary layout."""

from __future__ import annotations

import itertools
import json
import math
import struct
from fractions import Fraction

from v8serialize.jstypes import ArrayBufferViewStructFormat, JSArrayBuffer, JSDataView, jsbuffers

from .. import nodejs
from ..core import chunks, exc_summary

# kind: (bytes, 'u'|'s'|'f', typed array, DataView accessor)
KINDS = {
    "Int8Array": (1, "s", "int8"), "Uint8Array": (1, "u", "uint8"), "Uint8ClampedArray": (1, "u", None),
    "Int16Array": (2, "s", "int16"), "Uint16Array": (2, "u", "uint16"), "Int32Array": (4, "s", "int32"),
    "Uint32Array": (4, "u", "uint32"), "Float16Array": (2, "f", "float16"), "Float32Array": (4, "f", "float32"),
    "Float64Array": (8, "f", "float64"), "BigInt64Array": (8, "s", "bigint64"), "BigUint64Array": (8, "u", "biguint64"),
}  # fmt: skip
TYPES = {name: ArrayBufferViewStructFormat[name].view_type for name in KINDS}
EXP = {2: (5, 10), 4: (8, 23), 8: (11, 52)}


# -- the model of number representations ---------------------------------------


def decode(pattern, size, sign):
    """The number an unsigned bit pattern stands for; 'nan', or (float) as repr."""
    if sign == "u":
        return pattern
    bits = size * 8
    if sign == "s":
        return pattern - (1 << bits) if pattern >> (bits - 1) else pattern
    e, m = EXP[size]
    neg, exp, man = pattern >> (bits - 1), (pattern >> m) & ((1 << e) - 1), pattern & ((1 << m) - 1)
    bias = (1 << (e - 1)) - 1
    if exp == (1 << e) - 1:
        return "nan" if man else ("-inf" if neg else "inf")
    x = Fraction(man, 1 << m) + (1 if exp else 0)
    x *= Fraction(2) ** ((exp or 1) - bias)
    f = x.numerator / x.denominator
    assert Fraction(f) == x
    return repr(-f if neg else f)


def same(got, want):
    """want is decode()'s answer."""
    if isinstance(want, int):
        return type(got) is int and got == want
    if not isinstance(got, float):
        return False
    return math.isnan(got) if want == "nan" else repr(got) == want


def encode(value, size):
    """The bit pattern nearest to a float (ties to even), as JavaScript rounds; None for NaN."""
    e, m = EXP[size]
    bits = size * 8
    bias = (1 << (e - 1)) - 1
    if math.isnan(value):
        return None
    sign = 1 << (bits - 1) if math.copysign(1, value) < 0 else 0
    inf = ((1 << e) - 1) << m
    if math.isinf(value):
        return sign | inf
    x = Fraction(abs(value))
    exp = 1
    if x:
        exp = max(1, x.numerator.bit_length() - x.denominator.bit_length() + bias)
        if Fraction(2) ** (exp - bias) > x and exp > 1:
            exp -= 1
    scaled = x / Fraction(2) ** (exp - bias) * (1 << m)
    n = scaled.numerator // scaled.denominator
    rest = scaled - n
    if rest > Fraction(1, 2) or rest == Fraction(1, 2) and n & 1:
        n += 1
    return sign | min(inf, n + ((exp - 1) << m) if n >= (1 << m) or exp > 1 else n)


def patterns(size, sign, full):
    bits = size * 8
    if bits <= 8 or bits == 16 and full:
        return list(range(1 << bits))
    top = (1 << bits) - 1
    out = set()
    near = range(-3, 4)
    for p in range(bits + 1):
        for d in near:
            out |= {((1 << p) + d) & top, (top ^ ((1 << p) + d)) & top}
    for b in range(size):
        for v in (0, 1, 0x7F, 0x80, 0x81, 0xFE, 0xFF):
            out |= {v << 8 * b, top ^ (v << 8 * b)}
    out.add(int.from_bytes(bytes(range(1, size + 1)), "big"))
    out.add(int.from_bytes(bytes(range(0xF1, 0xF1 + size)), "big"))
    if sign == "f":
        e, m = EXP[size]
        # every exponent with boundary mantissas
        for exp in range(1 << e):
            for man in (0, 1, 2, (1 << m) - 1, (1 << m) - 2, 1 << (m - 1)):
                for s in (0, 1):
                    out.add(s << (bits - 1) | exp << m | man)
    return sorted(out)


def floats(size):
    """Doubles to write: every pattern, midpoints, their neighbours, and what doesn't fit."""
    out = [0.0, -0.0, math.inf, -math.inf, math.nan, 1e308, 5e-324, 1.7976931348623157e308, 65504.0, 65519.99, 65520.0, 3.4028235677973366e38, 3.4028235677973362e38]
    values = sorted({float(decode(p, size, "f")) for p in patterns(size, "f", True) if decode(p, size, "f") != "nan"})
    if size == 8:
        return out + values
    finite = [v for v in values if math.isfinite(v)]
    for v in finite:
        p = encode(v, size)
        try:
            up = float(decode(p + 1, size, "f"))
        except (ValueError, OverflowError):
            up = v
        if not math.isfinite(up):
            up = math.copysign(2.0 ** (16 if size == 2 else 128), v)
        mid = (v + up) / 2
        out += [v, mid, math.nextafter(mid, math.inf), math.nextafter(mid, -math.inf)]
    return out


def ints(size, sign):
    bits = size * 8
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sign == "s" else (0, (1 << bits) - 1)
    ok = [decode(p, size, sign) for p in patterns(size, sign, False)]
    bad = [lo - 1, hi + 1, lo - 2, hi + 2, 1 << bits, -(1 << bits), 1 << 70, -(1 << 70)]
    return ok, bad


ODD = [None, "1", 1.5, b"\x01", [1]]


# -- typed arrays --------------------------------------------------------------


def views_of(name, data):
    """The ways to get at `data` as an array of a type, and the bytes around."""
    t = TYPES[name]
    size = KINDS[name][0]
    yield "bytes", t(data), 0
    yield "JSArrayBuffer", t(JSArrayBuffer(data)), 0
    yield "offset", t(JSArrayBuffer(bytes(size) + data + bytes(size)), item_offset=1, item_length=len(data) // size), size
    yield "tracking", t(JSArrayBuffer(data, max_byte_length=len(data) + 9)), 0
    # memory that isn't aligned
    yield "unaligned", t(JSArrayBuffer(memoryview(bytearray(b"x" + data))[1:], copy_data=False)), 0


def read_task(r, name, part, parts):
    size, sign, _ = KINDS[name]
    ps = patterns(size, sign, True)[part::parts]
    data = b"".join(p.to_bytes(size, "little") for p in ps)
    for how, view, _ in views_of(name, data):
        with view.get_buffer() as b:
            if len(b) != len(ps) or b.itemsize != size:
                r.violation(f"read {name} {how}: shape", f"{len(b)} items of {b.itemsize} bytes, expected {len(ps)} of {size}")
                continue
            for i, p in enumerate(ps):
                r.transitions += 1
                want = decode(p, size, sign)
                if not same(b[i], want):
                    code = f"JS{name}({p.to_bytes(size, 'little')!r}).get_buffer()[0]"
                    r.violation(f"read {name}: {p:x}", f"reads {b[i]!r}, expected {want}", code)
                else:
                    r.traces += 1
        if view.element_type is not (float if sign == "f" else int):
            r.violation(f"read {name}: element_type", repr(view.element_type))
    r.states += len(ps)
    r.outcomes[f"read {name}"] += len(ps)


def put(buffer, i, v):
    buffer[i] = v


def written(r, key, code, do, before, at, size, want, get):
    """Write with do(), then compare all bytes: want is a pattern, None (NaN) or 'raise'."""
    r.transitions += 1
    try:
        do()
    except (ValueError, TypeError, OverflowError, IndexError, ArithmeticError, struct.error) as e:
        after = get()
        if after != before:
            r.violation(key, f"a refused write changed the data: {before.hex()} {after.hex()}", code)
        elif want != "raise":
            return f"refused: {exc_summary(e)}"
        r.outcomes["refused"] += 1
        return None
    except Exception as e:
        r.violation(key, f"raised {exc_summary(e)}", code)
        return None
    if callable(want):
        want = want(after := get())
        if want is False:
            r.violation(key, f"wrote {after.hex()}", code)
            return None
    after = get()
    if want == "raise":
        r.violation(key, f"accepted, {before.hex()} became {after.hex()}", code)
        return None
    if want is None:
        chunk = after[at : at + size]
        ok = any(decode(int.from_bytes(chunk, o), size, "f") == "nan" for o in ("little", "big"))
    else:
        ok = after[at : at + size] == want
    if not ok or after[:at] != before[:at] or after[at + size :] != before[at + size :]:
        shown = "NaN" if want is None else want.hex()
        r.violation(key, f"{before.hex()} became {after.hex()}, expected {shown} at {at}", code)
    else:
        r.traces += 1
        r.outcomes["written"] += 1
    return None


def write_task(r, name, part, parts):
    size, sign, _ = KINDS[name]
    start = bytes(range(0xA0, 0xA0 + 3 * size))
    if sign == "f":
        good, bad = floats(size)[part::parts], [] if part else [10**400]
    else:
        good, bad = ints(size, sign)
        good, bad = good[part::parts], bad[part::parts]
    for how in ("JSArrayBuffer", "offset", "unaligned", "tracking"):
        _, view, around = next(x for x in views_of(name, start) if x[0] == how)

        def get(view=view):
            with memoryview(view.backing_buffer.data) as m:
                return bytes(m)

        with view.get_buffer() as b:
            for i in (0, 1, 2) if how == "JSArrayBuffer" else (1,):
                for v in good:
                    if sign == "f":
                        p = encode(v, size)
                        want = None if p is None else p.to_bytes(size, "little")
                    else:
                        want = (v % (1 << size * 8)).to_bytes(size, "little")
                    code = f"b = JS{name}(bytearray({start!r}))\nb.get_buffer()[{i}] = {v!r}"
                    key = f"write {name}: {v!r} {how} {i}"
                    no = written(r, key, code, lambda: put(b, i, v), get(), around + i * size, size, want, get)  # noqa: B023
                    # (a float too large for the element may be refused instead of becoming Infinity)
                    if no and not (want is not None and sign == "f" and decode(int.from_bytes(want, "little"), size, "f") in ("inf", "-inf") and math.isfinite(v)):
                        r.violation(key, no, code)
                for v in bad + ODD:
                    if sign == "f" and v == 1.5:
                        continue
                    code = f"b = JS{name}(bytearray({start!r}))\nb.get_buffer()[{i}] = {v!r}"
                    written(r, f"write {name}: {v!r} {how} {i}", code, lambda: put(b, i, v), get(), 0, 0, "raise", get)  # noqa: B023
            for i in (3, 4, 1 << 40):
                written(r, f"write {name}: outside {i} {how}", "", lambda: put(b, i, 1), get(), 0, 0, "raise", get)  # noqa: B023
                try:
                    b[i]
                except IndexError:
                    pass
                else:
                    r.violation(f"read {name}: outside {i} {how}", "accepted")
    r.states += len(good)


def backport_task(r):
    """The Float16Array for Pythons whose memoryview lacks 16 bit floats."""
    cls = getattr(jsbuffers, "BackportJSFloat16Array", None)
    if cls is None:
        return
    ps = list(range(1 << 16))
    data = b"".join(p.to_bytes(2, "little") for p in ps)
    with cls(data).get_buffer() as b:
        for p in ps:
            want = decode(p, 2, "f")
            if not same(b[p], want):
                r.violation(f"read backport: {p:x}", f"reads {b[p]!r}, expected {want}")
            r.traces += 1
    r.outcomes["read backport"] += len(ps)
    nan = {p for p in ps if decode(p, 2, "f") == "nan"}
    for i, v in itertools.product(range(3), (0.5, -0.0, 65504.0, 2.0**-24, 1 / 3, math.inf, 1000.25)):
        data = bytearray(b"\x01\x3c\x02\x3c\x03\x3c\x04")
        view = cls(data)
        before = bytes(data)

        def do(view=view, i=i, v=v):
            with view.get_buffer() as b:
                b[i] = v

        # the value passes through a 32 bit float
        want = encode(float(decode(encode(v, 4), 4, "f")), 2).to_bytes(2, "little")
        no = written(r, f"write backport: {v!r} {i}", "", do, before, 2 * i, 2, want, lambda data=data: bytes(data))
        if no:
            r.violation(f"write backport: {v!r} {i}", no)
    # reading changes nothing (but which NaN a NaN is)
    data = bytearray(b"".join(p.to_bytes(2, "little") for p in ps if p not in nan))
    before = bytes(data)
    with cls(data).get_buffer() as b:
        sum(1 for _ in b)
    if bytes(data) != before:
        r.violation("read backport: changes", "reading changed the array")


# -- DataView ------------------------------------------------------------------


def accessors():
    for size, sign, name in dict.fromkeys((s, g, n) for s, g, n in KINDS.values() if n):
        yield name, size, sign


def calls(name, kind, offset, *value):
    """The ways to call an accessor: (source, function of a buffer, byte order)."""
    method = f"{kind}_{name}"
    vs = "".join(f", {v!r}" for v in value)
    if name in ("int8", "uint8"):
        yield f"{method}({offset}{vs})", lambda b: getattr(b, method)(offset, *value), "little"
        return
    yield f"{method}({offset}{vs})", lambda b: getattr(b, method)(offset, *value), "big"
    for le in (True, False):
        order = "little" if le else "big"
        yield f"{method}({offset}{vs}, {le})", lambda b: getattr(b, method)(offset, *value, le), order  # noqa: B023
        yield f"{method}({offset}{vs}, little_endian={le})", lambda b: getattr(b, method)(offset, *value, little_endian=le), order  # noqa: B023


def dataview_read_task(r, name, size, sign):
    for p in patterns(size, sign, True):
        want = decode(p, size, sign)
        little = p.to_bytes(size, "little")
        for src, call, order in calls(name, "get", 1):
            r.transitions += 1
            data = b"\xa5" + (little if order == "little" else little[::-1]) + b"\x5a"
            with JSDataView(data).get_buffer() as b:
                got = call(b)
            if not same(got, want):
                r.violation(f"dataview {src} {p:x}", f"reads {got!r}, expected {want}", f"JSDataView({data!r}).get_buffer().{src}")
            else:
                r.traces += 1
    r.outcomes[f"get_{name}"] += 1
    r.states += len(patterns(size, sign, True))


def dataview_write_task(r, name, size, sign, part, parts):
    if sign == "f":
        good, bad = floats(size), [10**400]
    else:
        good, bad = ints(size, sign)
    start = bytes(range(0xA0, 0xA0 + size + 3))
    for v in good[part::parts]:
        if sign == "f":
            p = encode(v, size)
        else:
            p = v % (1 << size * 8)
        for src, call, order in calls(name, "set", 2, v):
            buf = bytearray(start)
            want = None if p is None else p.to_bytes(size, order)
            code = f"d = bytearray({start!r})\nJSDataView(d).get_buffer().{src}"
            with JSDataView(buf).get_buffer() as b:
                no = written(r, f"dataview {src}", code, lambda: call(b), start, 2, size, want, lambda: bytes(buf))  # noqa: B023
            if no and not (p is not None and sign == "f" and decode(p, size, "f") in ("inf", "-inf") and math.isfinite(v)):
                r.violation(f"dataview {src}", no, code)
    if part == 0:
        for v in bad + ODD:
            if sign == "f" and v == 1.5:
                continue
            for src, call, _order in calls(name, "set", 2, v):
                buf = bytearray(start)
                code = f"d = bytearray({start!r})\nJSDataView(d).get_buffer().{src}"
                with JSDataView(buf).get_buffer() as b:
                    written(r, f"dataview {src}", code, lambda: call(b), start, 0, 0, "raise", lambda: bytes(buf))  # noqa: B023


def bounds_task(r, size_of_buffer):
    """Every accessor at every offset of every view of a small buffer."""
    base = bytes(range(1, size_of_buffer + 1))
    for start in range(size_of_buffer + 2):
        for length in (None, *range(size_of_buffer + 2 - start)):
            for resizable in (False, True):
                buffer = JSArrayBuffer(base, max_byte_length=size_of_buffer if resizable else None)
                view = JSDataView(buffer, item_offset=start, item_length=length)
                have = max(0, size_of_buffer - start) if length is None else length if start + length <= size_of_buffer else 0
                inner = base[start : start + have]
                for (name, size, sign), offset in itertools.product(accessors(), (*range(-9, size_of_buffer + 3), 1 << 31, 1 << 63, -(1 << 63))):
                    fits = 0 <= offset and offset + size <= have
                    where = f"{name} at {offset} of a view [{start}, {length}] of {size_of_buffer} bytes"
                    for src, call, order in calls(name, "get", offset):
                        r.transitions += 1
                        code = f"JSDataView({base!r}, item_offset={start}, item_length={length}).get_buffer().{src}"
                        with view.get_buffer() as b:
                            try:
                                got = call(b)
                            except (ValueError, IndexError, struct.error) as e:
                                if fits:
                                    r.violation(f"bounds get {where}", f"raised {exc_summary(e)}", code)
                                r.outcomes["outside"] += 1
                                continue
                        p = int.from_bytes(inner[offset : offset + size], order) if fits else None
                        if not fits:
                            r.violation(f"bounds get {where}", f"reads {got!r} outside the view", code)
                        elif not same(got, decode(p, size, sign)):
                            r.violation(f"bounds get {where}", f"reads {got!r}", code)
                        else:
                            r.traces += 1
                    value = 1.5 if sign == "f" else 0x41
                    pattern = encode(value, size) if sign == "f" else value
                    for src, call, order in calls(name, "set", offset, value):
                        target = JSArrayBuffer(base, max_byte_length=size_of_buffer if resizable else None)
                        with JSDataView(target, item_offset=start, item_length=length).get_buffer() as b:
                            no = written(
                                r, f"bounds set {where}", f"JSDataView(bytearray({base!r}), item_offset={start}, item_length={length}).get_buffer().{src}",
                                lambda: call(b), base, start + offset if fits else 0, size, pattern.to_bytes(size, order) if fits else "raise",  # noqa: B023
                                lambda: bytes(target.data),  # noqa: B023
                            )  # fmt: skip
                        if no:
                            r.violation(f"bounds set {where}", no)
    r.states += 1


def struct_task(r):
    """read() and write() of several values."""
    formats = {"<HB": ((2, "u"), (1, "u")), ">HB": ((2, "u"), (1, "u")), "<bI": ((1, "s"), (4, "u")), ">d": ((8, "f"),), "<e": ((2, "f"),), ">qh": ((8, "s"), (2, "s"))}
    for fmt, fields in formats.items():
        total = sum(s for s, _ in fields)
        order = "little" if fmt[0] == "<" else "big"
        for n in range(0, 14):
            base = bytes(range(0x40, 0x40 + n))
            for offset in range(-3, n + 3):
                r.transitions += 1
                fits = 0 <= offset and offset + total <= n
                code = f"JSDataView(bytearray({base!r})).get_buffer().read({fmt!r}, {offset})"
                want, at = [], offset
                for s, g in fields:
                    want.append(decode(int.from_bytes(base[at : at + s], order), s, g) if fits else None)
                    at += s
                buf = bytearray(base)
                with JSDataView(buf).get_buffer() as b:
                    try:
                        got = b.read(fmt, offset)
                    except (ValueError, IndexError, struct.error):
                        if fits:
                            r.violation(f"struct read {fmt} {offset} of {n}", "refused", code)
                    else:
                        if not fits or len(got) != len(want) or not all(map(same, got, want)):
                            r.violation(f"struct read {fmt} {offset} of {n}", f"reads {got}, expected {want}", code)
                    values = [1 if g != "f" else 1.5 for _, g in fields]
                    if fits:
                        new = b"".join((encode(v, s) if g == "f" else v).to_bytes(s, order) for v, (s, g) in zip(values, fields))
                    no = written(
                        r, f"struct write {fmt} {offset} of {n}", code, lambda: b.write(fmt, offset, *values), base,  # noqa: B023
                        offset if fits else 0, total, new if fits else "raise", lambda: bytes(buf),  # noqa: B023
                    )  # fmt: skip
                    if no:
                        r.violation(f"struct write {fmt} {offset} of {n}", no, code)


# -- the model against V8 ------------------------------------------------------

JS_READ = r"""
(function (method, size, hexes) {
  const d = new DataView(new ArrayBuffer(size)), u = new Uint8Array(d.buffer);
  return hexes.map((h) => {
    u.set(Buffer.from(h, 'hex'));
    const x = d[method](0), y = d[method](0, true);
    const s = (v) => Object.is(v, -0) ? '-0' : String(v);
    return [s(x), s(y)];
  });
})"""
JS_WRITE = r"""
(function (method, size, values) {
  const d = new DataView(new ArrayBuffer(size)), u = Buffer.from(d.buffer);
  return values.map((v) => {
    v = method.includes('Big') ? BigInt(v) : Number(v);
    d[method](0, v);
    const a = u.toString('hex');
    d[method](0, v, true);
    return [a, u.toString('hex')];
  });
})"""
METHOD = {"bigint64": "BigInt64", "biguint64": "BigUint64"}


def js_number(want):
    if isinstance(want, int):
        return want
    return {"nan": "NaN", "inf": "Infinity", "-inf": "-Infinity"}.get(want, want)


def validate_task(r, name, size, sign):
    if name == "float16":  # not in this V8: the same code as for the others, which are checked
        return
    method = METHOD.get(name, name.capitalize())
    ps = patterns(size, sign, True)
    for i in range(0, len(ps), 3000):
        part = ps[i : i + 3000]
        src = f"JSON.stringify({JS_READ}('get{method}',{size},{json.dumps([p.to_bytes(size, 'big').hex() for p in part])}))"
        (reply,) = nodejs.batch([{"op": "eval", "src": src}])
        for p, (big, little) in zip(part, json.loads(reply["ok"])):
            swapped = int.from_bytes(p.to_bytes(size, "big"), "little")
            for q, answer in ((p, big), (swapped, little)):
                want = js_number(decode(q, size, sign))
                ok = int(answer) == want if isinstance(want, int) else answer == want or float(answer) == float(want) and math.copysign(1, float(answer)) == math.copysign(1, float(want))
                if not ok and not (want == "NaN" and answer == "NaN"):
                    raise RuntimeError(f"the model differs from V8: {name} {q:x}: {want} {answer}")
                r.traces += 1
    values = floats(size) if sign == "f" else ints(size, sign)[0]
    for i in range(0, len(values), 3000):
        part = values[i : i + 3000]
        shown = [js_number(repr(v)) if isinstance(v, float) else str(v) for v in part]
        src = f"JSON.stringify({JS_WRITE}('set{method}',{size},{json.dumps(shown)}))"
        (reply,) = nodejs.batch([{"op": "eval", "src": src}])
        for v, (big, little) in zip(part, json.loads(reply["ok"])):
            p = encode(v, size) if sign == "f" else v % (1 << 8 * size)
            if p is None:
                continue
            if big != p.to_bytes(size, "big").hex() or little != p.to_bytes(size, "little").hex():
                raise RuntimeError(f"the model differs from V8: {name} {v!r}: {p:x} {big}")
            r.traces += 1


def main(check):
    check.bounds = {
        "patterns": "all 8 and 16 bit patterns; 32 and 64 bit: around every power of two, every byte's boundary values, every float exponent x boundary mantissas",
        "values written": "all of those, for floats also the midpoints between neighbours and their neighbours; out of range and of other types",
        "views": "every accessor x offset x view of buffers up to 10 bytes",
    }
    check.assumptions = [
        "values out of an integer element's range raise (documented) where JavaScript wraps",
        "a finite float beyond the element's range may be refused or become Infinity",
        "which NaN is stored isn't specified",
        "getFloat16 isn't in this V8: the model for it is the one validated for 32 and 64 bits",
    ]
    check.phase("model vs V8", [(validate_task, a) for a in accessors()])
    check.phase("typed reads", [(read_task, (n, i, 4)) for n in KINDS for i in range(4)])
    check.phase("typed writes", [(write_task, (n, i, 8)) for n in KINDS for i in range(8)])
    check.phase("backport", [(backport_task, ())])
    check.phase("DataView reads", [(dataview_read_task, a) for a in accessors()])
    check.phase("DataView writes", [(dataview_write_task, (*a, i, 8)) for a in accessors() for i in range(8)])
    check.phase("DataView bounds", [(bounds_task, (n,)) for n in (range(13) if check.thorough else (10, 9, 8, 3, 2, 1, 0))])
    check.phase("DataView struct", [(struct_task, ())])


chunks  # noqa: B018
