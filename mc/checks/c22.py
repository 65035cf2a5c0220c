"""C22: tag-stream primitives are exact inverses with exact extents."""

from __future__ import annotations

import itertools
import math
import struct
from datetime import datetime, timedelta, timezone

from v8serialize import DecodeV8SerializeError, JSRegExpFlag, SerializationFeature, V8SerializeError
from v8serialize.constants import (
    JS_ARRAY_BUFFER_TAGS,
    JS_CONSTANT_TAGS,
    JS_OBJECT_KEY_TAGS,
    JS_PRIMITIVE_OBJECT_TAGS,
    JS_STRING_TAGS,
    SerializationErrorTag,
    SerializationTag,
)
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream
from v8serialize.encode import DefaultEncodeContext, WritableTagStream
from v8serialize.jstypes import (
    JSArrayBuffer,
    JSArrayBufferTransfer,
    JSDataView,
    JSErrorData,
    JSFloat16Array,
    JSFloat64Array,
    JSPrimitiveObject,
    JSRegExp,
    JSSharedArrayBuffer,
    JSUint16Array,
    JSUint8Array,
)
from v8serialize.jstypes._v8 import V8SharedObjectReference

from .. import nodejs
from ..core import chunks, exc_summary

T = SerializationTag
PRE = "import sys; sys.path.insert(0, '/verif')\nfrom mc.checks.c22 import *\n"
TRAILS = [b"", b"\x00", b"\xff\xff", b"\x80\x01"]
ALL = ~SerializationFeature.MaxCompatibility


# -- the reference model -------------------------------------------------------


def leb(n, size=None):
    """n in 7-bit groups, the least significant first, in size bytes."""
    out = []
    while n or not out:
        out.append(n & 127)
        n >>= 7
    if size is not None:
        out += [0] * (size - len(out))
    return bytes([b | 128 for b in out[:-1]] + out[-1:])


def zz(n):
    return 2 * n if n >= 0 else -2 * n - 1


def unzz(n):
    return n // 2 if n % 2 == 0 else -(n // 2) - 1


def utf16(s):
    out = bytearray()
    for c in map(ord, s):
        if c > 0xFFFF:
            c -= 0x10000
            for u in (0xD800 + (c >> 10), 0xDC00 + (c & 0x3FF)):
                out += bytes((u & 255, u >> 8))
        else:
            out += bytes((c & 255, c >> 8))
    return bytes(out)


def from_utf16(data):
    """None if it isn't."""
    if len(data) % 2:
        return None
    units = [data[i] + 256 * data[i + 1] for i in range(0, len(data), 2)]
    out, i = [], 0
    while i < len(units):
        u = units[i]
        if 0xD800 <= u < 0xDC00 and i + 1 < len(units) and 0xDC00 <= units[i + 1] < 0xE000:
            out.append(chr(0x10000 + (u - 0xD800) * 0x400 + units[i + 1] - 0xDC00))
            i += 2
        else:
            out.append(chr(u))
            i += 1
    return "".join(out)


def utf8(s):
    """None if s has surrogates."""
    out = bytearray()
    for c in map(ord, s):
        if 0xD800 <= c < 0xE000:
            return None
        if c < 0x80:
            out.append(c)
        elif c < 0x800:
            out += bytes((0xC0 | c >> 6, 0x80 | c & 63))
        elif c < 0x10000:
            out += bytes((0xE0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63))
        else:
            out += bytes((0xF0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63))
    return bytes(out)


def from_utf8(data):
    """None if it isn't (Unicode's table 3-7)."""
    out, i = [], 0
    while i < len(data):
        b = data[i]
        if b < 0x80:
            out.append(chr(b))
            i += 1
            continue
        for lead, n, lo, hi in (
            (range(0xC2, 0xE0), 1, 0x80, 0xBF), ((0xE0,), 2, 0xA0, 0xBF), (range(0xE1, 0xED), 2, 0x80, 0xBF), ((0xED,), 2, 0x80, 0x9F), ((0xEE, 0xEF), 2, 0x80, 0xBF),
            ((0xF0,), 3, 0x90, 0xBF), ((0xF1, 0xF2, 0xF3), 3, 0x80, 0xBF), ((0xF4,), 3, 0x80, 0x8F),
        ):  # fmt: skip
            if b in lead:
                break
        else:
            return None
        rest = data[i + 1 : i + 1 + n]
        if len(rest) < n or not lo <= rest[0] <= hi or any(not 0x80 <= x <= 0xBF for x in rest):
            return None
        c = b & (0x1F, 0x0F, 0x07)[n - 1]
        for x in rest:
            c = c << 6 | x & 63
        out.append(chr(c))
        i += 1 + n
    return "".join(out)


# -- running -------------------------------------------------------------------


def same(a, b):
    if type(a) is float and type(b) is float:
        return struct.pack("<d", a) == struct.pack("<d", b)
    return type(a) is type(b) and a == b


def carriers(data):
    yield bytes(data)
    yield bytearray(data)
    yield memoryview(bytes(data))


def writer(at, features=None):
    w = WritableTagStream() if features is None else WritableTagStream(features=features)
    w.data.extend(b"\0\xff\x80o"[:at])
    return w


def written(r, key, at, write, want):
    """write(stream) at an offset; want: the bytes. Returns whether that's what happens."""
    r.states += 1
    w = writer(at)
    before = bytes(w.data)
    try:
        write(w)
    except Exception as e:
        r.violation(key, f"at {at} raised {exc_summary(e)}")
        return False
    got = bytes(w.data)
    if got[:at] != before or got[at:] != want or w.pos != len(got):
        r.violation(key, f"at {at} wrote {got[at : at + 40]!r}, expected {want[:40]!r}")
        return False
    r.traces += 1
    return True


def refused(r, key, at, write, types=(V8SerializeError,), prefix=b""):
    """write(stream) is refused, and nothing is written."""
    r.states += 1
    w = writer(at)
    w.data.extend(prefix)
    before = bytes(w.data)
    try:
        write(w)
    except types:
        if w.data != before:
            r.violation(key, f"is refused at {at}, but {bytes(w.data[len(before) :])!r} is written")
        else:
            r.traces += 1
            r.outcomes["refused"] += 1
    except Exception as e:
        r.violation(key, f"raised {exc_summary(e)}")
    else:
        r.violation(key, f"isn't refused: {bytes(w.data[len(before) : len(before) + 40])!r}")


def readback(r, key, at, body, read, want, trails=TRAILS, kinds=carriers):
    """read(stream) gives want from body at an offset, whatever follows, and stops after it; no prefix can be read."""
    head = b"\0\xff\x80o"[:at]
    for trail in trails:
        for data in kinds(head + body + trail):
            r.transitions += 1
            s = ReadableTagStream(data, pos=at)
            try:
                got = read(s)
            except Exception as e:
                r.violation(key, f"reading {body[:40]!r} at {at} before {trail!r} raised {exc_summary(e)}", f"{PRE}print(ReadableTagStream({bytes(data)!r}, pos={at}))" if len(data) < 200 else "")
                return
            if not same(got, want) or s.pos != at + len(body) or s.eof != (trail == b""):
                r.violation(key, f"reading {body[:40]!r} at {at} before {trail!r} gave {str(got)[:60]} up to {s.pos}, expected {str(want)[:60]} up to {at + len(body)}")
                return
            r.traces += 1


def truncations(r, key, at, body, read):
    head = b"\0\xff\x80o"[:at]
    cuts = range(len(body)) if len(body) <= 24 else [*range(12), len(body) // 2, *range(len(body) - 6, len(body))]
    for cut in cuts:
        r.transitions += 1
        s = ReadableTagStream(head + body[:cut], pos=at)
        try:
            got = read(s)
        except DecodeV8SerializeError:
            r.traces += 1
        except Exception as e:
            r.violation(key, f"the first {cut} bytes of {body[:40]!r} at {at} raised {exc_summary(e)}")
            return
        else:
            r.violation(key, f"the first {cut} bytes of {body[:40]!r} at {at} gave {str(got)[:60]}")
            return


def unreadable(r, key, body, read):
    r.states += 1
    for at in (0, 1):
        s = ReadableTagStream(b"\0" * at + body, pos=at)
        try:
            got = read(s)
        except DecodeV8SerializeError:
            r.traces += 1
            r.outcomes["unreadable"] += 1
        except Exception as e:
            r.violation(key, f"{body!r} raised {exc_summary(e)}")
        else:
            r.violation(key, f"{body!r} gave {got!r}")


# -- numbers -------------------------------------------------------------------


def boundary_ints(bits, spread=2):
    out = set(range(-70, 70))
    for k in bits:
        for d in range(-spread, spread + 1):
            out |= {2**k + d, -(2**k) + d}
    return sorted(out)


def one(data):
    yield data


def varint_task(r, values, full):
    for n in values:
        body = leb(n)
        key = f"varint: {n}"
        for at in (0, 1, 3) if full else (0,):
            if not written(r, key, at, lambda w: w.write_varint(n), body):
                break
            readback(r, key, at, body, ReadableTagStream.read_varint, n, TRAILS if full else TRAILS[2:3], carriers if full else one)
        if full:
            truncations(r, key, 1, body, ReadableTagStream.read_varint)
            for size in range(len(body), 6):
                readback(r, key, 0, leb(n, size), ReadableTagStream.read_varint, n, TRAILS[:2], one)
            for limit in range(1, 80):
                limited = lambda s: s.read_varint(max_bits=limit)  # noqa: E731,B023
                if n.bit_length() <= limit:
                    readback(r, f"{key} of {limit} bits", 0, body, limited, n, TRAILS[1:2], one)
                elif len(body) > -(-limit // 7):
                    unreadable(r, f"{key} of {limit} bits", body, limited)
        # as zigzag
        z = unzz(n)
        if written(r, f"zigzag: {z}", 0, lambda w: w.write_zigzag(z), body):
            readback(r, f"zigzag: {z}", 0, body, ReadableTagStream.read_zigzag, z, TRAILS[2:3], one)


def negatives_task(r):
    for n in boundary_ints(range(80)):
        if n < 0:
            refused(r, f"varint: {n}", 1, lambda w: w.write_varint(n))
        z = zz(n)
        for at in (0, 1):
            if written(r, f"zigzag: {n}", at, lambda w: w.write_zigzag(n), leb(z)):
                readback(r, f"zigzag: {n}", at, leb(z), ReadableTagStream.read_zigzag, n)
        truncations(r, f"zigzag: {n}", 0, leb(z), ReadableTagStream.read_zigzag)
        for limit in (8, 31, 32, 33, 64):
            limited = lambda s: s.read_zigzag(max_bits=limit)  # noqa: E731,B023
            if z.bit_length() <= limit:
                readback(r, f"zigzag: {n} of {limit} bits", 0, leb(z), limited, n, TRAILS[1:2], one)
            elif len(leb(z)) > -(-limit // 7):
                unreadable(r, f"zigzag: {n} of {limit} bits", leb(z), limited)
    # two zigzags never are the same, and all are used
    seen = {}
    for n in range(-(2**14), 2**14):
        r.states += 1
        w = WritableTagStream()
        w.write_zigzag(n)
        if seen.setdefault(bytes(w.data), n) != n:
            r.violation(f"zigzag: {n}", f"is written as {seen[bytes(w.data)]} is")
    if len(seen) != 2**15 or max(map(len, seen)) != 3 or {leb(i) for i in range(2**15)} != set(seen):
        r.violation("zigzag", "isn't a bijection")


def bytes_task(r, firsts, third):
    """Every string of 2 bytes, and of three with a lattice for the last, as a varint."""
    for a in firsts:
        for b in range(256):
            for rest in [b""] + [bytes([c]) for c in third]:
                data = bytes([a, b]) + rest
                r.states += 1
                n = shift = 0
                for used, x in enumerate(data, 1):
                    n |= (x & 127) << shift
                    shift += 7
                    if x < 128:
                        break
                else:
                    n = None
                s = ReadableTagStream(data)
                try:
                    got = s.read_varint()
                except DecodeV8SerializeError:
                    got = None
                if got != n or n is not None and s.pos != used:
                    r.violation(f"varint bytes: {data!r}", f"gave {got} up to {s.pos}, expected {n}")
                else:
                    r.traces += 1


def int_task(r):
    for n in boundary_ints(range(66), 3):
        r.states += 1
        for at, tagged in itertools.product((0, 1, 2), (True, False)):
            for name, ok, body, tag in (
                ("int32", -(2**31) <= n < 2**31, leb(zz(n)), T.kInt32),
                ("uint32", 0 <= n < 2**32, leb(max(n, 0)), T.kUint32),
            ):
                key = f"{name}: {n} {'tagged' if tagged else ''}"
                kw = {} if tagged else {"tag": None}
                write = lambda w: getattr(w, f"write_{name}")(n, **kw)  # noqa: E731,B023
                read = lambda s: getattr(s, f"read_{name}")(**({"tag": True} if tagged else {}))  # noqa: E731,B023
                full = bytes([tag]) + body if tagged else body
                if ok:
                    if written(r, key, at, write, full):
                        readback(r, key, at, full, read, n)
                        truncations(r, key, at, full, read)
                        for size in range(len(body), 6):
                            long = full[: len(full) - len(body)] + leb(zz(n) if name == "int32" else n, size)
                            readback(r, key, at, long, read, n, TRAILS[:1], one)
                        if tagged:
                            readback(r, key, at, b"\0\0" + full, read, n, TRAILS[:1], one)
                else:
                    refused(r, key, at, write)
                    # such bytes aren't one either
                    if name == "int32" or n >= 0:
                        unreadable(r, key, full, read)


def double_values(dense):
    mantissas = sorted({0, 1, 2, 2**51, 2**51 + 1, 2**52 - 1, 2**52 - 2, *(2**k for k in range(0, 52, 1 if dense else 7))})
    for sign in (0, 1):
        for e in range(2048):
            for m in mantissas if dense or e % 64 in (0, 1, 63) or 1010 <= e <= 1090 else mantissas[::5]:
                yield sign << 63 | e << 52 | m


def double_task(r, values):
    for i, bits in enumerate(values):
        body = struct.pack("<Q", bits)
        f = struct.unpack("<d", body)[0]
        key = f"double: {f!r} {bits:#x}"
        for tagged in (True, False) if i % 8 == 0 else (True,):
            kw = {} if tagged else {"tag": None}
            full = b"N" * tagged + body
            write = lambda w: w.write_double(f, **kw)  # noqa: E731,B023
            read = lambda s: s.read_double(**({"tag": True} if tagged else {}))  # noqa: E731,B023
            at = i % 4
            if written(r, key, at, write, full):
                readback(r, key, at, full, read, f, TRAILS[:2], carriers if i % 8 == 0 else one)
            if i % 8 == 0:
                truncations(r, key, at, full, read)


def double_ints_task(r):
    for n in boundary_ints([*range(60), 100, 1000, 1022, 1023]):
        try:
            f = float(n)
        except OverflowError:
            continue
        if written(r, f"double: int {n}", 1, lambda w: w.write_double(n), b"N" + struct.pack("<d", f)):
            readback(r, f"double: int {n}", 1, b"N" + struct.pack("<d", f), lambda s: s.read_double(tag=True), f)
    for n in (2**1024, -(2**1024), 10**400):
        for kw in ({}, {"tag": None}):
            refused(r, f"double: 2**{n.bit_length()} {kw}", 1, lambda w: w.write_double(n, **kw), Exception)


def bigint_task(r, values):
    for n in values:
        key = f"bigint: {n if abs(n) < 2**70 else f'{n.bit_length()} bits {n % 1000}'}"
        mag = abs(n)
        for tagged in (True, False):
            r.states += 1
            w = writer(1)
            try:
                w.write_bigint(n, **({} if tagged else {"tag": None}))
            except Exception as e:
                r.violation(key, f"raised {exc_summary(e)}")
                continue
            got = bytes(w.data[1:])
            # what's written: any number of bytes that suffices
            m = parse_bigint(got, tagged)
            if m != (n, len(got)):
                r.violation(key, f"wrote {got[:40]!r}")
                continue
            read = lambda s: s.read_bigint(**({"tag": True} if tagged else {}))  # noqa: E731,B023
            for at in range(2):
                readback(r, key, at, got, read, n, TRAILS[:3], carriers if n.bit_length() < 100 else one)
            truncations(r, key, 1, got, read)
            # and every other number of bytes
            least = (mag.bit_length() + 7) // 8
            for size in {least, least + 1, -(-least // 8) * 8, -(-least // 8) * 8 + 8, *range(least, 10)}:
                for extra in (0, 1):
                    field = leb(size << 1 | (n < 0))
                    body = b"Z" * tagged + leb(size << 1 | (n < 0), min(5, len(field) + extra)) + mag.to_bytes(size, "little")
                    readback(r, f"{key} in {size} bytes", 0, body, read, n, TRAILS[1:2], one)


def parse_bigint(data, tagged):
    """(value, extent) of V8's definition."""
    i = 0
    if tagged:
        if data[:1] != b"Z":
            return None
        i = 1
    field = shift = 0
    while True:
        b = data[i]
        i += 1
        field |= (b & 127) << shift
        shift += 7
        if b < 128:
            break
    size = field >> 1
    value = 0
    for k, b in enumerate(data[i : i + size]):
        value |= b << 8 * k
    return (-value if field & 1 else value), i + size


# -- strings -------------------------------------------------------------------

CHARS = ["a", "\0", "\x7f", "\x80", "\xff", "\u0100", "\u07ff", "\u0800", "\u20ac", "\ud7ff", "\ud800", "\udbff", "\udc00", "\udfff", "\ue000", "\uffff", "\U00010000", "\U0010ffff"]


def strings_task(r, strings):
    for s in strings:
        key = f"string: {s[:6]!r} {len(s)}"
        small = len(s) < 4
        latin = all(ord(c) < 256 for c in s)
        for at in range(4) if small else range(2):
            # one byte
            body = bytes(map(ord, s)) if latin else None
            for tagged in (True, False):
                kw = {} if tagged else {"tag": None}
                tk = {"tag": True} if tagged else {}
                write = lambda w: w.write_string_onebyte(s, **kw)  # noqa: E731,B023
                if body is None:
                    refused(r, f"{key} one byte", at, write)
                else:
                    full = b'"' * tagged + leb(len(body)) + body
                    read = lambda x: x.read_string_onebyte(**tk)  # noqa: E731,B023
                    if written(r, f"{key} one byte", at, write, full):
                        readback(r, f"{key} one byte", at, full, read, s, TRAILS[:3], carriers if small else one)
                        truncations(r, f"{key} one byte", at, full, read)
                # utf-8
                u8 = utf8(s)
                write = lambda w: w.write_string_utf8(s, **kw)  # noqa: E731,B023
                if u8 is None:
                    refused(r, f"{key} utf8", at, write, UnicodeEncodeError)
                else:
                    full = b"S" * tagged + leb(len(u8)) + u8
                    read = lambda x: x.read_string_utf8(**tk)  # noqa: E731,B023
                    if written(r, f"{key} utf8", at, write, full):
                        readback(r, f"{key} utf8", at, full, read, s, TRAILS[:3], carriers if small else one)
                        truncations(r, f"{key} utf8", at, full, read)
                # two bytes
                u16 = utf16(s)
                plain = leb(len(u16)) + u16
                write = lambda w: w.write_string_twobyte(s, **kw)  # noqa: E731,B023
                read = lambda x: x.read_string_twobyte(**tk)  # noqa: E731,B023
                if tagged:
                    # the units are at an even position, by padding before the tag
                    full = b"c" + plain
                    if (at + len(full) - len(u16)) % 2:
                        full = b"\0" + full
                else:
                    full = plain
                if written(r, f"{key} two bytes", at, write, full):
                    want = from_utf16(u16)  # surrogates that pair up are one character
                    readback(r, f"{key} two bytes", at, full, read, want, TRAILS[:3], carriers if small else one)
                    if tagged:
                        for pads in range(3):
                            readback(r, f"{key} two bytes, {pads} pads", at, b"\0" * pads + b"c" + plain, read, want, TRAILS[:1], one)
                    truncations(r, f"{key} two bytes", at, full, read)
            # any: reads back whatever it's written as
            r.states += 1
            w = writer(at)
            try:
                w.write_string(s)
                w.data.extend(b"\xfe")
                x = ReadableTagStream(w.data, pos=at)
                got = DefaultDecodeContext(stream=x).decode_object()
                if got != from_utf16(u16) or x.pos != len(w.data) - 1:
                    r.violation(f"{key} any", f"at {at} gave {got[:20]!r} up to {x.pos} of {len(w.data) - 1}")
                else:
                    r.traces += 1
            except Exception as e:
                r.violation(f"{key} any", f"at {at} raised {exc_summary(e)}")
        # lengths that aren't minimal
        for size in range(1, 6):
            for c, raw, ok in (("onebyte", body, latin), ("utf8", u8, u8 is not None), ("twobyte", u16, True)):
                if ok and len(leb(len(raw))) <= size:
                    readback(r, f"{key} {c}, length in {size} bytes", 1, leb(len(raw), size) + raw, getattr(ReadableTagStream, f"read_string_{c}"), from_utf16(u16) if c == "twobyte" else s, TRAILS[:2], one)


def string_bytes_task(r, datas):
    """Arbitrary bytes as strings of each kind."""
    for data in datas:
        for c, want in (("onebyte", "".join(map(chr, data))), ("utf8", from_utf8(data)), ("twobyte", from_utf16(data))):
            r.states += 1
            body = leb(len(data)) + data
            read = getattr(ReadableTagStream, f"read_string_{c}")
            if want is None:
                unreadable(r, f"bytes: {data!r} as {c}", body, read)
            else:
                readback(r, f"bytes: {data!r} as {c}", 0, body, read, want, TRAILS[1:2], one)
    r.outcomes["strings of bytes"] += len(datas)


# -- tags ----------------------------------------------------------------------

CONSTRAINTS = [JS_OBJECT_KEY_TAGS, JS_CONSTANT_TAGS, JS_ARRAY_BUFFER_TAGS, JS_PRIMITIVE_OBJECT_TAGS, JS_STRING_TAGS]
KNOWN = {t.value: t for t in T}


def tags_task(r):
    for b in range(256):
        for pads, trail in itertools.product(range(4), TRAILS):
            if b == 0:
                continue
            data = b"\0" * pads + bytes([b]) + trail
            key = f"tag: {data!r}"
            tag = KNOWN.get(b)
            r.states += 1
            # looking at it
            s = ReadableTagStream(data)
            if s.peak_tag() is not tag or s.pos != 0:
                r.violation(key, f"peak_tag gives {ReadableTagStream(data).peak_tag()}")
            for want in [None, *T, *CONSTRAINTS]:
                for consume in (True, False):
                    r.transitions += 1
                    s = ReadableTagStream(data)
                    ok = tag is not None and (want is None or (want is tag if isinstance(want, T) else tag in want.allowed_tags))
                    try:
                        got = s.read_tag(want, consume=consume)
                    except DecodeV8SerializeError:
                        got = None
                    except Exception as e:
                        got = exc_summary(e)
                    if got is not (tag if ok else None) or ok and s.pos != pads + consume:
                        r.violation(f"{key} {want} {consume}", f"gave {got} at {s.pos}")
                    else:
                        r.traces += 1
    for pads in range(4):
        s = ReadableTagStream(b"\0" * pads)
        if s.peak_tag() is not None:
            r.violation(f"tag: {pads} pads", "there's a tag")
        unreadable(r, f"tag: {pads} pads", b"\0" * pads, ReadableTagStream.read_tag)
    for tag in T:
        for at in range(3):
            written(r, f"write_tag {tag}", at, lambda w: w.write_tag(tag), bytes([tag]))
            is_constant = tag in JS_CONSTANT_TAGS.allowed_tags
            if is_constant:
                written(r, f"write_constant {tag}", at, lambda w: w.write_constant(tag), bytes([tag]))
            else:
                refused(r, f"write_constant {tag}", at, lambda w: w.write_constant(tag))
            for c in CONSTRAINTS:

                def write(w, method, c=c):
                    with w.constrain_tags(c):
                        getattr(w, method)(tag)

                for method in ("write_tag", "write_constant") if is_constant else ("write_tag",):
                    if tag in c.allowed_tags:
                        written(r, f"{method} {tag} among {c.name}", at, lambda w: write(w, method), bytes([tag]))
                    else:
                        refused(r, f"{method} {tag} among {c.name}", at, lambda w: write(w, method))
        w = WritableTagStream()
        for c in CONSTRAINTS:  # what's constrained is only so until the end
            try:
                with w.constrain_tags(c):
                    w.write_tag(tag)
            except V8SerializeError:
                pass
            before = len(w.data)
            w.write_tag(tag)
            if w.data[before:] != bytes([tag]) or w.allowed_tags is not None:
                r.violation(f"write_tag {tag} after {c.name}", f"wrote {w.data!r}")
    written(r, "no tag", 1, lambda w: w.write_tag(None), b"")
    # a refused value within a constraint leaves nothing behind
    calls = {"double": (T.kDouble, 1.5), "string_onebyte": (T.kOneByteString, "ab"), "string_twobyte": (T.kTwoByteString, "ab"), "string_utf8": (T.kUtf8String, "ab"), "bigint": (T.kBigInt, 77), "int32": (T.kInt32, -3), "uint32": (T.kUint32, 3)}
    for (name, (tag, value)), c, at in itertools.product(calls.items(), CONSTRAINTS, range(3)):

        def write(w, name=name, value=value, c=c):
            with w.constrain_tags(c):
                getattr(w, f"write_{name}")(value)

        if tag in c.allowed_tags:
            w = writer(at)
            getattr(w, f"write_{name}")(value)
            written(r, f"{name} among {c.name}", at, write, bytes(w.data[at:]))
        else:
            refused(r, f"{name} among {c.name}", at, write)
    # those with another tag
    reads = {"double": 1.5, "string_onebyte": "ab", "string_twobyte": "ab", "string_utf8": "ab", "bigint": 77, "int32": -3, "uint32": 3}
    for a, b in itertools.product(reads, repeat=2):
        w = WritableTagStream()
        getattr(w, f"write_{a}")(reads[a])
        read = lambda s: getattr(s, f"read_{b}")(tag=True)  # noqa: E731,B023
        if a != b:
            unreadable(r, f"{a} as {b}", bytes(w.data), read)
        else:
            s = ReadableTagStream(w.data)
            if read(s) != reads[b] or not s.eof:
                r.violation(f"{a} as {b}", "differs")


def header_task(r):
    w = WritableTagStream()
    w.write_header()
    if bytes(w.data) != b"\xff\x0f":
        r.violation("header", f"is {w.data!r}")
    for v in [*range(300), 2**31, 2**32 - 1, 2**32]:
        for size in range(1, 6):
            if len(leb(v)) > size:
                continue
            body = b"\xff" + leb(v, size)
            read = ReadableTagStream.read_header
            if v in (13, 14, 15):
                readback(r, f"header: {v}", 0, body, read, v)
                truncations(r, f"header: {v}", 0, body, read)
                s = ReadableTagStream(body)
                s.read_header()
                if s.version != v:
                    r.violation(f"header: {v}", f"sets version {s.version}")
            else:
                unreadable(r, f"header: {v}", body, read)
    for b in range(255):
        unreadable(r, f"header: byte {b}", bytes([b, 15]), ReadableTagStream.read_header)


def raw_task(r):
    """read_bytes, ensure_capacity, eof at all positions and counts."""
    for size in range(6):
        for pos in range(size + 1):
            for count in range(9):
                data = bytes(range(1, size + 1))
                for x in carriers(data):
                    r.states += 1
                    s = ReadableTagStream(x, pos=pos)
                    fits = pos + count <= size
                    try:
                        s.ensure_capacity(count)
                        ok = True
                    except DecodeV8SerializeError:
                        ok = False
                    if ok != fits or s.pos != pos or s.eof != (pos == size):
                        r.violation(f"raw: {size} {pos} {count}", "ensure_capacity or eof is wrong")
                    try:
                        got = bytes(s.read_bytes(count))
                    except DecodeV8SerializeError:
                        got = None
                    if got != (data[pos : pos + count] if fits else None) or s.pos != pos + count * fits:
                        r.violation(f"raw: {size} {pos} {count}", f"read_bytes gave {got!r} at {s.pos}")
                    else:
                        r.traces += 1
    for n in range(300):
        data = leb(n)
        s = ReadableTagStream(data)
        want = next((t for t in SerializationErrorTag if t.value == n), None)
        r.states += 1
        try:
            got = s.read_error_tag()
        except DecodeV8SerializeError:
            got = None
        if got is not want or want is not None and s.pos != len(data):
            r.violation(f"error tag: {n}", f"gave {got}")
        else:
            r.traces += 1
    unreadable(r, "error tag: none", b"", ReadableTagStream.read_error_tag)


# -- objects -------------------------------------------------------------------


def objects():
    """(name, write(stream, ctx), read(stream, ctx), describe(result) == expected)"""
    buf = lambda s, **kw: s.read_js_array_buffer(  # noqa: E731
        array_buffer=lambda *, data, max_byte_length, resizable: ("buffer", bytes(data), max_byte_length, resizable),
        shared_array_buffer=lambda *, buffer_id: ("shared", int(buffer_id)),
        array_buffer_transfer=lambda *, transfer_id: ("transfer", int(transfer_id)),
        **kw,
    )
    sizes = (0, 1, 2, 127, 128, 300, 16383, 16384)
    for n in sizes:
        d = bytes(i * 7 & 255 for i in range(n))
        yield f"buffer {n}", (lambda w, c, d=d: w.write_js_array_buffer(JSArrayBuffer(d))), (lambda s, c: buf(s)), ("buffer", d, None, False)
        for extra in (0, 1, 127, 2**14, 2**32 - 1 - n):
            if extra > 2**20:
                continue  # would be allocated
            yield f"resizable {n}+{extra}", (lambda w, c, d=d, e=extra: w.write_js_array_buffer(JSArrayBuffer(d, max_byte_length=len(d) + e))), (lambda s, c: buf(s)), ("buffer", d, n + extra, True)
    for i in (0, 1, 127, 128, 2**14 - 1, 2**14, 2**21, 2**28, 2**32 - 1):
        yield f"shared {i}", (lambda w, c, i=i: w.write_js_array_buffer(JSSharedArrayBuffer(i))), (lambda s, c: buf(s)), ("shared", i)
        yield f"transfer {i}", (lambda w, c, i=i: w.write_js_array_buffer(JSArrayBufferTransfer(i))), (lambda s, c: buf(s)), ("transfer", i)
        yield f"shared object {i}", (lambda w, c, i=i: w.write_v8_shared_object_reference(V8SharedObjectReference(i))), (lambda s, c: int(s.read_v8_shared_object_reference(tag=True).object.shared_value_id)), i
    view = lambda s, c: s.read_js_array_buffer_view(  # noqa: E731
        JSArrayBuffer(b""), tag=True, array_buffer_view=lambda *, buffer, format, byte_offset, byte_length: (format.name, byte_offset, byte_length)
    )
    for n in (0, 8, 128, 16384 * 8):
        b = JSArrayBuffer(bytes(2 * n + 16))
        for off in (0, 8, 120, 128):
            if off > n + 16:
                continue
            yield f"view uint8 {off} {n}", (lambda w, c, b=b, n=n, off=off: w.write_js_array_buffer_view(JSUint8Array(b, off, n))), view, ("kUint8Array", off, n)
            yield f"view float64 {off} {n}", (lambda w, c, b=b, n=n, off=off: w.write_js_array_buffer_view(JSFloat64Array(b, off // 8, n // 8))), view, ("kFloat64Array", off, n)
            yield f"view uint16 {off} {n}", (lambda w, c, b=b, n=n, off=off: w.write_js_array_buffer_view(JSUint16Array(b, off // 2, n // 2))), view, ("kUint16Array", off, n)
            yield f"view float16 {off} {n}", (lambda w, c, b=b, n=n, off=off: w.write_js_array_buffer_view(JSFloat16Array(b, off // 2, n // 2))), view, ("kFloat16Array", off, n)
            yield f"view data {off} {n}", (lambda w, c, b=b, n=n, off=off: w.write_js_array_buffer_view(JSDataView(b, off, n))), view, ("kDataView", off, n)
    tracking = JSArrayBuffer(bytes(64), max_byte_length=128)
    yield "view tracking", (lambda w, c: w.write_js_array_buffer_view(JSUint16Array(tracking, 4))), view, ("kUint16Array", 8, None)
    prim = lambda s, c: (lambda v: (v.tag.name, v.value))(s.read_js_primitive_object()[1])  # noqa: E731
    for v, want in ((True, ("kTrueObject", True)), (False, ("kFalseObject", False)), (1.5, ("kNumberObject", 1.5)), (-0.0, ("kNumberObject", -0.0)), ("a", ("kStringObject", "a")), ("\u20ac" * 50, ("kStringObject", "\u20ac" * 50)), ("\ud800", ("kStringObject", "\ud800"))):
        yield f"primitive {v!r}", (lambda w, c, v=v: w.write_js_primitive_object(JSPrimitiveObject(v))), prim, want
    for n in (0, 1, -1, 255, 2**64, -(2**600)):
        yield f"primitive bigint {n}", (lambda w, c, n=n: w.write_js_primitive_object(JSPrimitiveObject(n, tag=T.kBigIntObject))), prim, ("kBigIntObject", n)
    for src, flags in (("a", 0), ("\u20ac", 1), ("\ud800", 256), ("x" * 200, 128), ("a", 511 - 16)):
        yield f"regexp {src[:4]!r} {flags}", (lambda w, c, src=src, flags=flags: w.write_js_regexp(JSRegExp(src, JSRegExpFlag(flags)))), (lambda s, c: (lambda x: (x.source, int(x.flags)))(s.read_js_regexp(c, tag=True)[1])), (src, flags)
    utc = timezone.utc
    for d in (datetime(1970, 1, 1, tzinfo=utc), datetime(2024, 2, 29, 23, 59, 59, 999000, tzinfo=utc), datetime(1, 3, 1, tzinfo=utc)):
        yield f"date {d}", (lambda w, c, d=d: w.write_js_date(d)), (lambda s, c: s.read_js_date(tz=utc, tag=True).object), d

    def drain(gen):
        items = []
        while True:
            try:
                items.append(next(gen))
            except StopIteration as e:
                return items, e.value

    values = [None, 1, "a", 1.5]
    for n in range(4):
        for vs in itertools.product(values, repeat=n):
            yield f"set {vs}", (lambda w, c, vs=vs: w.write_jsset(iter(vs), c, identity=object())), (lambda s, c: drain(s.read_jsset(c, identity=object(), tag=True))), (list(vs), n)
            pairs = [(k, v) for k, v in zip(("k", 5, "\u20ac"), vs)]
            yield f"map {vs}", (lambda w, c, pairs=pairs: w.write_jsmap(iter(pairs), c, identity=object())), (lambda s, c: drain(s.read_jsmap(c, identity=object(), tag=True))), (pairs, 2 * n)
            yield f"object {vs}", (lambda w, c, pairs=pairs: w.write_js_object(iter(pairs), c, identity=object())), (lambda s, c: drain(s.read_js_object(c, identity=object(), tag=True))), (pairs, n)
            for m in range(3):
                props = [("p", 1), ("\ud800", None)][:m]
                yield f"dense {vs} {m}", (lambda w, c, vs=vs, props=props: w.write_js_array_dense(vs, c, properties=iter(props), identity=object())), (lambda s, c: drain(s.read_js_array_dense(c, identity=object(), tag=True))), ([*enumerate(vs), *props], (n, m))
    for length in (0, 1, 127, 128, 2**14, 2**31, 2**32 - 1):
        for n in range(3):
            pairs = [(0, None), (2**32 - 2, "a")][:n]
            yield f"sparse {length} {n}", (lambda w, c, pairs=pairs, length=length: w.write_js_array_sparse(iter(pairs), c, length=length, identity=object())), (lambda s, c: (lambda x: (x.length, *drain(x.items)))(s.read_js_array_sparse(c, identity=object(), tag=True))), (length, pairs, n)
    for name, message, stack, cause in itertools.product(("Error", "TypeError", "RangeError", "Other"), (None, "", "m"), (None, "s"), (None, 5)):
        want = (name if name != "Other" else "Error", message, stack, cause)
        yield f"error {name} {message!r} {stack!r} {cause}", (lambda w, c, n=name, m=message, st=stack, ca=cause: w.write_js_error(JSErrorData(name=n, message=m, stack=st, cause=ca), c)), (lambda s, c: (lambda e: (str(getattr(e.name, "value", e.name)), e.message, e.stack, e.cause))(s.read_js_error(c, tag=True).object)), want
    for n in (0, 1, 200):
        d = bytes(n)
        yield f"host {n}", (lambda w, c, d=d: w.write_host_object(object(), serializer=lambda *, value, stream: (stream.write_varint(len(d)), stream.data.extend(d)))), (lambda s, c: s.read_host_object(lambda *, stream: bytes(stream.read_bytes(stream.read_varint())), tag=True)), d


def objects_task(r, part, of):
    for i, (name, write, read, want) in enumerate(objects()):
        if i % of != part:
            continue
        for at in range(3):
            r.states += 1
            w = writer(at, features=ALL)
            try:
                write(w, DefaultEncodeContext(stream=w))
            except Exception as e:
                r.violation(f"object: {name}", f"at {at} raised {exc_summary(e)}")
                break
            body = bytes(w.data[at:])
            head = b"\0\xff\x80o"[:at]
            ids = []
            for trail in TRAILS:
                for data in carriers(head + body + trail) if len(body) < 1000 else [head + body + trail]:
                    r.transitions += 1
                    s = ReadableTagStream(data, pos=at)
                    try:
                        got = read(s, DefaultDecodeContext(stream=s))
                    except Exception as e:
                        r.violation(f"object: {name}", f"at {at} before {trail!r} raised {exc_summary(e)}")
                        break
                    if repr(got) != repr(want) or s.pos != at + len(body):
                        r.violation(f"object: {name}", f"at {at} before {trail!r} gave {got!r:.200} up to {s.pos} of {at + len(body)}, expected {want!r:.200}")
                        break
                    r.traces += 1
                    ids.append(len(ids))
            # a prefix isn't one
            for cut in range(len(body)) if len(body) < 60 else [*range(8), *range(len(body) - 8, len(body))]:
                s = ReadableTagStream(head + body[:cut], pos=at)
                r.transitions += 1
                try:
                    got = read(s, DefaultDecodeContext(stream=s))
                except DecodeV8SerializeError:
                    r.traces += 1
                except Exception as e:
                    r.violation(f"object: {name}", f"{cut} of {len(body)} bytes raised {exc_summary(e)}")
                    break
                else:
                    r.violation(f"object: {name}", f"{cut} of {len(body)} bytes gave {got!r:.100}")
                    break
        r.outcomes["object"] += 1


def references_task(r):
    """Object references, in a table of up to 130 objects of which each is referred to."""
    for n in (1, 2, 3, 127, 128, 129, 130):
        objs = [JSArrayBuffer(bytes([i])) for i in range(n)]
        w = WritableTagStream()
        for o in objs:
            w.write_js_array_buffer(o)
        start = w.pos
        for i, o in enumerate(objs):
            before = w.pos
            w.write_object_reference(obj=o)
            if bytes(w.data[before:]) != b"^" + leb(i):
                r.violation(f"reference: {i} of {n}", f"wrote {bytes(w.data[before:])!r}")
            before = w.pos
            w.write_object_reference(serialized_id=i)
            if bytes(w.data[before:]) != b"^" + leb(i):
                r.violation(f"reference: {i} of {n} by id", f"wrote {bytes(w.data[before:])!r}")
            r.states += 2
        s = ReadableTagStream(bytes(w.data) + b"\xff")
        ctx = DefaultDecodeContext(stream=s)
        back = [ctx.decode_object() for _ in objs]
        if s.pos != start:
            r.violation(f"reference: {n}", f"the objects end at {s.pos}")
        for i in range(2 * n):
            r.transitions += 1
            ident, got = s.read_object_reference(tag=True)
            if ident != i // 2 or got is not back[i // 2]:
                r.violation(f"reference: {i // 2} of {n}", f"is read as {ident} {got!r}")
            else:
                r.traces += 1
        if s.pos != len(w.data):
            r.violation(f"reference: {n}", f"the references end at {s.pos}")
        refused(r, f"reference: {n} to another", 0, lambda w: w.write_object_reference(obj=object()))
        for bad in (n, n + 1, 2**32):
            w2 = WritableTagStream()
            for o in objs:
                w2.write_js_array_buffer(o)
            before = bytes(w2.data)
            try:
                w2.write_object_reference(serialized_id=bad)
                r.violation(f"reference: {bad} of {n} by id", "is accepted")
            except V8SerializeError:
                if w2.data != before:
                    r.violation(f"reference: {bad} of {n} by id", "is refused but written")
            s = ReadableTagStream(before + b"^" + leb(bad))
            ctx = DefaultDecodeContext(stream=s)
            for _ in objs:
                ctx.decode_object()
            try:
                got = s.read_object_reference(tag=True)
                r.violation(f"reference: {bad} of {n}", f"gives {got!r}")
            except DecodeV8SerializeError:
                r.traces += 1


def refused_objects_task(r):
    """Out of the domain: refused, and what's written so far isn't a value."""
    utc = timezone.utc
    for name, write in {
        "sparse -1": lambda w, c: w.write_js_array_sparse([], c, length=-1),
        "sparse 2**32": lambda w, c: w.write_js_array_sparse([], c, length=2**32),
        "shared -1": lambda w, c: w.write_js_array_buffer(JSSharedArrayBuffer(-1)),
        "shared 2**32": lambda w, c: w.write_js_array_buffer(JSSharedArrayBuffer(2**32)),
        "transfer -1": lambda w, c: w.write_js_array_buffer(JSArrayBufferTransfer(-1)),
        "transfer 2**32": lambda w, c: w.write_js_array_buffer(JSArrayBufferTransfer(2**32)),
        "shared object -1": lambda w, c: w.write_v8_shared_object_reference(V8SharedObjectReference(-1)),
        "shared object 2**32": lambda w, c: w.write_v8_shared_object_reference(V8SharedObjectReference(2**32)),
        "length of dense": lambda w, c: w.write_js_array_dense([], c, properties=[("length", 1)], identity=object()),
        "length of sparse": lambda w, c: w.write_js_array_sparse([("length", 1)], c, length=0),
        "date": lambda w, c: w.write_js_date(datetime.min.replace(tzinfo=timezone(timedelta(hours=1)))) or w.write_js_date("x"),
        "object key": lambda w, c: w.write_js_object([(None, 1)], c),
    }.items():
        r.states += 1
        w = WritableTagStream()
        try:
            write(w, DefaultEncodeContext(stream=w))
        except (V8SerializeError, AttributeError):
            s = ReadableTagStream(w.data)
            try:
                got = DefaultDecodeContext(stream=s).decode_object()
                if name != "date":
                    r.violation(f"refused: {name}", f"left {got!r} written: {bytes(w.data)!r}")
            except V8SerializeError:
                r.traces += 1
        except Exception as e:
            r.violation(f"refused: {name}", f"raised {exc_summary(e)}")
        else:
            r.violation(f"refused: {name}", f"is written: {bytes(w.data)!r}")


# -- sequences -----------------------------------------------------------------

OPS = [
    ("varint", 0, {}), ("varint", 127, {}), ("varint", 128, {}), ("varint", 2**70, {}),
    ("zigzag", -64, {}), ("zigzag", 64, {}),
    ("int32", -(2**31), {"tag": 1}), ("int32", 2**31 - 1, {"tag": 0}), ("uint32", 2**32 - 1, {"tag": 1}), ("uint32", 0, {"tag": 0}),
    ("double", -0.0, {"tag": 1}), ("double", 1e300, {"tag": 0}),
    ("bigint", -(2**64), {"tag": 1}), ("bigint", 0, {"tag": 0}), ("bigint", 2**63, {"tag": 1}),
    ("string_onebyte", "", {"tag": 1}), ("string_onebyte", "\xff\x00", {"tag": 0}), ("string_onebyte", "x" * 128, {"tag": 1}),
    ("string_twobyte", "", {"tag": 1}), ("string_twobyte", "\u20ac\ud800", {"tag": 1}), ("string_twobyte", "a", {"tag": 0}), ("string_twobyte", "b" * 64, {"tag": 1}),
    ("string_utf8", "\U0001f600", {"tag": 1}), ("string_utf8", "", {"tag": 0}),
]  # fmt: skip


def sequences_task(r, firsts, depth):
    for seq in itertools.product(range(len(OPS)), repeat=depth - 1):
        for first in firsts:
            ops = [OPS[first], *(OPS[i] for i in seq)]
            r.states += 1
            w = WritableTagStream()
            ends = []
            try:
                for name, v, kw in ops:
                    if kw.get("tag") == 0:
                        getattr(w, f"write_{name}")(v, tag=None)
                    else:
                        getattr(w, f"write_{name}")(v)
                    ends.append(w.pos)
                s = ReadableTagStream(bytes(w.data))
                for (name, v, kw), end in zip(ops, ends):
                    got = getattr(s, f"read_{name}")(**({"tag": True} if kw.get("tag") else {}))
                    r.transitions += 1
                    if not same(got, v) or s.pos != end:
                        r.violation(f"sequence: {[(n, v) for n, v, _ in ops]}", f"{name} gave {got!r} up to {s.pos}, expected {v!r} up to {end}")
                        break
                else:
                    r.traces += 1
            except Exception as e:
                r.violation(f"sequence: {[(n, v) for n, v, _ in ops]}", f"raised {exc_summary(e)}")


# -- V8 ------------------------------------------------------------------------

DESCRIBE = """((xs) => xs.map((x) => typeof x === 'bigint' ? 'n' + x.toString(16) : typeof x === 'number'
 ? 'd' + Buffer.from(new Float64Array([x]).buffer).toString('hex') : 's' + Array.from({length: x.length}, (_, i) => x.charCodeAt(i).toString(16)).join()))"""


def v8_form(x):
    if isinstance(x, str):
        u = utf16(x)
        return "s" + ",".join(f"{u[i] + 256 * u[i + 1]:x}" for i in range(0, len(u), 2))
    if isinstance(x, tuple):
        return f"n{x[0]:x}"
    return "d" + struct.pack("<d", x).hex()


def v8_items(dense):
    """(bytes, value (bigints in a tuple), how ours is read)"""
    for n in boundary_ints(range(33), 1):
        for size in range(1, 6):
            if -(2**31) <= n < 2**31 and len(leb(zz(n))) <= size:
                yield b"I" + leb(zz(n), size), n, "int32"
            if 0 <= n < 2**32 and len(leb(n)) <= size:
                yield b"U" + leb(n, size), n, "uint32"
    for i, bits in enumerate(double_values(False)):
        f = struct.unpack("<d", struct.pack("<Q", bits))[0]
        if not math.isnan(f) and (dense or i % 5 == 0):
            yield b"N" + struct.pack("<d", f), f, "double"
    for n in boundary_ints([*range(0, 80), 127, 128, 255, 256, 503, 504, 505, 511, 512, 513, 1015, 1016, 4095, 4096, 65535, 65536], 1):
        least = (abs(n).bit_length() + 7) // 8
        for size in sorted({least, least + 1, -(-least // 8) * 8, -(-least // 8) * 8 + 8}):
            for extra in (0, 1):
                f = leb(size << 1 | (n < 0))
                yield b"Z" + leb(size << 1 | (n < 0), len(f) + extra) + abs(n).to_bytes(size, "little"), (n,), "bigint"
    for s in ["", *CHARS, *map("".join, itertools.product(CHARS, repeat=2)), *("x" * n for n in (126, 127, 128, 129, 16383, 16384)), *("\u20ac" * n for n in (42, 43, 63, 64, 8191, 8192)), *(("\ud800\udc00" * n)[1:] for n in (32, 63))]:
        w = from_utf16(utf16(s))
        for size in range(1, 6):
            for c, name, body in ((b'"', "onebyte", bytes(map(ord, s)) if all(ord(x) < 256 for x in s) else None), (b"c", "twobyte", utf16(s)), (b"S", "utf8", utf8(s))):
                if body is not None and len(leb(len(body))) <= size and (size < 4 or len(s) < 3):
                    yield c + leb(len(body), size) + body, w, f"string_{name}"


def v8_task(r, part, of, dense):
    items = [x for i, x in enumerate(v8_items(dense)) if i % of == part]
    for group in chunks(items, max(1, len(items) // 200)):
        stream = bytearray(b"\xff\x0fA" + leb(len(group)))
        for data, value, how in group:
            r.states += 1
            if how == "string_twobyte" and (len(stream) + len(data) - 2 * (len(utf16(value)) // 2)) % 2:
                stream += b"\0"
            stream += data
            s = ReadableTagStream(data + b"\x80")
            try:
                got = getattr(s, f"read_{how}")(tag=True)
            except Exception as e:
                got = exc_summary(e)
            if not same(got, value[0] if isinstance(value, tuple) else value) or s.pos != len(data):
                r.violation(f"V8: {data[:30]!r}", f"gave {got!r:.100} up to {s.pos}, expected {value!r:.100}")
        stream += b"$\0" + leb(len(group))
        (reply,) = nodejs.batch([{"op": "eval", "src": f"{DESCRIBE}(v8.deserialize(Buffer.from('{bytes(stream).hex()}', 'hex')))"}])
        want = [v8_form(v) for _, v, _ in group]
        if reply.get("ok") != want:
            bad = next((i for i, (a, b) in enumerate(zip(reply.get("ok") or [], want)) if a != b), None)
            r.violation(f"model: V8 and {group[bad or 0][0][:30]!r}", f"{str(reply.get('ok') and reply['ok'][bad])[:100] if bad is not None else str(reply)[:200]}")
        else:
            r.traces += len(group)
            r.outcomes["as V8 reads it"] += len(group)


def main(check):
    t = check.thorough
    top = 2**20 if t else 2**16
    alphabet = CHARS
    check.bounds = {
        "varints": f"all below {top} and 2^k+-2 to 2^260, every length to 5 bytes, max_bits 1-79, all 2-byte strings and 3-byte ones",
        "ints, doubles, bigints": "int lattice around all powers of two to 2^66; all exponents x a lattice of mantissas and signs; bigints around all powers of two to 2^1100 and length boundaries to 16384 bytes",
        "strings": f"all strings of up to {3 if t else 2} of {len(CHARS)} boundary characters, lengths around varint boundaries; all strings of 2 bytes and a lattice of 3 and 4 as each encoding",
        "tags": "all bytes x 0-3 pads x all tags and constraints",
        "objects": "every composite's write and read method, at 3 offsets before 4 trails and all truncations",
        "sequences": f"all sequences of {4 if t else 3} of {len(OPS)} writes",
    }
    check.assumptions = ["varints of at most 5 bytes in 32-bit positions (V8 ignores further bits)", "a NaN's bits are those that struct keeps"]
    values = list(range(top))
    full = sorted({n for n in boundary_ints(range(261)) if n >= 0} | set(range(400)))
    check.phase("varints", [(varint_task, (c, False)) for c in chunks(values, 16)] + [(varint_task, (c, True)) for c in chunks(full, 16)] + [(negatives_task, ())])
    third = range(256) if t else (0, 1, 2, 63, 64, 126, 127, 128, 129, 254, 255)
    check.phase("bytes as varints", [(bytes_task, (c, third)) for c in chunks(list(range(256)), 16)])
    check.phase("ints", [(int_task, ())])
    ds = list(double_values(t))
    check.phase("doubles", [(double_task, (c,)) for c in chunks(ds, 16)] + [(double_ints_task, ())])
    bigs = boundary_ints([*range(1100 if t else 300), *(8 * n for n in (62, 63, 64, 65, 127, 128, 8190, 8191, 8192, 8193, 16384))], 1)
    check.phase("bigints", [(bigint_task, (c,)) for c in chunks(bigs, 24)])
    strings = ["".join(c) for n in range(4 if t else 3) for c in itertools.product(alphabet, repeat=n)]
    for n in (3, 62, 63, 64, 65, 126, 127, 128, 129, 8190, 8191, 8192, 8193, 16382, 16383, 16384, 16385):
        strings += [c * n for c in ("a", "\xff", "\u20ac", "\ud800", "\U0001f600")] + ["a" * n + "\u20ac", "\xff" * n + "\ud800"]
    check.phase("strings", [(strings_task, (c,)) for c in chunks(strings, 48)])
    edge = [0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xD7, 0xD8, 0xDC, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF]
    datas = [bytes(c) for n in range(3) for c in itertools.product(range(256), repeat=n)]
    datas += [bytes(c) for c in itertools.product(edge, repeat=3)] + [bytes(c) for c in itertools.product(edge[2:] if t else edge[2::2], repeat=4)]
    check.phase("bytes as strings", [(string_bytes_task, (c,)) for c in chunks(datas, 32)])
    check.phase("tags", [(tags_task, ()), (header_task, ()), (raw_task, ()), (references_task, ()), (refused_objects_task, ())])
    check.phase("objects", [(objects_task, (i, 16)) for i in range(16)])
    depth = 4 if t else 3
    check.phase("sequences", [(sequences_task, ([i], depth)) for i in range(len(OPS))])
    check.phase("V8", [(v8_task, (i, 8, t)) for i in range(8)])
