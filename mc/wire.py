"""A reference model of the V8 serialization wire format (versions 13-15).

parse(data) is a strict decoder: it returns a specification graph and the end
position, or raises

* Incomplete - the data ends before the value does;
* Reject - malformed, every reader must refuse it;
* Free - this model doesn't say what happens (V8 and the library may differ
  or be lenient); only cleanliness is required.

encode(graph, choose) produces any derivation of a graph, by asking choose()
at each point where the format allows different spellings.

The model is validated against V8 itself: see checks c05 and c06, which replay
the derivations and byte strings in node.
"""

from __future__ import annotations

import math
import struct
from contextlib import contextmanager
from decimal import Decimal
from fractions import Fraction

from .graph import (
    ABSENT,
    ANY,
    HOLE,
    MAX_SAFE,
    NULL,
    UNDEF,
    VIEW_ITEMSIZE,
    Graph,
    fhex,
    key,
    s16,
    un16,
    unfhex,
)


class Incomplete(Exception):
    pass


class Reject(Exception):
    pass


class Free(Exception):
    pass


VIEW_TAGS = {
    "b": "Int8Array", "B": "Uint8Array", "C": "Uint8ClampedArray", "w": "Int16Array",
    "W": "Uint16Array", "d": "Int32Array", "D": "Uint32Array", "h": "Float16Array",
    "f": "Float32Array", "F": "Float64Array", "q": "BigInt64Array",
    "Q": "BigUint64Array", "?": "DataView",
}  # fmt: skip
VIEW_CODES = {v: ord(k) for k, v in VIEW_TAGS.items()}
NODE_VIEWS = [
    "Int8Array", "Uint8Array", "Uint8ClampedArray", "Int16Array", "Uint16Array",
    "Int32Array", "Uint32Array", "Float32Array", "Float64Array", "DataView",
    "Uint8Array", "BigInt64Array", "BigUint64Array",
]  # fmt: skip
ERROR_PROTOS = {
    "E": "EvalError", "R": "RangeError", "F": "ReferenceError", "S": "SyntaxError",
    "T": "TypeError", "U": "URIError",
}  # fmt: skip
FLAG_BITS = "gimyusldv"  # bit 0.. 8: g i m y u s l d v
KNOWN_FLAGS = (1 << 9) - 1


def flags_letters(n: int) -> str:
    return "".join(sorted(c for i, c in enumerate(FLAG_BITS) if n >> i & 1))


def flags_bits(letters: str) -> int:
    return sum(1 << FLAG_BITS.index(c) for c in letters)


def js_number_string(f: float) -> str:
    """JavaScript's Number::toString."""
    if f != f:
        return "NaN"
    if f == 0:
        return "0"
    if math.isinf(f):
        return "Infinity" if f > 0 else "-Infinity"
    sign, digits, exp = Decimal(repr(f)).normalize().as_tuple()
    ds = "".join(map(str, digits))
    k, n = len(ds), len(ds) + exp
    if k <= n <= 21:
        out = ds + "0" * (n - k)
    elif 0 < n <= 21:
        out = ds[:n] + "." + ds[n:]
    elif -6 < n <= 0:
        out = "0." + "0" * -n + ds
    else:
        e = n - 1
        out = ds[0] + ("." + ds[1:] if k > 1 else "") + "e" + ("+" if e > 0 else "-") + str(abs(e))
    return ("-" if sign else "") + out


MIN_DATE_MS = -62135596800000
MAX_DATE_MS = 253402300799999
DAY = 86400000


class Parser:
    def __init__(self, data: bytes):
        self.d = data
        self.p = 0
        self.g = Graph()
        self.ids: list = []  # serialized id -> X
        self.shared_seen = False
        self.features: set[str] = set()
        # where the field that is being read starts
        self.mark = 0
        self.group = 0

    @contextmanager
    def field(self, start=None):
        """What is read within is one field (after a failure it stays the current one)."""
        if not self.group:
            self.mark = self.p if start is None else start
        self.group += 1
        yield
        self.group -= 1

    # primitives
    def byte(self):
        if self.p >= len(self.d):
            raise Incomplete
        b = self.d[self.p]
        self.p += 1
        return b

    def take(self, n):
        if not self.group:
            self.mark = self.p
        if self.p + n > len(self.d):
            raise Incomplete
        self.p += n
        return self.d[self.p - n : self.p]

    def varint(self, bits=32):
        if not self.group:
            self.mark = self.p
        n = shift = count = 0
        while True:
            b = self.byte()
            n |= (b & 0x7F) << shift
            shift += 7
            count += 1
            if not b & 0x80:
                break
            if count >= 5:
                raise Free("varint longer than 5 bytes")
        if n >= 1 << bits:
            raise Free(f"varint exceeds {bits} bits")
        return n

    def peek_tag(self):
        p = self.p
        while p < len(self.d) and self.d[p] == 0:
            p += 1
        return self.d[p] if p < len(self.d) else None

    def tag(self):
        while True:
            if not self.group:
                self.mark = self.p
            b = self.byte()
            if b != 0:
                return chr(b)

    def double(self):
        return struct.unpack("<d", self.take(8))[0]

    def header(self):
        with self.field():
            b = self.byte()
            if b != 0xFF:
                raise Free("padding before the header") if b == 0 else Reject("no header")
            v = self.varint()
            if not 13 <= v <= 15:
                raise Reject("version")
        self.version = v

    def string(self, t):
        with self.field():
            return self.string1(t)

    def string1(self, t):
        n = self.varint()
        if t == "c" and n % 2:
            # the reader may check the length before or after the parity
            raise Reject("odd two-byte string")
        raw = self.take(n)
        if t == '"':
            return raw.decode("latin1")
        if t == "c":
            return raw.decode("utf-16-le", "surrogatepass")
        try:
            return raw.decode("utf-8")
        except UnicodeDecodeError:
            raise Free("invalid utf-8") from None

    def string_value(self):
        t = self.tag()
        if t in '"cS':
            return self.string(t)
        if t == "s":
            raise Free("String object in place of a string")
        self.check_known(t)
        raise Reject(f"expected a string, got tag {t!r}")

    def check_known(self, t):
        if t == "?":
            raise Free("object count verification")

    def new(self, node):
        x = self.g.add("", node)
        self.ids.append(x)
        return x

    def property_key(self, t):
        if t in "IUN":
            v = self.primitive(t)
            if v[0] == "int":
                return key(v[1])
            f = unfhex(v[1])
            if f != f or math.isinf(f) or not f.is_integer() or abs(f) >= 2**53:
                # the library's spelling of these is a known finding of C11
                s = js_number_string(f)
                if s != str(f):
                    raise Free("float key")
                return ("ks", s16(s))
            return key(int(f) if f else 0)
        if t in '"cS':
            return key(self.string(t))
        if t in "sn":
            raise Free("wrapper object as key")
        self.check_known(t)
        raise Reject(f"key with tag {t!r}")

    def primitive(self, t):
        if t == "I":
            n = self.varint()
            return ("int", (n >> 1) ^ -(n & 1))
        if t == "U":
            return ("int", self.varint())
        return ("num", fhex(self.double()))

    def bigint(self):
        with self.field():
            bits = self.varint()
            raw = self.take((bits >> 1) & 0x3FFFFFFF)
        n = int.from_bytes(raw, "little")
        return ("big", -n if bits & 1 else n)

    def properties(self, end, taken=()):
        """Read properties until the end tag."""
        out = {}
        n = 0
        while True:
            t = self.tag()
            if t == end:
                break
            k = self.property_key(t)
            if k in out or (k[0] == "ki" and k[1] in taken):
                # V8 refuses duplicates; still parse on to find other problems
                raise Free("duplicate key")
            out[k] = self.value()
            if out[k] == HOLE:
                raise Free("hole as a property value")
            n += 1
        if self.varint() != n:
            raise Reject("property count")
        return out

    def value(self, hole_ok=False):
        x = self.value1(self.tag(), hole_ok)
        # a view follows its buffer
        if (
            x[0] == "r"
            and self.g.nodes[x[1]]
            and self.g.nodes[x[1]][0] in ("Buffer", "SharedBuffer", "Transfer")
            and self.peek_tag() == ord("V")
        ):
            self.tag()
            return self.view(x)
        return x

    def view(self, buf):
        with self.field(self.p - 1):
            return self.view1(buf)

    def view1(self, buf):
        code = self.varint()
        name = VIEW_TAGS.get(chr(code)) if code < 128 else None
        if name is None:
            raise Reject("view type")
        offset, length = self.varint(), self.varint()
        flags = self.varint() if self.version >= 14 else 0
        b = self.g.nodes[buf[1]]
        if b[0] != "Buffer":
            w = VIEW_ITEMSIZE[name]
            if offset % w or (length % w and not flags & 1):
                raise Reject("view alignment")
            if flags:
                return self.new(("View", name, buf, offset, ANY, ANY))
            return self.new(("View", name, buf, offset, length, length))
        size, resizable = len(b[1]) // 2, b[2]
        if self.version >= 14 and (flags not in (2, 3) if resizable else flags):
            raise Free("inconsistent view flags")
        if self.version < 14 and resizable:
            raise Free("resizable buffer in old version")
        w = VIEW_ITEMSIZE[name]
        tracking = flags & 1
        if offset > size or offset % w:
            raise Reject("view offset")
        if tracking:
            if length and (length % w or length > size - offset):
                raise Free("length of a tracking view")
            return self.new(("View", name, buf, offset, None, (size - offset) // w * w))
        if length % w or length > size - offset:
            raise Reject("view length")
        return self.new(("View", name, buf, offset, length, length))

    def value1(self, t, hole_ok):
        g = self.g
        if t in "_0TF":
            return {"_": UNDEF, "0": NULL, "T": ("bool", True), "F": ("bool", False)}[t]
        if t == "-":
            if hole_ok:
                return HOLE
            raise Free("hole outside a dense array")
        if t in "IUN":
            return self.primitive(t)
        if t == "Z":
            return self.bigint()
        if t in '"cS':
            return ("str", s16(self.string(t)))
        if t == "^":
            i = self.varint()
            if self.shared_seen:
                raise Free("ids after a shared object")
            if i >= len(self.ids):
                raise Reject("reference out of range")
            return self.ids[i]
        if t == "o":
            x = self.new(("Object", ()))
            g.set(x, ("Object", order(self.properties("{"))))
            return x
        if t == "a":
            length = self.varint()
            x = self.new(("Array", length, (), ()))
            p = self.properties("@")
            if self.varint() != length:
                raise Reject("sparse length")
            if any(k[0] == "ki" and k[1] >= length for k in p):
                raise Free("index beyond the length")
            g.set(x, array(length, p))
            return x
        if t == "A":
            length = self.varint()
            x = self.new(("Array", length, (), ()))
            els = {}
            for i in range(length):
                e = self.value(hole_ok=True)
                if e != HOLE:
                    els[("ki", i)] = e
            p = self.properties("$")
            if self.varint() != length:
                raise Reject("dense length")
            if any(k[0] == "ki" for k in p):
                raise Free("index among dense properties")
            g.set(x, array(length, {**els, **p}))
            return x
        if t == "D":
            ms = self.double()
            if ms != ms or not MIN_DATE_MS - DAY <= ms <= MAX_DATE_MS + DAY:
                raise Reject("date")
            if not MIN_DATE_MS + DAY <= ms <= MAX_DATE_MS - DAY:
                raise Free("date at the limits")
            us = Fraction(ms) * 1000
            if abs(us - round(us)) > 0.25:
                raise Free("date between microseconds")
            return self.new(("Date", round(us)))
        if t in "yx":
            return self.new(("Boxed", ("bool", t == "y")))
        if t == "n":
            x = self.new(None)
            g.set(x, ("Boxed", ("num", fhex(self.double()))))
            return x
        if t == "z":
            x = self.new(None)
            g.set(x, ("Boxed", self.bigint()))
            return x
        if t == "s":
            x = self.new(None)
            g.set(x, ("Boxed", ("str", s16(self.string_value()))))
            return x
        if t == "R":
            x = self.new(None)
            source = self.string_value()
            flags = self.varint()
            if flags & ~KNOWN_FLAGS:
                raise Free("unknown regexp flags")
            if flags & 16 and flags & 256:
                raise Reject("regexp flags u and v")
            g.set(x, ("RegExp", s16(source or "(?:)"), flags_letters(flags)))
            return x
        if t == ";":
            x = self.new(("Map", ()))
            items = []
            while self.peek_tag() != ord(":"):
                k = self.value()
                items.append((k, self.value()))
            self.tag()
            if self.varint() != 2 * len(items):
                raise Reject("map count")
            if any(HOLE in i for i in items):
                raise Free("hole in a map")
            g.set(x, ("Map", self.unique_map(items)))
            return x
        if t == "'":
            x = self.new(("Set", ()))
            items = []
            while self.peek_tag() != ord(","):
                items.append(self.value())
            self.tag()
            if self.varint() != len(items):
                raise Reject("set count")
            g.set(x, ("Set", tuple(k for k, _ in self.unique_map([(i, i) for i in items]))))
            return x
        if t == "B":
            with self.field():
                n = self.varint()
                return self.new(("Buffer", self.take(n).hex(), False, None))
        if t == "~":
            with self.field():
                n, m = self.varint(), self.varint()
                if n > m:
                    # only the order of this and the truncation check is open
                    raise Reject("resizable buffer larger than its maximum")
                return self.new(("Buffer", self.take(n).hex(), True, m))
        if t == "t":
            self.features.add("transfer")
            return self.new(("Transfer", self.varint()))
        if t == "u":
            self.features.add("shared")
            return self.new(("SharedBuffer", self.varint()))
        if t == "p":
            self.features.add("shared")
            self.shared_seen = True
            return self.new(("SharedRef", self.varint()))
        if t == "r":
            return self.error()
        if t == "\\":
            x = self.new(None)
            with self.field():
                code, n = self.varint(), self.varint()
                if code >= len(NODE_VIEWS):
                    raise Reject("host object type")
                raw = self.take(n)
            name = NODE_VIEWS[code]
            if n % VIEW_ITEMSIZE[name]:
                raise Free("partial item")
            b = g.add("", ("Buffer", raw.hex(), False, None))
            g.set(x, ("View", name, b, 0, n, n))
            self.features.add("host")
            return x
        self.check_known(t)
        raise Reject(f"tag {t!r}")

    def unique_map(self, items):
        """Apply Map semantics: equal keys replace the value, keep the place.

        V8 stores both -0 and 0 as +0.
        """
        out = {}
        for k, v in items:
            c = k
            if k[0] in ("int", "num"):
                f = k[1] if k[0] == "int" else unfhex(k[1])
                c = ("n", "nan" if f != f else f + 0)
            elif k[0] == "r" and self.g.nodes[k[1]] and self.g.nodes[k[1]][0] == "Boxed":
                # Python unwraps these, which can make them equal
                raise Free("wrapper object as a map key")
            if c in out:
                raise Free("repeated map key")
            if k == ("num", fhex(-0.0)):
                raise Free("negative zero as a map key")
            out[c] = (k, v)
        if any(k[0] == "big" for k, _ in out.values()) and len(out) > 1:
            raise Free("bigint and number keys are alike in Python")
        return tuple(out.values())

    def etag(self):
        self.mark = self.p
        b = self.byte()
        if b & 0x80:
            raise Free("multi-byte error tag")
        c = chr(b)
        if c not in "ERFSTUmcs.":
            raise Reject(f"error tag {c!r}")
        return c

    def error(self):
        x = self.new(None)
        name, message, stack, cause = "Error", ABSENT, ABSENT, ABSENT
        t = self.etag()
        if t in ERROR_PROTOS:
            name = ERROR_PROTOS[t]
            t = self.etag()
        if t == "m":
            message = ("str", s16(self.string_value()))
            t = self.etag()
        seen = False
        if t == "s":
            seen = True
            stack = ("str", s16(self.string_value()))
            t = self.etag()
        self.g.set(x, ("Error", name, message, stack, cause))
        if t == "c":
            cause = self.value()
            if cause == HOLE:
                raise Free("hole as a cause")
            t = self.etag()
        if t == "s" and not seen:
            stack = ("str", s16(self.string_value()))
            t = self.etag()
            self.features.add("old error order")
        self.g.set(x, ("Error", name, message, stack, cause))
        if t != ".":
            raise Free("unusual order of error fields")
        return x


def order(props: dict):
    idx = sorted((k for k in props if k[0] == "ki"), key=lambda k: k[1])
    return tuple((k, props[k]) for k in [*idx, *(k for k in props if k[0] != "ki")])


def array(length, props: dict):
    o = order(props)
    return (
        "Array", length, tuple((k[1], v) for k, v in o if k[0] == "ki"),
        tuple((k, v) for k, v in o if k[0] != "ki"),
    )  # fmt: skip


def parse(data: bytes):
    """Strictly decode; returns (Graph, end position, features)."""
    p = Parser(data)
    p.header()
    p.g.root = p.value()
    return p.g, p.p, p.features


# -- derivations ------------------------------------------------------------------


class Encoder:
    """Writes a graph, asking choose(what, options) for every free decision."""

    def __init__(self, g: Graph, choose, version=15, pads=True, host=False):
        self.g = g
        self.choose = choose
        self.out = bytearray()
        self.ids: dict[int, int] = {}
        self.pads = pads

    def run(self) -> bytes:
        self.version = self.choose("version", [15, 14, 13])
        self.out += bytes([0xFF, self.version])
        self.value(self.g.root)
        return bytes(self.out)

    def tag(self, c: str):
        if self.pads:
            self.out += b"\0" * self.choose("padding", [0, 1, 2])
        self.out.append(ord(c))

    def varint(self, n: int, vary=True):
        minimal = []
        m = n
        while True:
            minimal.append(m & 0x7F)
            m >>= 7
            if not m:
                break
        extra = self.choose("varint", [0, 1, 5]) if vary else 0
        total = 5 if extra == 5 else len(minimal) + extra
        total = min(5, max(total, len(minimal)))
        minimal += [0] * (total - len(minimal))
        self.out += bytes([b | 0x80 for b in minimal[:-1]] + minimal[-1:])

    def string(self, s: str):
        opts = []
        try:
            s.encode("latin1")
            opts.append('"')
        except UnicodeEncodeError:
            pass
        opts.append("c")
        try:
            s.encode("utf-8")
            opts.append("S")
        except UnicodeEncodeError:
            pass
        t = self.choose("string", opts)
        raw = s.encode(
            {'"': "latin1", "c": "utf-16-le", "S": "utf-8"}[t],
            "surrogatepass" if t == "c" else "strict",
        )
        self.tag(t)
        self.varint(len(raw))
        self.out += raw

    def number(self, f: float, prefer_int: bool):
        opts = []
        if f == f and not math.isinf(f) and f.is_integer() and math.copysign(1, f) * (f or 1) == (f or 1):
            n = int(f)
            if -(2**31) <= n < 2**31:
                opts.append("I")
            if 0 <= n < 2**32:
                opts.append("U")
        opts = opts + ["N"] if prefer_int else ["N"] + opts
        t = self.choose("number", opts)
        self.tag(t)
        if t == "N":
            self.out += struct.pack("<d", f)
        elif t == "U":
            self.varint(int(f))
        else:
            n = int(f)
            self.varint((n << 1) ^ (n >> 31) if n < 0 else n << 1)

    def bigint_body(self, n: int):
        size = (abs(n).bit_length() + 7) // 8
        size += self.choose("bigint", [0, 1, 8])
        self.varint(size << 1 | (n < 0))
        self.out += abs(n).to_bytes(size, "little")

    def key(self, k):
        if k[0] == "ki":
            how = self.choose("key", ["num", "str"])
            if how == "num":
                return self.number(float(k[1]), True)
            return self.string(str(k[1]))
        self.string(un16(k[1]))

    def record(self, x):
        self.ids[x[1]] = len(self.ids)

    def value(self, x):
        t = x[0]
        if t in ("undef", "null", "hole", "bool"):
            self.tag({"undef": "_", "null": "0", "hole": "-"}.get(t) or ("T" if x[1] else "F"))
        elif t == "int" and abs(x[1]) <= MAX_SAFE:
            self.number(float(x[1]), True)
        elif t == "num":
            self.number(unfhex(x[1]), False)
        elif t in ("big", "int"):
            self.tag("Z")
            self.bigint_body(x[1])
        elif t == "str":
            self.string(un16(x[1]))
        else:
            self.node(x)

    def props(self, props, end):
        for k, v in props:
            self.key(k)
            self.value(v)
        self.tag(end)
        self.varint(len(props))

    def node(self, x):
        i = x[1]
        if i in self.ids:
            self.tag("^")
            self.varint(self.ids[i])
            return
        n = self.g.nodes[i]
        k = n[0]
        if k == "View":
            # the buffer (or a reference to it), then the view
            self.node(n[2])
            self.record(x)
            self.tag("V")
            self.varint(VIEW_CODES[n[1]], vary=False)
            self.varint(n[3])
            self.varint(n[4] or 0)
            if self.version >= 14:
                b = self.g.nodes[n[2][1]]
                flags = (2 if b[0] == "Buffer" and b[2] else 0) | (n[4] is None)
                self.varint(flags)
            return
        self.record(x)
        if k == "Object":
            self.tag("o")
            self.props(n[1], "{")
        elif k == "Array":
            small = n[1] < 100
            if self.choose("array", ["dense", "sparse"] if small else ["sparse"]) == "dense":
                self.tag("A")
                self.varint(n[1])
                els = dict(n[2])
                for j in range(n[1]):
                    self.value(els.get(j, HOLE))
                self.props(n[3], "$")
                self.varint(n[1])
            else:
                self.tag("a")
                self.varint(n[1])
                self.props([*((("ki", a), b) for a, b in n[2]), *n[3]], "@")
                self.varint(n[1])
        elif k == "Map":
            self.tag(";")
            for a, b in n[1]:
                self.value(a)
                self.value(b)
            self.tag(":")
            self.varint(2 * len(n[1]))
        elif k == "Set":
            self.tag("'")
            for a in n[1]:
                self.value(a)
            self.tag(",")
            self.varint(len(n[1]))
        elif k == "Date":
            self.tag("D")
            self.out += struct.pack("<d", n[1] / 1000)
        elif k == "RegExp":
            self.tag("R")
            self.string(un16(n[1]))
            self.varint(flags_bits(n[2]))
        elif k == "Boxed":
            v = n[1]
            if v[0] == "bool":
                self.tag("y" if v[1] else "x")
            elif v[0] in ("num", "int"):
                self.tag("n")
                self.out += struct.pack("<d", unfhex(v[1]) if v[0] == "num" else v[1])
            elif v[0] == "big":
                self.tag("z")
                self.bigint_body(v[1])
            else:
                self.tag("s")
                self.string(un16(v[1]))
        elif k == "Buffer":
            self.tag("~" if n[2] else "B")
            self.varint(len(n[1]) // 2)
            if n[2]:
                self.varint(n[3])
            self.out += bytes.fromhex(n[1])
        elif k == "SharedBuffer":
            self.tag("u")
            self.varint(n[1])
        elif k == "Transfer":
            self.tag("t")
            self.varint(n[1])
        elif k == "SharedRef":
            self.tag("p")
            self.varint(n[1])
        elif k == "Error":
            self.tag("r")
            for c, name in ERROR_PROTOS.items():
                if name == n[1]:
                    self.out.append(ord(c))
            if n[2] != ABSENT:
                self.out += b"m"
                self.value(n[2])
            old = n[3] != ABSENT and n[4] != ABSENT and self.choose("error", [False, True])
            for f in ("c", "s") if old else ("s", "c"):
                v = n[3] if f == "s" else n[4]
                if v != ABSENT:
                    self.out += f.encode()
                    self.value(v)
            self.out += b"."
        else:
            raise AssertionError(n)


def derivations(g: Graph, deviations: int, limit=None):
    """All derivations of a graph with at most this many non-default choices."""
    stack = [((), deviations)]  # choices forced up to a point, deviations left
    while stack:
        forced, left = stack.pop()
        trace = []

        def choose(what, options):
            i = len(trace)
            c = forced[i] if i < len(forced) else 0
            trace.append(len(options))
            return options[c]

        yield Encoder(g, choose).run()
        if left:
            taken = list(forced) + [0] * (len(trace) - len(forced))
            for i in range(len(trace) - 1, len(forced) - 1, -1):
                for alt in range(1, trace[i]):
                    stack.append((tuple(taken[:i]) + (alt,), left - 1))


def js_graph(g: Graph):
    """What Python sees of the JavaScript value of a graph."""
    h = Graph(g.root, g.nodes, g.flavours)

    def fx(t):
        if t[0] == "num":
            f = unfhex(t[1])
            if f.is_integer() and (f or math.copysign(1, f) > 0) and -(2**31) <= f < 2**32:
                return ("int", int(f))
        return t

    def fnode(i, n):
        if n[0] == "Boxed":
            return h.nodes[i]
        if n[0] == "Error" and n[3] == ABSENT:
            return n
        return n

    h.root, h.nodes = h._map(fx, fnode)
    return h.to_py()
