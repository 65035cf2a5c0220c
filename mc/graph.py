"""Value graphs: one representation shared by Python, JavaScript and the wire model.

A graph is (root, nodes): nodes is a list of tuples (kind, fields...), and a
value X is ("r", node index) or a primitive:

  ("undef",) ("null",) ("hole",) ("bool", b) ("int", n) ("num", float64 hex)
  ("big", n) ("str", utf-16 code units hex)

Specification graphs distinguish everything ("int" is a Python int). They are
projected to what Python should see after a round trip (to_py) or to what
JavaScript should see (to_js), and compared with graphs describing the actual
Python/JavaScript values with match(), a bisimulation that checks identity.
"""

from __future__ import annotations

import math
import re
import struct
from datetime import datetime, timedelta, timezone

from v8serialize.constants import ArrayBufferViewTag, JSErrorName, JSRegExpFlag
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSArrayBufferTransfer,
    JSDataView,
    JSError,
    JSErrorData,
    JSHole,
    JSMap,
    JSObject,
    JSPrimitiveObject,
    JSRegExp,
    JSSet,
    JSSharedArrayBuffer,
    JSTypedArray,
    JSUndefined,
)
from v8serialize.jstypes._v8 import V8SharedObjectReference

UNDEF, NULL, HOLE = ("undef",), ("null",), ("hole",)
TRUE, FALSE = ("bool", True), ("bool", False)
ABSENT = ("absent",)
ANY = ("any",)
MAX_SAFE = 2**53 - 1


def s16(s: str) -> str:
    return s.encode("utf-16-be", "surrogatepass").hex()


def un16(h: str) -> str:
    return bytes.fromhex(h).decode("utf-16-be", "surrogatepass")


def S(s: str):
    return ("str", s16(s))


def I(n: int):  # noqa: E743
    return ("int", n)


def fhex(f: float) -> str:
    return "nan" if f != f else struct.pack(">d", f).hex()


def unfhex(h: str) -> float:
    return math.nan if h == "nan" else struct.unpack(">d", bytes.fromhex(h))[0]


def F(f: float):
    return ("num", fhex(f))


def R(i: int):
    return ("r", i)


def key(k):
    """A canonical object key of a JS property named by int or str k."""
    if isinstance(k, int):
        return ("ki", k) if 0 <= k <= 2**32 - 2 else ("ks", s16(str(k)))
    if re.fullmatch(r"0|[1-9][0-9]{0,9}", k, re.ASCII) and int(k) <= 2**32 - 2:
        return ("ki", int(k))
    return ("ks", s16(k))


def ordered(props):
    """Properties in JavaScript's order: indexes ascending, then as created."""
    out = dict(props)
    return tuple(
        [i for i in sorted((i for i in out.items() if i[0][0] == "ki"), key=lambda i: i[0][1])]
        + [i for i in out.items() if i[0][0] != "ki"]
    )


VIEW_ITEMSIZE = {
    "Int8Array": 1, "Uint8Array": 1, "Uint8ClampedArray": 1, "Int16Array": 2,
    "Uint16Array": 2, "Int32Array": 4, "Uint32Array": 4, "Float16Array": 2,
    "Float32Array": 4, "Float64Array": 8, "BigInt64Array": 8, "BigUint64Array": 8,
    "DataView": 1,
}  # fmt: skip
FLAG_LETTERS = [
    ("d", JSRegExpFlag.HasIndices), ("g", JSRegExpFlag.Global),
    ("i", JSRegExpFlag.IgnoreCase), ("l", JSRegExpFlag.Linear),
    ("m", JSRegExpFlag.Multiline), ("s", JSRegExpFlag.DotAll),
    ("u", JSRegExpFlag.Unicode), ("v", JSRegExpFlag.UnicodeSets),
    ("y", JSRegExpFlag.Sticky),
]  # fmt: skip
FROZEN_FLAVOURS = {
    "OwnTuple", "Pair", "OwnFrozenSet", "OwnBytes", "OwnDate", "range",
    "tuple", "frozenset", "datetime", "naive", "JSRegExp", "Pattern", "bytes",
    "roJSArrayBuffer", "JSPrimitiveObject", "memoryview", "roView", "shared",
    "transfer", "sharedref",
}  # fmt: skip
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


# -- describing actual Python values ------------------------------------------


def describe_py(value):
    ids: dict[int, int] = {}
    keep = []
    nodes: list = []

    def x(v):
        if v is None:
            return NULL
        if v is JSUndefined:
            return UNDEF
        if v is JSHole:
            return HOLE
        t = type(v)
        if t is bool:
            return ("bool", v)
        if t is int:
            return ("int", v)
        if t is float:
            return ("num", fhex(v))
        if t is str:
            return ("str", s16(v))
        i = ids.get(id(v))
        if i is None:
            i = ids[id(v)] = len(nodes)
            keep.append(v)
            nodes.append(None)
            nodes[i] = node(v)
        return ("r", i)

    def k(v):
        if type(v) is int:
            return ("ki", v)
        if type(v) is str:
            return ("ks", s16(v))
        return ("?key", repr(v))

    def opt(v):
        return ABSENT if v is None else x(v)

    def node(v):
        if isinstance(v, JSArray):
            arr = v.array
            els = tuple((i, x(e)) for i, e in sorted(arr.elements().items()))
            props = tuple((k(a), x(b)) for a, b in v.properties.items())
            # what the mapping interface shows must be the same
            shown = list(v.items())
            if [a for a, _ in shown] != [i for i, _ in els] + list(v.properties):
                return ("?array-views-disagree", repr(shown)[:200])
            return ("Array", len(arr), els, props)
        if isinstance(v, JSObject):
            return ("Object", tuple((k(a), x(b)) for a, b in v.items()))
        if isinstance(v, JSMap):
            return ("Map", tuple((x(a), x(b)) for a, b in v.items()))
        if isinstance(v, JSSet):
            return ("Set", tuple(x(a) for a in v))
        if isinstance(v, (JSError, JSErrorData)):
            name = v.name.value if isinstance(v.name, JSErrorName) else v.name
            return ("Error", name, opt(v.message or ""), opt(v.stack), opt(v.cause))
        if isinstance(v, datetime):
            if v.tzinfo is None:
                us = (v - datetime(1970, 1, 1)) // timedelta(microseconds=1)
            else:
                us = (v - EPOCH) // timedelta(microseconds=1)
            return ("Date", int(us))
        if isinstance(v, JSRegExp):
            return ("RegExp", s16(v.source), flags_str(v.flags))
        if isinstance(v, JSPrimitiveObject):
            return ("Boxed", v.tag.name, x(v.value))
        if isinstance(v, JSArrayBuffer):
            with v.data as d:
                h = bytes(d).hex()
            return ("Buffer", h, v.resizable, v.max_byte_length if v.resizable else None)
        if isinstance(v, JSSharedArrayBuffer):
            return ("SharedBuffer", v.buffer_id)
        if isinstance(v, JSArrayBufferTransfer):
            return ("Transfer", v.transfer_id)
        if isinstance(v, (JSTypedArray, JSDataView)):
            name = ArrayBufferViewTag(v.view_tag).name[1:]
            if isinstance(v.backing_buffer, (JSSharedArrayBuffer, JSArrayBufferTransfer)):
                # their bytes aren't here, so the view can only say what range it is of
                w = VIEW_ITEMSIZE[name]
                n = None if v.item_length is None else v.item_length * w
                return ("View", name, x(v.backing_buffer), v.item_offset * w, n, n)
            length = v.byte_length
            try:
                with v.get_buffer_as_memoryview() as m:
                    if m.nbytes != length:
                        return ("?view-length-disagrees", name, length, m.nbytes)
            except TypeError:
                pass
            return (
                "View", name, x(v.backing_buffer), v.byte_offset,
                None if v.is_length_tracking else length, length,
            )  # fmt: skip
        if isinstance(v, V8SharedObjectReference):
            return ("SharedRef", v.shared_value_id)
        if type(v) is dict:
            return ("py:dict", tuple((x(a), x(b)) for a, b in v.items()))
        if type(v) in (list, tuple):
            return ("py:" + type(v).__name__, tuple(x(a) for a in v))
        if type(v) is set:
            # their order isn't fixed (that of NaN depends on its address)
            return ("py:set", tuple(x(a) for a in sorted(v, key=lambda a: (type(a).__name__, repr(a)))))
        return ("?type", f"{type(v).__module__}.{type(v).__qualname__}")

    return x(value), nodes


def flags_str(flags) -> str:
    n = int(flags)
    out = "".join(c for c, f in FLAG_LETTERS if n & int(f))
    rest = n & ~sum(int(f) for _, f in FLAG_LETTERS)
    return out + (f"+{rest}" if rest else "")


def flags_int(letters: str) -> int:
    return sum(int(f) for c, f in FLAG_LETTERS if c in letters)


# -- specification graphs -------------------------------------------------------


class Graph:
    """A specification graph, with the Python flavour of each node."""

    def __init__(self, root=None, nodes=None, flavours=None):
        self.root = root
        self.nodes = list(nodes or [])
        self.flavours = list(flavours or [])

    def add(self, flavour, node=None):
        self.nodes.append(node)
        self.flavours.append(flavour)
        return ("r", len(self.nodes) - 1)

    def set(self, ref, node):
        self.nodes[ref[1]] = node

    # constructors; each returns ("r", i)
    def obj(self, *props):
        return self.add("JSObject", ("Object", ordered((key(a), b) for a, b in props)))

    def arr(self, *els, props=(), fl="JSArray"):
        return self.add(
            fl,
            (
                "Array", len(els),
                tuple((i, e) for i, e in enumerate(els) if e != HOLE),
                tuple((key(a), b) for a, b in props),
            ),
        )  # fmt: skip

    def sparse(self, length, els, props=()):
        return self.add(
            "JSArray",
            ("Array", length, tuple(els), tuple((key(a), b) for a, b in props)),
        )

    def map(self, *items, fl="JSMap"):
        return self.add(fl, ("Map", tuple(items)))

    def jsset(self, *items, fl="JSSet"):
        return self.add(fl, ("Set", tuple(items)))

    def error(self, name="Error", message=None, stack=None, cause=ABSENT, fl="JSErrorData"):
        return self.add(
            fl,
            (
                "Error", name,
                ABSENT if message is None else S(message),
                ABSENT if stack is None else S(stack),
                cause,
            ),
        )  # fmt: skip

    def date(self, us, fl="datetime"):
        return self.add(fl, ("Date", us))

    def regexp(self, source, flags="", fl="JSRegExp"):
        return self.add(fl, ("RegExp", s16(source), flags))

    def boxed(self, x):
        return self.add("JSPrimitiveObject", ("Boxed", x))

    def buffer(self, data=b"", max=None, fl="JSArrayBuffer"):
        return self.add(fl, ("Buffer", data.hex(), max is not None, max))

    def view(self, name, buf, offset=0, length=None, tracking=False, fl="View"):
        """length is in bytes; None means "the rest of the buffer"."""
        b = self.nodes[buf[1]]
        if b[0] == "Buffer":
            n = len(b[1]) // 2
            w = VIEW_ITEMSIZE[name]
            rest = (n - offset) // w * w
            if tracking:
                return self.add(fl, ("View", name, buf, offset, None, rest))
            return self.add(
                fl, ("View", name, buf, offset) + ((rest if length is None else length,) * 2)
            )
        return self.add(fl, ("View", name, buf, offset, length, length))

    def error_in_own_cause(self) -> bool:
        """Whether an error is referenced while its cause is being written."""
        seen, active = set(), set()

        def refs(t):
            if isinstance(t, tuple):
                if len(t) == 2 and t[0] == "r":
                    yield t[1]
                else:
                    for i in t:
                        yield from refs(i)

        def visit(i):
            if i in active:
                return self.nodes[i][0] == "Error"
            if i in seen:
                return False
            seen.add(i)
            active.add(i)
            bad = any(visit(j) for j in refs(self.nodes[i][1:]))
            active.discard(i)
            return bad

        return any(visit(i) for i in refs(self.root))

    # -- projections
    def table(self):
        return self.root, self.nodes

    def frozen(self):
        out = {i for i, f in enumerate(self.flavours) if f in FROZEN_FLAVOURS}
        # as are views of frozen buffers
        for i, n in enumerate(self.nodes):
            if n and n[0] == "View":
                b = n[2][1]
                if b in out or self.nodes[b][0] in ("SharedBuffer", "Transfer"):
                    out.add(i)
        return out

    def _map(self, fx, fnode):
        """Rewrite all X's with fx, then nodes with fnode."""

        def walk(t):
            if isinstance(t, tuple):
                if t and t[0] in PRIMS:
                    return fx(t)
                return tuple(walk(i) for i in t)
            return t

        nodes = []
        for i, n in enumerate(self.nodes):
            n = (n[0],) + tuple(walk(f) for f in n[1:])
            nodes.append(fnode(i, n))
        return walk(self.root), nodes

    def to_py(self, views=True):
        """What Python sees after a round trip with the default steps."""

        def fx(t):
            if t[0] == "big":
                return ("int", t[1])
            if t[0] == "int" and abs(t[1]) <= MAX_SAFE and not -(2**31) <= t[1] < 2**32:
                return F(float(t[1]))  # JavaScript numbers that need a double
            if t[0] == "r" and self.nodes[t[1]][0] == "Boxed":
                inner = self.nodes[t[1]][1]  # number objects always hold doubles
                return F(float(inner[1])) if inner[0] == "int" else fx(inner)
            return t

        def fnode(i, n):
            if n[0] == "Error" and n[4] == NULL:
                n = n[:4] + (ABSENT,)
            if n[0] == "Error":
                n = (n[0], py_error_name(n[1]), no_message(n[2])) + n[3:]
            if n[0] == "View" and self.nodes[n[2][1]][0] in ("SharedBuffer", "Transfer"):
                n = n[:3] + (ANY, ANY, ANY)
            return n

        return self._map(fx, fnode)

    def to_js(self, py=True):
        """What JavaScript sees of the (Python, or else JavaScript) value."""

        def fx(t):
            if t[0] == "int":
                n = t[1]
                return ("num", fhex(float(n))) if abs(n) <= MAX_SAFE else ("big", f"{n:x}")
            if t[0] == "big":
                return ("big", f"{t[1]:x}")
            return t

        def fnode(i, n):
            # V8 stores negative zero keys as zero
            if n[0] == "Map":
                return ("Map", tuple((F(0.0) if k == F(-0.0) else k, v) for k, v in n[1]))
            if n[0] == "Set":
                return ("Set", tuple(F(0.0) if k == F(-0.0) else k for k in n[1]))
            if n[0] == "Date":
                ms = n[1]
                return ("Date", "nan" if ms is None else int(ms / 1000) if abs(ms) < 2**53 else trunc_div(ms, 1000))
            if n[0] == "Error":
                name = n[1] if n[1] in JS_ERROR_NAMES else "Error"
                return (
                    "Error", name, no_message(n[2]), ANY if n[3] == ABSENT else n[3],
                    ABSENT if py and n[4] == NULL else n[4],
                )
            return n

        return self._map(fx, fnode)


def loose(table):
    """Forget whether a number is an int or a float (JavaScript doesn't know)."""

    def walk(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "int" and abs(t[1]) <= 2**53:
                return ("num", fhex(float(t[1])))
            return tuple(walk(i) for i in t)
        return t

    return walk(table[0]), [walk(n) for n in table[1]]


def trunc_div(a, b):
    return abs(a) // b * (1 if a >= 0 else -1)


PRIMS = {"undef", "null", "hole", "bool", "int", "num", "big", "str", "r"}
JS_ERROR_NAMES = {
    "Error", "EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError",
    "URIError",
}  # fmt: skip


def no_message(x):
    """Absent messages read as the empty string in JavaScript and JSError."""
    return ("str", "") if x == ABSENT else x


def py_error_name(name: str) -> str:
    """The name a decoded error has (known finding: UriError)."""
    if name in ("URIError", "UriError"):
        return "UriError"
    return name if name in JS_ERROR_NAMES else "Error"


# -- comparing ------------------------------------------------------------------


def match(expected, actual, frozen=frozenset()):
    """Compare two graphs; return None or a description of the first mismatch.

    Nodes must correspond one to one, except that distinct but interchangeable
    immutable nodes (frozen) may be the same object in actual.
    """
    eroot, enodes = expected
    aroot, anodes = actual
    e2a: dict[int, int] = {}
    a2e: dict[int, int] = {}
    done = set()
    stack = [(eroot, aroot, "$")]
    while stack:
        e, a, path = stack.pop()
        if e == ANY:
            continue
        if isinstance(e, tuple) and isinstance(a, tuple):
            if e and a and e[0] == "r" and a[0] == "r" and len(e) == 2 == len(a):
                ei, ai = e[1], a[1]
                if (ei, ai) in done:
                    continue
                if e2a.setdefault(ei, ai) != ai:
                    return (
                        f"at {path}: expected the object already seen as actual "
                        f"#{e2a[ei]}, got another object #{ai}: {anodes[ai]!r:.200}"
                    )
                if ei not in frozen:
                    if a2e.setdefault(ai, ei) != ei:
                        return (
                            f"at {path}: actual object #{ai} stands for two different "
                            f"expected objects: {enodes[a2e[ai]]!r:.200} and "
                            f"{enodes[ei]!r:.200}"
                        )
                elif ai in a2e and a2e[ai] not in frozen:
                    return f"at {path}: object #{ai} also stands for a mutable one"
                done.add((ei, ai))
                stack.append((enodes[ei], anodes[ai], path))
                continue
            if len(e) != len(a):
                return f"at {path}: expected {show(e)}, got {show(a)}"
            for n in range(len(e) - 1, -1, -1):
                if e[n] is not a[n]:
                    stack.append((e[n], a[n], f"{path}.{n}"))
            continue
        if e != a or (type(e) is bool) != (type(a) is bool):
            return f"at {path}: expected {show(e)}, got {show(a)}"
    return None


def show(t) -> str:
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "str":
        try:
            return repr(("str", un16(t[1])))[:300]
        except Exception:
            pass
    return repr(t)[:300]


# -- source code of specification graphs ----------------------------------------

PRELUDE = """\
import re
from datetime import datetime, timezone, timedelta
from v8serialize import dumps, loads
from v8serialize.constants import *
from v8serialize.jstypes import *
from v8serialize.jstypes._v8 import V8SharedObjectReference
inf, nan = float('inf'), float('nan')
"""
# Python types besides the built-in ones that are serialized by the interfaces they implement
PRELUDE_TYPES = """\
import array, collections, types
from collections import ChainMap, OrderedDict, UserDict, UserList, defaultdict, deque, namedtuple
from collections.abc import Collection, MutableMapping, MutableSet
class OwnList(list): pass
class OwnDict(dict): pass
class OwnSet(set): pass
class OwnTuple(tuple): pass
class OwnFrozenSet(frozenset): pass
class OwnBytes(bytes): pass
class OwnByteArray(bytearray): pass
class OwnDate(datetime): pass
class OwnJSObject(JSObject): pass
class OwnJSArray(JSArray): pass
class OwnJSMap(JSMap): pass
class OwnJSSet(JSSet): pass
class OwnErrorData(JSErrorData): pass
class OwnCollection(Collection):
    def __init__(self): self.items_ = []
    def append(self, x): self.items_.append(x)
    def __len__(self): return len(self.items_)
    def __iter__(self): return iter(self.items_)
    def __contains__(self, x): return x in self.items_
class OwnMapping(MutableMapping):
    def __init__(self): self.items_ = []
    def __len__(self): return len(self.items_)
    def __iter__(self): return iter([k for k, _ in self.items_])
    def __getitem__(self, k):
        for k_, v in self.items_:
            if k_ is k or k_ == k: return v
        raise KeyError(k)
    def __setitem__(self, k, v): self.items_.append((k, v))
    def __delitem__(self, k): raise KeyError(k)
class OwnMutableSet(MutableSet):
    def __init__(self): self.items_ = []
    def __len__(self): return len(self.items_)
    def __iter__(self): return iter(self.items_)
    def __contains__(self, x): return any(x is y for y in self.items_)
    def add(self, x): self.items_.append(x)
    def discard(self, x): pass
Pair = namedtuple("Pair", "x y")
"""
_env: dict = {}


def env() -> dict:
    if not _env:
        exec(PRELUDE + PRELUDE_TYPES, _env)
    return dict(_env)


def py_lit(x) -> str:
    k = x[0]
    if k == "r":
        return f"n{x[1]}"
    if k == "undef":
        return "JSUndefined"
    if k == "null":
        return "None"
    if k == "hole":
        return "JSHole"
    if k == "str":
        return repr(un16(x[1]))
    if k == "num":
        return repr(unfhex(x[1]))
    if k in ("int", "big") and abs(x[1]) >= 1 << 256:
        return hex(x[1])
    return repr(x[1])


def py_key(k) -> str:
    return repr(k[1]) if k[0] == "ki" else repr(un16(k[1]))


def py_source(g: Graph) -> str:
    """Python statements constructing the graph as v."""
    new, late, fill = [], [], []
    done = set()

    def refs(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "r":
                yield t[1]
            else:
                for i in t:
                    yield from refs(i)

    def immutable(i):
        """Emit the constructor of node i, whose children must exist first."""
        if i in done:
            return
        done.add(i)
        n, fl = g.nodes[i], g.flavours[i]
        for j in refs(n[1:]):
            if g.flavours[j] in IMMEDIATE:
                immutable(j)
        late.append(f"n{i} = {IMMEDIATE[fl](n)}")

    for i, (n, fl) in enumerate(zip(g.nodes, g.flavours)):
        if fl in IMMEDIATE:
            continue
        v = f"n{i}"
        if fl in ("JSObject", "OwnJSObject"):
            new.append(f"{v} = {fl}()")
            fill += [f"{v}[{py_key(k)}] = {py_lit(x)}" for k, x in n[1]]
        elif fl in ("JSArray", "OwnJSArray"):
            new.append(f"{v} = {fl}()")
            fill += [f"{v}[{a}] = {py_lit(x)}" for a, x in n[2]]
            if n[1] and (not n[2] or n[2][-1][0] != n[1] - 1):
                fill.append(f"{v}[{n[1] - 1}] = JSHole")
            fill += [f"{v}[{py_key(k)}] = {py_lit(x)}" for k, x in n[3]]
        elif fl in APPENDED:
            new.append(f"{v} = {APPENDED[fl]}")
            els = dict(n[2])
            fill += [f"{v}.append({py_lit(els.get(a, HOLE))})" for a in range(n[1])]
        elif fl in ASSIGNED:
            new.append(f"{v} = {ASSIGNED[fl]}")
            fill += [f"{v}[{py_lit(a)}] = {py_lit(b)}" for a, b in n[1]]
        elif fl in ADDED:
            new.append(f"{v} = {fl}()")
            fill += [f"{v}.add({py_lit(a)})" for a in n[1]]
        elif fl in ("JSErrorData", "JSError", "OwnErrorData"):
            args = []
            for name, f in zip(("message", "stack"), n[2:4]):
                if f != ABSENT:
                    args.append(f"{name}={py_lit(f)}")
            if n[1] != "Error":
                args.append(f"name={n[1]!r}")
            new.append(f"{v} = {fl}({', '.join(args)})")
            if n[4] != ABSENT:
                fill.append(f"{v}.cause = {py_lit(n[4])}")
        elif fl == "Exception":
            new.append(f"{v} = Exception('boom {i}')")
            if n[4] != ABSENT:
                fill.append(f"{v}.__cause__ = {py_lit(n[4])}")
        else:
            raise AssertionError(fl)
    for i, fl in enumerate(g.flavours):
        if fl in IMMEDIATE:
            immutable(i)
    return "\n".join([*new, *late, *fill, f"v = {py_lit(g.root)}"])


def _dt(us, tz="timezone.utc"):
    return f"(datetime(1970, 1, 1, tzinfo={tz}) + timedelta(microseconds={us}))"


def _array_items(n):
    els = dict(n[2])
    return "".join(py_lit(els.get(i, HOLE)) + ", " for i in range(n[1]))


def _bytes(n):
    return repr(bytes.fromhex(n[1]))


def _buffer(n):
    b = _bytes(n)
    if n[2]:
        return f"JSArrayBuffer({b}, max_byte_length={n[3]})"
    return f"JSArrayBuffer(bytearray({b}), copy_data=False)"


def _view(n):
    args = ""
    if n[3]:
        args += f", byte_offset={n[3]}"
    if n[4] is not None:
        args += f", byte_length={n[4]}"
    return f"create_view({py_lit(n[2])}, ArrayBufferViewTag.k{n[1]}{args})"


def _boxed(n):
    if n[1][0] == "big":
        return f"JSPrimitiveObject({py_lit(n[1])}, tag=SerializationTag.kBigIntObject)"
    return f"JSPrimitiveObject({py_lit(n[1])})"


# flavours filled by append(), by item assignment and by add(): flavour -> empty one
APPENDED = {
    "list": "[]", "deque": "deque()", "UserList": "UserList()", "OwnList": "OwnList()", "OwnCollection": "OwnCollection()",
}  # fmt: skip
ASSIGNED = {
    "JSMap": "JSMap()", "OwnJSMap": "OwnJSMap()", "dict": "{}", "OwnDict": "OwnDict()", "OrderedDict": "OrderedDict()",
    "defaultdict": "defaultdict(list)", "UserDict": "UserDict()", "ChainMap": "ChainMap()",
    "OwnMapping": "OwnMapping()",
}  # fmt: skip
ADDED = {"JSSet", "OwnJSSet", "set", "OwnSet", "OwnMutableSet"}

PY_FLAGS = {"i": "re.IGNORECASE", "m": "re.MULTILINE", "s": "re.DOTALL"}

IMMEDIATE = {
    "tuple": lambda n: f"({_array_items(n)})",
    "frozenset": lambda n: f"frozenset([{', '.join(py_lit(a) for a in n[1])}])",
    "OwnTuple": lambda n: f"OwnTuple(({_array_items(n)}))",
    "Pair": lambda n: f"Pair({_array_items(n)})",
    "values": lambda n: f"dict(enumerate([{_array_items(n)}])).values()",
    "OwnFrozenSet": lambda n: f"OwnFrozenSet([{', '.join(py_lit(a) for a in n[1])}])",
    "keys": lambda n: f"dict.fromkeys([{', '.join(py_lit(a) for a in n[1])}]).keys()",
    "mappingproxy": lambda n: "types.MappingProxyType({%s})" % ", ".join(f"{py_lit(a)}: {py_lit(b)}" for a, b in n[1]),
    "range": lambda n: f"range({n[2][0][1][1]}, {n[2][-1][1][1] + 1})",
    "array": lambda n: f"array.array('q', [{_array_items(n)}])",
    "OwnBytes": lambda n: f"OwnBytes({_bytes(n)})",
    "OwnByteArray": lambda n: f"OwnByteArray({_bytes(n)})",
    "OwnDate": lambda n: f"OwnDate.fromtimestamp({n[1] // 10**6}, timezone.utc) + timedelta(microseconds={n[1] % 10**6})",
    "datetime": lambda n: _dt(n[1]),
    "naive": lambda n: _dt(n[1], "None"),
    "JSRegExp": lambda n: f"JSRegExp({un16(n[1])!r}, JSRegExpFlag({flags_int(n[2])}))",
    "Pattern": lambda n: "re.compile(%r, %s)"
    % (un16(n[1]), "|".join(PY_FLAGS[c] for c in n[2] if c in PY_FLAGS) or "0"),
    "JSPrimitiveObject": _boxed,
    "bytes": _bytes,
    "bytearray": lambda n: f"bytearray({_bytes(n)})",
    "memoryview": lambda n: f"memoryview({_bytes(n)})",
    "JSArrayBuffer": _buffer,
    "roJSArrayBuffer": lambda n: f"JSArrayBuffer({_bytes(n)})",
    "View": _view,
    "roView": _view,
    "shared": lambda n: f"JSSharedArrayBuffer({n[1]})",
    "transfer": lambda n: f"JSArrayBufferTransfer({n[1]})",
    "sharedref": lambda n: f"V8SharedObjectReference({n[1]})",
}


def build(g: Graph):
    """Construct the Python value of a graph."""
    scope = env()
    exec(compile(py_source(g), "<graph>", "exec"), scope)
    return scope["v"]


# -- JavaScript source -----------------------------------------------------------


def js_lit(x) -> str:
    k = x[0]
    if k == "r":
        return f"n{x[1]}"
    if k == "undef":
        return "undefined"
    if k == "null":
        return "null"
    if k == "str":
        return '"' + "".join(f"\\u{x[1][i:i+4]}" for i in range(0, len(x[1]), 4)) + '"'
    if k in ("num", "int"):
        f = unfhex(x[1]) if k == "num" else float(x[1])
        if k == "int" and abs(x[1]) > MAX_SAFE:
            return f"{x[1]:#x}n" if x[1] >= 0 else f"(-{-x[1]:#x}n)"
        if f != f:
            return "NaN"
        if math.isinf(f):
            return "Infinity" if f > 0 else "-Infinity"
        return repr(f)
    if k == "big":
        return f"{x[1]:#x}n" if x[1] >= 0 else f"(-{-x[1]:#x}n)"
    if k == "bool":
        return "true" if x[1] else "false"
    raise AssertionError(x)


def js_key(k) -> str:
    return str(k[1]) if k[0] == "ki" else js_lit(("str", k[1]))


def js_source(g: Graph) -> str:
    """A JavaScript expression constructing the graph."""
    new, fill = [], []
    for i, n in enumerate(g.nodes):
        v = f"n{i}"
        k = n[0]
        if k == "Object":
            new.append(f"const {v} = {{}};")
            fill += [f"{v}[{js_key(a)}] = {js_lit(b)};" for a, b in n[1]]
        elif k == "Array":
            new.append(f"const {v} = [];")
            fill += [f"{v}[{a}] = {js_lit(b)};" for a, b in n[2]]
            fill.append(f"{v}.length = {n[1]};")
            fill += [f"{v}[{js_key(a)}] = {js_lit(b)};" for a, b in n[3]]
        elif k == "Map":
            new.append(f"const {v} = new Map();")
            fill += [f"{v}.set({js_lit(a)}, {js_lit(b)});" for a, b in n[1]]
        elif k == "Set":
            new.append(f"const {v} = new Set();")
            fill += [f"{v}.add({js_lit(a)});" for a in n[1]]
        elif k == "Error":
            m = "" if n[2] == ABSENT else js_lit(n[2])
            new.append(f"const {v} = new {n[1]}({m});")
            if n[3] != ABSENT:
                fill.append(f"{v}.stack = {js_lit(n[3])};")
            else:
                fill.append(f"delete {v}.stack;")
            if n[4] != ABSENT:
                fill.append(f"{v}.cause = {js_lit(n[4])};")
        elif k == "Date":
            new.append(f"const {v} = new Date({n[1] // 1000});")
        elif k == "RegExp":
            new.append(f"const {v} = new RegExp({js_lit(('str', n[1]))}, {n[2]!r});")
        elif k == "Boxed":
            new.append(f"const {v} = Object({js_lit(n[1])});")
        elif k == "Buffer":
            opt = f", {{maxByteLength: {n[3]}}}" if n[2] else ""
            new.append(f"const {v} = new ArrayBuffer({len(n[1]) // 2}{opt});")
            if n[1]:
                new.append(f"new Uint8Array({v}).set(Buffer.from('{n[1]}', 'hex'));")
        elif k == "View":
            args = f", {n[3]}"
            if n[4] is not None:
                args += f", {n[4] // VIEW_ITEMSIZE[n[1]]}"
            new.append(f"const {v} = new {n[1]}({js_lit(n[2])}{args});")
        else:
            raise AssertionError(k)
    return "(() => {" + " ".join([*new, *fill, f"return {js_lit(g.root)};"]) + "})()"
