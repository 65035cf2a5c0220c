"""The bounded alphabet of values that graphs are enumerated from."""

from __future__ import annotations

import itertools
import math

from .graph import (
    ABSENT,
    FALSE,
    HOLE,
    NULL,
    TRUE,
    UNDEF,
    F,
    Graph,
    I,
    R,
    S,
    VIEW_ITEMSIZE,
    key,
    unfhex,
)

INTS = sorted(
    {0, 1, -1, 2, 5, 63, 64, -63, -64, -65, 255, 256}
    | {s * 2**b + d for b in (7, 14, 21, 28, 30, 31, 32) for d in (-1, 0, 1) for s in (1, -1)}
    | {s * 2**53 + d for d in (-2, -1, 0, 1, 2) for s in (1, -1)}
    | {s * 2**b + d for b in (62, 63, 64, 128) for d in (-1, 0, 1) for s in (1, -1)}
    | {10**30, -(10**30), 2**1000},
    key=lambda n: (abs(n), n < 0),
)
FLOATS = [
    0.0, -0.0, 1.0, -1.0, 1.5, -1.5, math.nan, math.inf, -math.inf, 5e-324, -5e-324,
    1.7976931348623157e308, 2.0**31, 2.0**32, 2.0**53, -(2.0**53), 1e21, 1e-7, 0.1,
    2.2250738585072014e-308, math.pi,
]  # fmt: skip
STRINGS = [
    "", "a", "ab", "abc", "0", "1", "-0", "-1", "1.5", "NaN", "length", "\0", '"', "\x7f",
    "\x80", "é", "ÿ", "Ā", "λμ", "\uffff", "\ufeff", "😀", "a😀", "\ud800", "\udc00",
    "x\ud83d", "\udc00\ud800", "constructor", "4294967295", "4294967294",
]  # fmt: skip
LONG_STRINGS = [
    c * n for c in ("a", "é", "λ", "😀", "\ud800") for n in (31, 32, 63, 64, 126, 127, 128, 8191, 8192)
]

PRIMS = {
    "undef": UNDEF, "null": NULL, "true": TRUE, "false": FALSE,
    **{f"int:{n}" if abs(n) < 10**20 else f"int:~{n.bit_length()}b{'-' if n < 0 else ''}": I(n) for n in INTS},
    **{f"float:{f!r}": F(f) for f in FLOATS},
    **{f"str:{s!a}": S(s) for s in STRINGS},
}  # fmt: skip
# values that are easily confused with each other
CONFUSABLE = {
    "null": NULL, "undef": UNDEF, "true": TRUE, "false": FALSE, "0": I(0), "1": I(1),
    "0.0": F(0.0), "-0.0": F(-0.0), "1.0": F(1.0), "nan": F(math.nan), "''": S(""),
    "'1'": S("1"), "'0'": S("0"), "2**53": I(2**53), "float 2**53": F(2.0**53),
}  # fmt: skip

DAY_US = 86400 * 10**6

# object leaves: name -> function of a Graph returning a reference
OBJECTS = {
    "boxed:true": lambda g: g.boxed(TRUE),
    "boxed:false": lambda g: g.boxed(FALSE),
    "boxed:0.0": lambda g: g.boxed(F(0.0)),
    "boxed:-0.0": lambda g: g.boxed(F(-0.0)),
    "boxed:1.5": lambda g: g.boxed(F(1.5)),
    "boxed:nan": lambda g: g.boxed(F(math.nan)),
    "boxed:int1": lambda g: g.boxed(I(1)),
    "boxed:str": lambda g: g.boxed(S("ab")),
    "boxed:str empty": lambda g: g.boxed(S("")),
    "boxed:str two-byte": lambda g: g.boxed(S("λ")),
    "boxed:str surrogate": lambda g: g.boxed(S("\ud800")),
    "boxed:bigint 1": lambda g: g.boxed(("big", 1)),
    "boxed:bigint 0": lambda g: g.boxed(("big", 0)),
    "boxed:bigint -2**64": lambda g: g.boxed(("big", -(2**64))),
    "date:0": lambda g: g.date(0),
    "date:ms": lambda g: g.date(1001 * 1000),
    "date:-1ms": lambda g: g.date(-1000),
    "date:2024": lambda g: g.date(1709164800123000),
    "date:us": lambda g: g.date(1709164800123456),
    "date:naive": lambda g: g.date(1709164800123000, fl="naive"),
    "date:9999": lambda g: g.date(253402300799999000),
    "date:0001": lambda g: g.date(-62135596800000000 + 2 * DAY_US),
    "regexp": lambda g: g.regexp("a+"),
    "regexp:flags": lambda g: g.regexp("a+", "gi"),
    "regexp:all": lambda g: g.regexp("a.b", "dgimsuy"),
    "regexp:empty": lambda g: g.regexp("(?:)", "y"),
    "regexp:latin1": lambda g: g.regexp("é", "m"),
    "regexp:two-byte": lambda g: g.regexp("λ"),
    "pattern": lambda g: g.regexp("a+", "v", fl="Pattern"),
    "pattern:im": lambda g: g.regexp("b", "imv", fl="Pattern"),
    "buffer:empty": lambda g: g.buffer(b""),
    "buffer:3": lambda g: g.buffer(b"\x01\0V"),
    "buffer:ro": lambda g: g.buffer(b"V\xff^", fl="roJSArrayBuffer"),
    "buffer:127": lambda g: g.buffer(bytes(range(127))),
    "buffer:128": lambda g: g.buffer(bytes(range(128))),
    "bytes": lambda g: g.buffer(b"abc", fl="bytes"),
    "bytes:empty": lambda g: g.buffer(b"", fl="bytes"),
    "bytearray": lambda g: g.buffer(b"abc", fl="bytearray"),
    "memoryview": lambda g: g.buffer(b"xyz", fl="memoryview"),
    "view:u8": lambda g: g.view("Uint8Array", g.buffer(b"abcd"), 1, 2),
    "view:empty": lambda g: g.view("Uint8Array", g.buffer(b""), 0, 0),
    "view:i16": lambda g: g.view("Int16Array", g.buffer(b"abcd"), 2, 2),
    "view:f64": lambda g: g.view("Float64Array", g.buffer(b"abcdefgh" * 2), 8, 8),
    "view:u64": lambda g: g.view("BigUint64Array", g.buffer(b"abcdefgh"), 0, 8),
    "view:dv": lambda g: g.view("DataView", g.buffer(b"abcde"), 3, 1),
    "view:bytes": lambda g: g.view("Uint8ClampedArray", g.buffer(b"abc", fl="bytes"), 1, 1, fl="roView"),
    "view:bytearray": lambda g: g.view("Uint32Array", g.buffer(b"abcdefgh", fl="bytearray"), 4, 4),
    "error": lambda g: g.error(message="m"),
    "error:none": lambda g: g.error(),
    "error:type": lambda g: g.error("TypeError", "m", "stack"),
    "error:range λ": lambda g: g.error("RangeError", "λ", "st\ud800"),
    "error:syntax": lambda g: g.error("SyntaxError", "", ""),
    "error:reference": lambda g: g.error("ReferenceError", None, "s", NULL),
    "error:eval": lambda g: g.error("EvalError", None, None, I(1)),
    "error:js": lambda g: g.error("TypeError", "m", "s", S("c"), fl="JSError"),
    "obj:empty": lambda g: g.obj(),
    "obj": lambda g: g.obj(("b", I(1)), ("a", NULL), (2, TRUE), ("1", F(1.0))),
    "arr:empty": lambda g: g.arr(),
    "arr": lambda g: g.arr(I(1), HOLE, UNDEF, F(-0.0), props=(("x", I(1)), ("-1", I(2)))),
    "arr:trailing hole": lambda g: g.arr(I(1), HOLE),
    "arr:only holes": lambda g: g.arr(HOLE, HOLE, HOLE),
    "arr:sparse": lambda g: g.sparse(100, ((3, I(1)), (98, S("x")))),
    "arr:sparse props": lambda g: g.sparse(5000, ((4999, NULL),), (("z", I(1)), ("y", I(2)))),
    "list": lambda g: g.arr(I(1), I(2), fl="list"),
    "list:empty": lambda g: g.arr(fl="list"),
    "tuple": lambda g: g.arr(I(1), S("a"), fl="tuple"),
    "tuple:empty": lambda g: g.arr(fl="tuple"),
    "map": lambda g: g.map((I(1), S("a")), (S("1"), NULL), (TRUE, I(2))),
    "map:empty": lambda g: g.map(),
    "dict": lambda g: g.map((S("k"), I(1)), (I(2), F(2.5)), (NULL, UNDEF), fl="dict"),
    "dict:empty": lambda g: g.map(fl="dict"),
    "set": lambda g: g.jsset(I(1), fl="set"),
    "set:empty": lambda g: g.jsset(fl="set"),
    "frozenset": lambda g: g.jsset(S("q"), fl="frozenset"),
    "jsset": lambda g: g.jsset(I(3), S("3"), TRUE, NULL, F(math.nan)),
    "jsset:empty": lambda g: g.jsset(),
}
# need features or contexts that node lacks
HOST_ONLY = {
    "shared": lambda g: g.add("shared", ("SharedBuffer", 5)),
    "transfer": lambda g: g.add("transfer", ("Transfer", 300)),
    "view:shared": lambda g: g.view("Int16Array", g.add("shared", ("SharedBuffer", 7)), 2, 4),
    "view:transfer": lambda g: g.view("DataView", g.add("transfer", ("Transfer", 1)), 1, 2),
    "sharedref": lambda g: g.add("sharedref", ("SharedRef", 2)),
}
def own_object(g: Graph):
    x = g.obj(("b", I(1)), (2, TRUE))
    g.flavours[x[1]] = "OwnJSObject"
    return x


# other Python types, written as what they implement
PYTHON = {
    "deque": lambda g: g.arr(I(1), S("a"), fl="deque"),
    "deque:empty": lambda g: g.arr(fl="deque"),
    "UserList": lambda g: g.arr(NULL, fl="UserList"),
    "OwnList": lambda g: g.arr(I(1), I(2), fl="OwnList"),
    "OwnTuple": lambda g: g.arr(I(1), S("b"), fl="OwnTuple"),
    "namedtuple": lambda g: g.arr(I(5), TRUE, fl="Pair"),
    "Collection": lambda g: g.arr(I(1), S("c"), fl="OwnCollection"),
    "dict values": lambda g: g.arr(I(1), S("d"), fl="values"),
    "range": lambda g: g.arr(I(3), I(4), I(5), fl="range"),
    "array.array": lambda g: g.arr(I(-1), I(2**40), fl="array"),
    "OwnDict": lambda g: g.map((S("k"), I(1)), fl="OwnDict"),
    "OrderedDict": lambda g: g.map((S("z"), I(1)), (S("a"), I(2)), fl="OrderedDict"),
    "defaultdict": lambda g: g.map((S("k"), I(1)), fl="defaultdict"),
    "UserDict": lambda g: g.map((S("k"), I(1)), fl="UserDict"),
    "ChainMap": lambda g: g.map((S("k"), I(1)), fl="ChainMap"),
    "mappingproxy": lambda g: g.map((S("k"), I(1)), (I(2), NULL), fl="mappingproxy"),
    "Mapping": lambda g: g.map((S("k"), I(1)), (I(3), I(1)), fl="OwnMapping"),
    "OwnSet": lambda g: g.jsset(S("s"), fl="OwnSet"),
    "OwnFrozenSet": lambda g: g.jsset(S("t"), fl="OwnFrozenSet"),
    "dict keys": lambda g: g.jsset(S("k"), I(1), fl="keys"),
    "MutableSet": lambda g: g.jsset(S("k"), I(1), fl="OwnMutableSet"),
    "OwnBytes": lambda g: g.buffer(b"own", fl="OwnBytes"),
    "OwnByteArray": lambda g: g.buffer(b"owner", fl="OwnByteArray"),
    "OwnDate": lambda g: g.date(1709164800123000, fl="OwnDate"),
    "OwnJSObject": lambda g: own_object(g),
    "OwnJSArray": lambda g: g.arr(I(1), HOLE, NULL, props=(("x", I(1)),), fl="OwnJSArray"),
    "OwnJSMap": lambda g: g.map((I(1), S("a")), fl="OwnJSMap"),
    "OwnJSSet": lambda g: g.jsset(I(3), S("3"), fl="OwnJSSet"),
    "OwnErrorData": lambda g: g.error("RangeError", "m", "s", I(1), fl="OwnErrorData"),
}
RESIZABLE = {
    "rab": lambda g: g.buffer(b"abcd", max=16),
    "rab:empty": lambda g: g.buffer(b"", max=300),
    "rab:full": lambda g: g.buffer(b"abcd", max=4),
    "rabview:fixed": lambda g: g.view("Int16Array", g.buffer(b"abcdef", max=16), 2, 2),
    "rabview:tracking": lambda g: g.view("Int16Array", g.buffer(b"abcdefg", max=16), 2, tracking=True),
    "rabview:dv": lambda g: g.view("DataView", g.buffer(b"abcdefg", max=16), 1, tracking=True),
    "rabview:dv fixed": lambda g: g.view("DataView", g.buffer(b"abcdefg", max=16), 7, 0),
}

HASHABLE_OBJECTS = {
    n for n in OBJECTS
    if n.split(":")[0] in ("date", "regexp", "pattern", "bytes", "tuple", "frozenset")
}  # fmt: skip


def leaf(g: Graph, name: str):
    for t in (OBJECTS, HOST_ONLY, RESIZABLE, PYTHON):
        if name in t:
            return t[name](g)
    return PRIMS.get(name) or CONFUSABLE[name]


# positions: name -> function of (Graph, X) returning the root
POSITIONS = {
    "top": lambda g, x: x,
    "list[0]": lambda g, x: g.arr(x, fl="list"),
    "list[1]": lambda g, x: g.arr(S("pre"), x, S("post"), fl="list"),
    "tuple": lambda g, x: g.arr(x, I(7), fl="tuple"),
    "jsarray": lambda g, x: g.arr(HOLE, x, HOLE),
    "jsarray prop": lambda g, x: g.arr(I(0), props=(("p", x), ("q", I(1)))),
    "sparse": lambda g, x: g.sparse(1000, ((10, I(1)), (500, x), (999, NULL))),
    "sparse prop": lambda g, x: g.sparse(1000, ((10, I(1)),), (("p", x),)),
    "jsobject": lambda g, x: g.obj(("k", x), ("z", I(1))),
    "jsobject idx": lambda g, x: g.obj((7, x), (3, I(1))),
    "jsmap value": lambda g, x: g.map((S("k"), x), (S("l"), I(1))),
    "jsmap key": lambda g, x: g.map((x, S("v")), (S("#"), I(1))),
    "dict value": lambda g, x: g.map((S("k"), x), fl="dict"),
    "jsset": lambda g, x: g.jsset(S("#"), x),
    "error cause": lambda g, x: g.error("TypeError", "m", "s", x),
    "jserror cause": lambda g, x: g.error("Error", "m", None, x, fl="JSError"),
}
HASHED_POSITIONS = {
    "dict key": lambda g, x: g.map((x, I(1)), fl="dict"),
    "set": lambda g, x: g.jsset(x, fl="set"),
    "frozenset": lambda g, x: g.jsset(x, fl="frozenset"),
}


def place(position: str, name: str) -> Graph:
    g = Graph()
    g.root = (POSITIONS.get(position) or HASHED_POSITIONS[position])(g, leaf(g, name))
    return g


def single_leaf_cases(leaves=None):
    """Every leaf in every position: (key, Graph)."""
    for name in leaves or [*PRIMS, *OBJECTS]:
        for pos in POSITIONS:
            yield f"{pos}<{name}>", place(pos, name)
        if name in PRIMS or name in HASHABLE_OBJECTS:
            for pos in HASHED_POSITIONS:
                yield f"{pos}<{name}>", place(pos, name)


PAIRINGS = {
    "[a, b]": lambda g, a, b: g.arr(a, b, fl="list"),
    "JSArray[a, b]": lambda g, a, b: g.arr(a, b),
    "JSMap{a: b}": lambda g, a, b: g.map((a, b)),
    "JSObject{x: a, y: b}": lambda g, a, b: g.obj(("x", a), ("y", b)),
}


def pair_cases(names_a, names_b=None, pairings=PAIRINGS):
    for a in names_a:
        for b in names_b or names_a:
            for p, f in pairings.items():
                g = Graph()
                xa = leaf(g, a)
                g.root = f(g, xa, leaf(g, b))
                yield f"{p} a={a} b={b}", g


NEST = {
    "list": lambda g, x: g.arr(x, fl="list"),
    "tuple": lambda g, x: g.arr(x, fl="tuple"),
    "jsarray": lambda g, x: g.arr(HOLE, x),
    "sparse": lambda g, x: g.sparse(70, ((69, x),)),
    "arrprop": lambda g, x: g.arr(props=(("p", x),)),
    "jsobject": lambda g, x: g.obj(("k", x)),
    "map value": lambda g, x: g.map((S("k"), x)),
    "map key": lambda g, x: g.map((x, S("v"))),
    "dict": lambda g, x: g.map((S("k"), x), fl="dict"),
    "jsset": lambda g, x: g.jsset(x),
    "cause": lambda g, x: g.error("RangeError", "m", "s", x),
}


def nested_cases(depth, leaves):
    """Towers of containers: every sequence of `depth` nestings around a leaf."""
    for nest in itertools.product(NEST, repeat=depth):
        for name in leaves:
            g = Graph()
            x = leaf(g, name)
            for n in nest:
                x = NEST[n](g, x)
            # a sibling after the tower shows any misplaced end of it
            g.root = g.arr(x, S("end"), fl="list")
            yield f"{'<'.join(reversed(nest))}<{name}>", g


def size_cases(sizes):
    """Every counted construct at the given sizes."""
    for n in sizes:
        mk = {
            "list": lambda g: g.arr(*([I(1)] * n), fl="list"),
            "jsarray": lambda g: g.arr(*([NULL] * n)),
            "jsarray holes": lambda g: g.sparse(n, ()),
            "jsarray 1 el": lambda g: g.sparse(n, ((n // 2, TRUE),)) if n else g.arr(),
            "jsarray last": lambda g: g.sparse(n, ((n - 1, TRUE),)) if n else g.arr(),
            "jsarray half": lambda g: g.sparse(n, tuple((i, I(i)) for i in range(0, n, 2))),
            "jsarray quarter": lambda g: g.sparse(n, tuple((i, I(i)) for i in range(0, n, 4))),
            "jsarray fifth": lambda g: g.sparse(n, tuple((i, I(i)) for i in range(0, n, 5))),
            "jsarray props": lambda g: g.arr(props=tuple((f"p{i}", I(i)) for i in range(n))),
            "jsobject": lambda g: g.obj(*((f"p{i}", I(i)) for i in range(n))),
            "jsobject idx": lambda g: g.obj(*((i, I(i)) for i in range(n))),
            "dict": lambda g: g.map(*((I(i), NULL) for i in range(n)), fl="dict"),
            "jsmap": lambda g: g.map(*((S(f"{i}"), I(i)) for i in range(n))),
            "set": lambda g: g.jsset(*(I(i) for i in range(n)), fl="frozenset"),
            "jsset": lambda g: g.jsset(*(I(i) for i in range(n))),
            "bytes": lambda g: g.buffer(bytes(n), fl="bytes"),
            "buffer": lambda g: g.buffer(b"V" * n),
            "view": lambda g: g.view("Uint8Array", g.buffer(b"\0" * (n + 1)), 1, n),
            "view off": lambda g: g.view("DataView", g.buffer(b"\0" * (n + 1)), n, 1),
            "str": lambda g: S("a" * n),
            "str latin1": lambda g: S("é" * n),
            "str two-byte": lambda g: S("λ" * n),
            "str surrogate": lambda g: S("\ud800" * n),
            "regexp": lambda g: g.regexp("a" * n or "(?:)"),
            "message": lambda g: g.error("Error", "m" * n, "s" * n),
            "boxed str": lambda g: g.boxed(S("b" * n)),
            "key": lambda g: g.obj(("k" * n, I(1))),
            "bigint": lambda g: I(1 << (8 * n + 60)),
        }
        for k, f in mk.items():
            if n > 3000 and k in SLOW_SIZES:
                continue
            g = Graph()
            g.root = g.arr(f(g), S("end"), fl="list")
            yield f"{k} size {n}", g


SLOW_SIZES = {
    "jsobject", "jsobject idx", "dict", "jsmap", "jsset", "set", "jsarray props",
    "jsarray half", "jsarray quarter", "jsarray fifth",
}  # fmt: skip



# -- shapes: sharing and cycles -----------------------------------------------------

CONTAINERS = {
    "list": lambda g, i, ts: ("list", ("Array", len(ts), tuple(enumerate(ts)), ())),
    "jsarray": lambda g, i, ts: (
        "JSArray", ("Array", len(ts) + 1, tuple((n + 1, t) for n, t in enumerate(ts)), ())
    ),
    "sparse": lambda g, i, ts: (
        "JSArray", ("Array", 64, tuple((n * 31 + 1, t) for n, t in enumerate(ts)), ())
    ),
    "arrprops": lambda g, i, ts: (
        "JSArray", ("Array", 0, (), tuple((key(f"p{n}"), t) for n, t in enumerate(ts)))
    ),
    "jsobject": lambda g, i, ts: ("JSObject", ("Object", tuple((key("ab"[n]), t) for n, t in enumerate(ts)))),
    "objindex": lambda g, i, ts: ("JSObject", ("Object", tuple((key(n), t) for n, t in enumerate(ts)))),
    "mapvalue": lambda g, i, ts: ("JSMap", ("Map", tuple((I(n), t) for n, t in enumerate(ts)))),
    "mapkey": lambda g, i, ts: ("JSMap", ("Map", tuple((t, I(n)) for n, t in enumerate(uniq(ts))))),
    "dict": lambda g, i, ts: ("dict", ("Map", tuple((S("ab"[n]), t) for n, t in enumerate(ts)))),
    "jsset": lambda g, i, ts: ("JSSet", ("Set", tuple(uniq(ts)))),
    "cause": lambda g, i, ts: (
        "JSErrorData", ("Error", "TypeError", S(f"m{i}"), S("s"), ts[0] if ts else ABSENT)
    ),
    "jserror": lambda g, i, ts: (
        "JSError", ("Error", "Error", S(f"m{i}"), ABSENT, ts[0] if ts else ABSENT)
    ),
}  # fmt: skip
PY_CONTAINERS = {
    "deque": lambda g, i, ts: ("deque", ("Array", len(ts), tuple(enumerate(ts)), ())),
    "Collection": lambda g, i, ts: ("OwnCollection", ("Array", len(ts), tuple(enumerate(ts)), ())),
    "Mapping": lambda g, i, ts: ("OwnMapping", ("Map", tuple((I(n), t) for n, t in enumerate(ts)))),
    "MutableSet": lambda g, i, ts: ("OwnMutableSet", ("Set", tuple(uniq(ts)))),
}


def uniq(ts):
    return list(dict.fromkeys(ts))


def shape_graph(kinds, edges) -> Graph | None:
    """Containers with the given kinds and out-edges; None if not all reachable."""
    seen, todo = {0}, [0]
    while todo:
        for t in edges[todo.pop()]:
            if t not in seen:
                seen.add(t)
                todo.append(t)
    if len(seen) < len(kinds):
        return None
    g = Graph()
    for i, (k, ts) in enumerate(zip(kinds, edges)):
        if len(ts) > 1 and k in ("cause", "jserror"):
            return None
        fl, node = (CONTAINERS.get(k) or PY_CONTAINERS[k])(g, i, [R(t) for t in ts])
        g.add(fl, node)
    g.root = R(0)
    return g


def shape_cases(n, kinds, max_out=2):
    outs = [t for k in range(max_out + 1) for t in itertools.product(range(n), repeat=k)]
    for ks in itertools.product(kinds, repeat=n):
        for edges in itertools.product(outs, repeat=n):
            g = shape_graph(ks, edges)
            if g is not None:
                yield f"{','.join(ks)} {edges}".replace(" ", ""), g


def sequence_case(names) -> Graph:
    """[o1, ..., on, o1, ..., on] and the objects inside them again."""
    g = Graph()
    xs = [leaf(g, n) for n in names]
    inner = [R(i) for i in range(len(g.nodes))]
    g.root = g.arr(*xs, *inner, fl="list")
    return g


def share_positions_case(name, p1, p2, first=None) -> Graph:
    """One object in two positions, possibly with another object before."""
    g = Graph()
    head = [leaf(g, first)] if first else []
    x = leaf(g, name)
    a = POSITIONS[p1](g, x)
    b = POSITIONS[p2](g, x)
    g.root = g.arr(*head, a, b, x, *head, fl="list")
    return g


# -- the catalogue: the variants of every kind of object ------------------------------

VIEW_NAMES = [
    "Int8Array", "Uint8Array", "Uint8ClampedArray", "Int16Array", "Uint16Array", "Int32Array", "Uint32Array",
    "Float32Array", "Float64Array", "BigInt64Array", "BigUint64Array", "DataView",
]  # fmt: skip
ERROR_NAMES = ["Error", "EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError", "URIError"]
PATTERN_SOURCES = [
    "", "a", "(a)b", "(a)(b)(c)", "(?:a)", "(?=a)b", "(?!a)b", "(?<=a)b", "a|b", "[a-z]", "[^a]", "a*?", "a{2,3}", "^a$", r"\d\w\s",
    r"\bx\B", "(a)\\1", "é", "λ", "😀", ".", "/", r"\/", "\n", "a b", '"', "'", r"\\",
]  # fmt: skip


def _views(resizable):
    for name in VIEW_NAMES:
        w = VIEW_ITEMSIZE[name]
        for fl in ("JSArrayBuffer",) if resizable else ("JSArrayBuffer", "roJSArrayBuffer", "bytes", "bytearray", "memoryview"):
            vfl = "roView" if fl in ("bytes", "memoryview", "roJSArrayBuffer") else "View"
            for size in (0, w, 2 * w, 3 * w + w // 2, 130 * w):
                mx = {"max": size + 20} if resizable else {"fl": fl}
                data = bytes((i * 37 + 1) % 256 for i in range(size))
                if name in ("Float32Array", "Float64Array"):
                    data = bytes(b & 0x3F for b in data)  # no NaN
                for off in sorted({o for o in (0, w, 2 * w, 129 * w, size // w * w) if o <= size}):
                    for length in sorted({0, w, 2 * w, 128 * w, (size - off) // w * w}):
                        if off + length <= size:
                            yield (
                                f"{name} {fl}[{size}]{'r' if resizable else ''} {off}+{length}",
                                lambda g, name=name, data=data, mx=mx, off=off, length=length, vfl=vfl: g.view(name, g.buffer(data, **mx), off, length, fl=vfl),
                            )
                    if resizable and off <= size:
                        yield (
                            f"{name} [{size}]r {off}+tracking",
                            lambda g, name=name, data=data, mx=mx, off=off: g.view(name, g.buffer(data, **mx), off, tracking=True),
                        )


def _errors():
    causes = {"absent": None, "undefined": UNDEF, "null": NULL, "int": I(1), "str": S("c"), "obj": "obj", "error": "error"}
    for name in ERROR_NAMES:
        for message in (None, "", "m", "λ"):
            for stack in (None, "", "s", "st\ud800"):
                for ck in causes:
                    for fl in ("JSErrorData", "JSError"):
                        def make(g, name=name, message=message, stack=stack, ck=ck, fl=fl):
                            c = causes[ck]
                            c = ABSENT if c is None else g.obj(("e", I(1))) if c == "obj" else g.error("RangeError", "in", None, I(2)) if c == "error" else c
                            return g.error(name, message, stack, c, fl=fl)

                        yield f"{fl} {name} {message!a} {stack!a} cause {ck}", make


def _regexps():
    for n in range(8):
        for flags in itertools.combinations("dgimsuy", n):
            for src in ("a", "(?:)", "λ"):
                yield f"/{src}/{''.join(flags)}", lambda g, src=src, flags=flags: g.regexp(src, "".join(flags))
    for src in PATTERN_SOURCES:
        if src not in ("", "/", "\n"):  # which V8 writes otherwise: C21 has them
            yield f"JSRegExp {src!a}", lambda g, src=src: g.regexp(src)
        for flags in ("v", "iv", "mv", "sv", "imsv"):
            if src in ("", "/", "\n"):
                continue
            yield f"Pattern {src!a} {flags}", lambda g, src=src, flags=flags: g.regexp(src, flags, fl="Pattern")


def _plain():
    for name, x in PRIMS.items():
        if name not in ("null", "undef") and not (x[0] == "int" and abs(x[1]) > MAX_INT_BOXED):
            yield f"boxed {name}", lambda g, x=x: g.boxed(x)
    for us in [s * u * m for s in (1, -1) for u in (1000, 999000, 1001, 86400 * 10**6) for m in (1, 7, 365)]:
        for fl in ("datetime", "naive"):
            yield f"{fl} {us}", lambda g, us=us, fl=fl: g.date(us, fl=fl)
    for n in (*range(20), 63, 64, 127, 128, 129, 255, 256):
        for fl in ("JSArrayBuffer", "roJSArrayBuffer", "bytes", "bytearray", "memoryview"):
            yield f"{fl}[{n}]", lambda g, n=n, fl=fl: g.buffer(bytes((i * 73 + 94) % 256 for i in range(n)), fl=fl)
    items = (HOLE, UNDEF, NULL, TRUE, I(1), F(0.5), S("s"))
    for n in range(3):
        for els in itertools.product(items, repeat=n):
            for fl in ("JSArray", "list", "tuple"):
                if fl == "JSArray" or HOLE not in els:
                    for props in ((), (("p", I(1)),)) if fl == "JSArray" else ((),):
                        yield f"{fl}{list(els)} {props}", lambda g, els=els, fl=fl, props=props: g.arr(*els, props=props, fl=fl)
    names = ("a", "0", "", "-1", "λ", 5, 4294967294, 4294967295, "length", "__proto__")
    for n in range(3):
        for ks in itertools.permutations(names, n):
            yield f"JSObject{ks}", lambda g, ks=ks: g.obj(*((k, I(i)) for i, k in enumerate(ks)))
            if "length" not in ks:
                yield f"JSArray[] {ks}", lambda g, ks=ks: g.arr(props=tuple((k, I(i)) for i, k in enumerate(ks) if isinstance(k, str) and k != "0"))
    for n in range(3):
        for ks in itertools.permutations(list(CONFUSABLE.values()), n):
            yield f"JSMap {ks}", lambda g, ks=ks: g.map(*((k, I(i)) for i, k in enumerate(ks))) if distinct(ks) else g.map()
            yield f"JSSet {ks}", lambda g, ks=ks: g.jsset(*ks) if distinct(ks) else g.jsset()
    for length in (1, 2, 30, 31, 32, 33, 127, 128, 129, 300):
        for at in sorted({0, 1, length // 2, length - 1} - ({1} if length == 1 else set())):
            for props in ((), (("p", I(1)),), tuple((f"p{i}", NULL) for i in range(130))):
                yield f"sparse {length} [{at}] {len(props)} props", lambda g, length=length, at=at, props=props: g.sparse(length, ((at, TRUE),), props)


MAX_INT_BOXED = 2**53 - 1


def distinct(xs):
    """Whether they are different keys (numbers that compare equal are one)."""
    def norm(x):
        if x[0] == "num":
            f = unfhex(x[1])
            return ("n", "nan" if f != f else f)
        return ("n", x[1]) if x[0] == "int" else x

    return len({norm(x) for x in xs}) == len(xs)


def catalogue(resizable=False):
    """(name, maker) of the variants of every object kind."""
    if resizable:
        yield from _views(True)
        return
    yield from _views(False)
    yield from _errors()
    yield from _regexps()
    yield from _plain()


def catalogue_cases(part=0, parts=1, resizable=False):
    """Each variant, where it is repeated and where it follows other objects."""
    for name, make in itertools.islice(catalogue(resizable), part, None, parts):
        g = Graph()
        x = make(g)
        g.root = x
        yield f"only {name}", g
        g = Graph()
        before = g.obj(("b", I(1)))
        x = make(g)
        inner = [R(i) for i in range(1, len(g.nodes))]
        m = g.map((x, S("v")))
        g.root = g.arr(before, x, m, g.obj(("k", x)), *inner, before, S("end"), fl="list")
        yield f"repeated {name}", g


def two_counts_cases(counts):
    """Arrays and objects with every pair of element and name counts."""
    for n, m in itertools.product(counts, repeat=2):
        names = tuple((f"p{i}", I(i)) for i in range(m))
        mk = {
            "dense": lambda g: g.arr(*([I(1)] * n), props=names),
            "sparse": lambda g: g.sparse(10 * n + 200, tuple((i * 10, I(i)) for i in range(n)), names),
            "object": lambda g: g.obj(*((i, I(i)) for i in range(n)), *names),
        }
        for k, f in mk.items():
            g = Graph()
            g.root = g.arr(f(g), S("end"), fl="list")
            yield f"{k} {n} elements {m} names", g
