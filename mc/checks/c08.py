"""C08: feature and version settings gate exactly what is written."""

from __future__ import annotations

import itertools

from packaging.version import Version

from v8serialize import (
    Encoder,
    IllegalCyclicReferenceV8SerializeError,
    SerializationFeature,
    V8SerializeError,
    default_encode_steps,
    dumps,
    loads,
)
from v8serialize.constants import ArrayBufferViewTag, JSRegExpFlag, SymbolicVersion
from v8serialize.encode import DefaultEncodeContext, WritableTagStream
from v8serialize.extensions import serialize_js_array_buffer_views_as_nodejs_host_object
from v8serialize.jstypes import JSArrayBuffer, JSErrorData, JSRegExp, create_view

from .. import gen, wire
from ..core import CaseTimeout, chunks, exc_summary, time_limit
from ..graph import PRELUDE, Graph, build, describe_py, match, py_source, s16

F = SerializationFeature
FEATURES = {
    "sets": F.RegExpUnicodeSets, "rab": F.ResizableArrayBuffers, "circ": F.CircularErrorCause, "f16": F.Float16Array,
}  # fmt: skip
FIRST = {"sets": (10, 7, 123), "rab": (11, 0, 193), "circ": (12, 1, 109)}
BASE = (10, 0, 29)
SUBSETS = [frozenset(s) for n in range(5) for s in itertools.combinations(FEATURES, n)]


def flags(names) -> SerializationFeature:
    f = F.MaxCompatibility
    for n in names:
        f |= FEATURES[n]
    return f


F16 = {
    "f16": lambda g: g.view("Float16Array", g.buffer(b"abcdef"), 2, 4),
    "f16:empty": lambda g: g.view("Float16Array", g.buffer(b""), 0, 0),
    "f16:rab": lambda g: g.view("Float16Array", g.buffer(b"abcdefg", max=9), 2, tracking=True),
    "f16:bytearray": lambda g: g.view("Float16Array", g.buffer(b"abcd", fl="bytearray"), 0, 4),
}
SETS = {
    "v": lambda g: g.regexp("a", "v"),
    "gv": lambda g: g.regexp("[a--b]", "gimsvy"),
    "dlv": lambda g: g.regexp("a", "dlv"),
}
CIRC = {
    "self": lambda g: _late(g, lambda g, e: e),
    "list": lambda g: _late(g, lambda g, e: g.arr(e, fl="list")),
    "map": lambda g: _late(g, lambda g, e: g.map((gen.S("k"), e))),
    "obj": lambda g: _late(g, lambda g, e: g.obj(("k", e))),
    "cause": lambda g: _late(g, lambda g, e: g.error("RangeError", "n", None, e)),
    "jserror": lambda g: _late(g, lambda g, e: g.error("RangeError", "n", None, e, fl="JSError")),
    # not in its own cause: no feature needed
    "shared cause": lambda g: _twice(g),
    "outer list": lambda g: _outer(g),
}


def _late(g, f):
    e = g.error("TypeError", "m", "s", gen.NULL)
    n = g.nodes[e[1]]
    g.set(e, n[:4] + (f(g, e),))
    return e


def _twice(g):
    c = g.error("TypeError", "c")
    return g.arr(g.error("Error", "a", None, c), g.error("Error", "b", None, c), c, fl="list")


def _outer(g):
    a = g.arr(fl="list")
    e = g.error("Error", "m", "s", a)
    g.set(a, ("Array", 1, ((0, e),), ()))
    return a


TABLES = {"": {}, "f16 ": F16, "sets ": SETS, "circ ": CIRC}


def special(g, name):
    for p, t in TABLES.items():
        if p and name.startswith(p):
            return t[name[len(p) :]](g)
    return gen.leaf(g, name)


def needs(g: Graph):
    """The features the written form of a graph can depend on."""
    out = set()
    for n in g.nodes:
        if n[0] == "Buffer" and n[2]:
            out.add("rab")
        if n[0] == "View" and n[1] == "Float16Array":
            out.add("f16")
        if n[0] == "RegExp" and "v" in n[2]:
            out.add("sets")
    if g.error_in_own_cause():
        out.add("circ")
    return out


def uses(g: Graph):
    """The features that a parsed stream uses."""
    return needs(g)


def plain(g: Graph) -> Graph:
    nodes = []
    for n in g.nodes:
        if n[0] == "Buffer":
            n = n[:2] + (False, None)
        if n[0] == "View":
            n = n[:4] + (n[5], n[5])
        nodes.append(n)
    return Graph(g.root, nodes, g.flavours)


def one(r, key, g: Graph, how, fs, encode, cache):
    """Encode a graph with the features fs enabled; check what's written."""
    r.states += 1
    need = needs(g)
    code = f"{PRELUDE}from v8serialize import *\n{py_source(g)}\n# encoded with {how}\nprint(dumps(v, features=SerializationFeature({flags(fs).value})).hex())"
    try:
        with time_limit(20):
            data = bytes(encode(build(g)))
    except CaseTimeout:
        r.violation(key, "did not terminate", code)
        return
    except V8SerializeError as e:
        r.transitions += 1
        missing = need - fs - {"rab", "sets"}
        if not missing:
            r.violation(key, f"refused although it needs no feature that is off: {exc_summary(e)}", code)
        elif missing == {"circ"} and not isinstance(e, IllegalCyclicReferenceV8SerializeError):
            r.violation(key, f"expected IllegalCyclicReference..., got {exc_summary(e)}", code)
        r.outcomes[f"refused {sorted(missing)}"] += 1
        return
    except Exception as e:
        r.violation(key, f"raised {exc_summary(e)}", code)
        return
    r.transitions += 1
    if need - fs - {"rab", "sets"}:
        r.violation(key, f"written without {sorted(need - fs)}: {data.hex()[:300]}", code)
        return
    try:
        got, end, _ = wire.parse(data)
    except wire.Free as e:
        if "date" not in str(e):
            r.violation(key, f"the stream uses what the format leaves open: {e} {data.hex()[:300]}", code)
        return
    except Exception as e:
        r.violation(key, f"not a well-formed stream: {type(e).__name__} {e} {data.hex()[:300]}", code)
        return
    if end != len(data):
        r.violation(key, f"bytes after the value {data.hex()[:300]}", code)
        return
    used = uses(got) - fs
    if "sets" in used:
        r.violation(f"unicodesets:{key}".replace(" ", "_"), f"the v flag is written without the feature: {data.hex()[:300]}", code)
        used -= {"sets"}
    if used:
        r.violation(key, f"the stream uses {sorted(used)}, which is not enabled: {data.hex()[:300]}", code)
        return
    want = g if "rab" in fs else plain(g)
    m = match(want.to_js(), got.to_js(py=False), g.frozen())
    if m:
        r.violation(key, f"wrote a different value {m}: {data.hex()[:300]}", code)
        return
    try:
        m = match(want.to_py(), describe_py(loads(data)), g.frozen())
    except Exception as e:
        m = f"raised {exc_summary(e)}"
    if m:
        r.violation(key, f"reads back differently: {m}", code)
        return
    # features that the value doesn't need change nothing
    same = frozenset(fs & need)
    before = cache.setdefault(same, (data, fs))
    if before[0] != data:
        r.violation(
            key, f"written differently with {sorted(fs)} than with {sorted(before[1])}: {data.hex()[:200]} {before[0].hex()[:200]}", code
        )
        return
    r.traces += 1
    r.outcomes[f"written {sorted(fs & need)}"] += 1


WRAPS = ["list[1]", "jsmap value", "jsobject", "error cause", "sparse prop"]


def subsets_task(r, names, wraps):
    for n in names:
        for w in wraps:
            g = Graph()
            g.root = gen.POSITIONS[w](g, special(g, n))
            cache = {}
            for fs in SUBSETS:
                f = flags(fs)
                key = f"{n} in {w} with {'+'.join(sorted(fs)) or 'none'}"
                one(r, key, g, f"features={f!r}", fs, lambda v: dumps(v, features=f), cache)
        r.sample(f"{n}", 2)


def pairs_task(r, firsts, seconds):
    for a, b in itertools.product(firsts, seconds):
        g = Graph()
        x = special(g, a)
        g.root = g.arr(x, special(g, b), x, fl="list")
        cache = {}
        for fs in SUBSETS:
            f = flags(fs)
            key = f"[{a}, {b}] with {'+'.join(sorted(fs)) or 'none'}"
            one(r, key, g, f"features={f!r}", fs, lambda v: dumps(v, features=f), cache)


def views_task(r):
    """Every view type, length tracking or not, over every buffer type."""
    views = list(gen.VIEW_ITEMSIZE) if hasattr(gen, "VIEW_ITEMSIZE") else list(wire.VIEW_ITEMSIZE)
    for name, tracking, buf in itertools.product(views, (False, True), ("plain", "rab", "bytes", "bytearray")):
        if tracking and buf != "rab":
            continue
        g = Graph()
        data = bytes(range(24))
        b = {
            "plain": lambda: g.buffer(data), "rab": lambda: g.buffer(data, max=32),
            "bytes": lambda: g.buffer(data, fl="bytes"), "bytearray": lambda: g.buffer(data, fl="bytearray"),
        }[buf]()  # fmt: skip
        v = g.view(name, b, 8, None if tracking else 8, tracking=tracking)
        g.root = g.arr(v, b, v, gen.S("end"), fl="list")
        cache = {}
        for fs in SUBSETS:
            f = flags(fs)
            one(r, f"view {name} {tracking} {buf} {sorted(fs)}", g, f"features={f!r}", fs, lambda v: dumps(v, features=f), cache)
        # Node's encoding of views: never a resizable buffer, no Float16Array
        for fs in SUBSETS:
            f = flags(fs)
            h = Graph()
            part = h.buffer(data[8:16] if not tracking else data[8:])
            w = h.view(name, part, 0, None)
            h.root = h.arr(w, w, gen.S("end"), fl="list")
            src = build(g)
            key = f"node view {name} {tracking} {buf} {sorted(fs)}"
            r.states += 1
            try:
                out = dumps(
                    [src[0], src[0], "end"], features=f,
                    encode_steps=[serialize_js_array_buffer_views_as_nodejs_host_object, *default_encode_steps][::1],
                )
            except V8SerializeError as e:
                if name != "Float16Array" or "f16" in fs:
                    r.violation(key, f"refused: {exc_summary(e)}", "")
                continue
            except Exception as e:
                r.violation(key, f"raised {exc_summary(e)}", "")
                continue
            if name == "Float16Array" and "f16" not in fs:
                r.violation(key, f"written without the feature: {out.hex()}", "")
            r.transitions += 1


def shapes_task(r, n, kinds, part, parts):
    """Cyclic shapes with errors; each must be refused exactly when an error is in its cause."""
    for k, g in itertools.islice(gen.shape_cases(n, kinds), part, None, parts):
        cache = {}
        for fs in (frozenset(), frozenset({"circ"}), frozenset({"sets", "rab", "f16"}), frozenset(FEATURES)):
            f = flags(fs)
            one(r, f"shape {k} {sorted(fs)}", g, f"features={f!r}", fs, lambda v: dumps(v, features=f), cache)


# -- versions -----------------------------------------------------------------------


def version_tuples():
    out = set()
    for base in [BASE, *FIRST.values()]:
        for d in itertools.product((-1, 0, 1), repeat=3):
            out.add(tuple(b + x for b, x in zip(base, d)))
        out.add((*base, 0))
        out.add((*base, 1))
        out.add(base[:2])
        out.add(base[:1])
        out.add((base[0], base[1], base[2] * 10))
        out.add((base[0], base[1] * 10 + 1, 0))
    out |= {(0,), (9, 9, 999), (10, 0, 28, 999), (11,), (12, 4, 254, 21), (13, 0, 245, 16), (99, 99, 999, 99), (100, 0), (9, 100, 1000)}
    return sorted(t for t in out if all(n >= 0 for n in t))


SUFFIXES = ["", "-node.21", "-rusty", "+local.1", "-electron"]


def enabled(t):
    t = (*t, 0, 0, 0, 0)[:4]
    if t < (*BASE, 0):
        return None
    return frozenset(n for n, f in FIRST.items() if t >= (*f, 0))


PROBES = {
    "v": SETS["v"], "rab": gen.RESIZABLE["rab"], "view": gen.RESIZABLE["rabview:tracking"], "self": CIRC["self"], "f16": F16["f16"],
    "f16 rab": F16["f16:rab"], "all": lambda g: g.arr(
        g.regexp("b", "v"), gen.RESIZABLE["rabview:fixed"](g), F16["f16:rab"](g), CIRC["list"](g)),
}  # fmt: skip


def versions_task(r, tuples):
    for t in tuples:
        for suffix in SUFFIXES:
            s = ".".join(map(str, t)) + suffix
            forms = [s]
            if not suffix.startswith("-"):
                forms.append(Version(s))
            for v in forms:
                check_version(r, f"{type(v).__name__} {s}", v, enabled(t))


def check_version(r, key, v, want):
    code = f"from v8serialize import *\nprint(Encoder(v8_version={v!r}).features)" if isinstance(v, str) else ""
    r.states += 1
    for make in (
        lambda: F.supported_by(v8_version=v), lambda: Encoder(v8_version=v).features,
        lambda: Encoder(v8_version=v, features=F.MaxCompatibility).features,
    ):  # fmt: skip
        try:
            got = make()
        except V8SerializeError as e:
            r.violation(key, f"raised {exc_summary(e)}", code)
            return
        except LookupError as e:
            r.transitions += 1
            if want is not None:
                r.violation(key, f"a supported version was rejected: {exc_summary(e)}", code)
                return
            continue
        except Exception as e:
            r.violation(key, f"raised {exc_summary(e)}", code)
            return
        r.transitions += 1
        if want is None:
            r.violation(key, f"a version before the baseline was accepted as {got!r}", code)
            return
        if got != flags(want) or {n for n, f in FEATURES.items() if f in got} != set(want):
            r.violation(key, f"enables {got!r}, not {sorted(want)}", code)
            return
    if want is None:
        for extra in (None, F.ResizableArrayBuffers, flags(FEATURES)):
            for api in (lambda: dumps(1, v8_version=v, features=extra), lambda: Encoder(v8_version=v, features=extra)):
                try:
                    api()
                except LookupError:
                    r.outcomes["rejected"] += 1
                except Exception as e:
                    r.violation(key, f"raised {exc_summary(e)}", code)
                else:
                    r.violation(key, "a version before the baseline was accepted", code)
        return
    for n, f in PROBES.items():
        g = Graph()
        g.root = g.arr(f(g), fl="list")
        cache = {}
        one(r, f"version {key} {n}", g, f"v8_version={v!r}", want, lambda x: dumps(x, v8_version=v), cache)
        for extra in SUBSETS:
            one(
                r, f"version {key} + {'+'.join(sorted(extra))} {n}", g, f"v8_version={v!r} and features={sorted(extra)}",
                want | extra, lambda x: Encoder(v8_version=v, features=flags(extra)).encode(x), cache,
            )  # fmt: skip
    # and what the version says of itself
    first = Encoder(v8_version=v).first_v8_version
    newest = max([BASE, *(FIRST[n] for n in want if n in FIRST)])
    if "f16" in want:
        if first != SymbolicVersion.Unreleased:
            r.violation(f"first {key}", f"first_v8_version is {first}", code)
    elif first != Version(".".join(map(str, newest))):
        r.violation(f"first {key}", f"first_v8_version is {first}", code)


def symbols_task(r):
    check_version(r, "Unreleased", SymbolicVersion.Unreleased, frozenset(FEATURES))
    for bad in ("", "abc", "12.x", "-1", "12..1", "v 12", "12.1.109 x", "12.9+a-é", "12.9-é", "12.9+a+b", "12.9+-", "x12.9", "12.9-!"):
        r.states += 1
        for api in (lambda: dumps(1, v8_version=bad), lambda: Encoder(v8_version=bad), lambda: F.supported_by(v8_version=bad)):
            try:
                api()
            except ValueError as e:
                r.outcomes[f"invalid version: {type(e).__name__}"] += 1
            except Exception as e:
                r.violation(f"version {bad!r}", f"an invalid version is reported by {exc_summary(e)}", "")
            else:
                r.violation(f"version {bad!r}", "an invalid version was accepted", "")
    for fs in SUBSETS:
        r.states += 1
        f = flags(fs)
        e = Encoder(features=f)
        first = e.first_v8_version
        want = max([BASE, *(FIRST[n] for n in fs if n in FIRST)])
        ok = first == SymbolicVersion.Unreleased if "f16" in fs else first == Version(".".join(map(str, want)))
        if e.features != f or not ok:
            r.violation(f"first of {sorted(fs)}", f"features {e.features!r}, first_v8_version {first}", "")
        if "f16" not in fs and not (F.supported_by(v8_version=first) & f == f):
            r.violation(f"supported by first of {sorted(fs)}", "its first version doesn't support its features", "")
    for n, f in FEATURES.items():
        if F.for_name(f.name) != f:
            r.violation(f"for_name {n}", "wrong feature", "")
    if Encoder().features != F.MaxCompatibility or Encoder(features=None, v8_version=None).features != F.MaxCompatibility:
        r.violation("default", "features are enabled by default", "")


# -- the stream API ---------------------------------------------------------------------


def stream_task(r):
    """The gates are in the stream, whatever step writes to it."""
    for fs in SUBSETS:
        r.states += 1
        f = flags(fs)
        key = f"stream {sorted(fs)}"

        def stream():
            s = WritableTagStream(features=f)
            s.write_header()
            return s, DefaultEncodeContext(stream=s)

        s, _ = stream()
        s.write_js_array_buffer(JSArrayBuffer(b"abc", max_byte_length=9))
        want = b"\xff\x0f~\x03\x09abc" if "rab" in fs else b"\xff\x0fB\x03abc"
        if s.data != want:
            r.violation(key, f"resizable buffer written as {s.data.hex()}", "")
        s, _ = stream()
        b = JSArrayBuffer(b"abcd", max_byte_length=9)
        s.write_js_array_buffer(b)
        s.write_js_array_buffer_view(create_view(b, ArrayBufferViewTag.kUint8Array, byte_offset=1))
        want = b"\xff\x0f~\x04\x09abcdVB\x01\x00\x03" if "rab" in fs else b"\xff\x0fB\x04abcdVB\x01\x03\x00"
        got = bytes(s.data)
        # (the length of a tracking view is ignored when the flag is set)
        if got != want and not ("rab" in fs and got == want[:-2] + b"\x03\x03"):
            r.violation(key, f"tracking view written as {got.hex()}", "")
        s, _ = stream()
        s.write_js_array_buffer(JSArrayBuffer(b"abcd"))
        before = bytes(s.data)
        try:
            s.write_js_array_buffer_view(create_view(JSArrayBuffer(b"abcd"), ArrayBufferViewTag.kFloat16Array))
            if "f16" not in fs:
                r.violation(key, f"Float16Array written: {s.data.hex()}", "")
        except V8SerializeError as e:
            if "f16" in fs:
                r.violation(key, f"Float16Array refused {e}", "")
            if s.data != before:
                r.violation(key, "refusing Float16Array wrote something", "")
        s, ctx = stream()
        e = JSErrorData(message="m")
        e.cause = e
        try:
            s.write_js_error(e, ctx, identity=e)
            if "circ" not in fs:
                r.violation(key, f"circular cause written: {s.data.hex()}", "")
        except V8SerializeError as err:
            if "circ" in fs:
                r.violation(key, f"circular cause refused {err}", "")
        s, _ = stream()
        s.write_js_regexp(JSRegExp("a", JSRegExpFlag.Global))
        if wire.parse(bytes(s.data))[0].nodes != [("RegExp", s16("a"), "g")]:
            r.violation(key, f"regexp written as {s.data.hex()}", "")
        r.transitions += 5


def main(check):
    t = check.thorough
    specials = [p + n for p, tbl in TABLES.items() for n in tbl] + [*gen.RESIZABLE]
    plain_leaves = [*gen.OBJECTS, *gen.HOST_ONLY, *gen.CONFUSABLE]
    check.phase("subsets", [(subsets_task, (c, WRAPS)) for c in chunks(specials, 32)])
    check.phase("subsets, values without features", [(subsets_task, (c, WRAPS if t else WRAPS[:1])) for c in chunks(plain_leaves, 32)])
    check.phase(
        "subsets, pairs",
        [(pairs_task, ([a], [*specials, *plain_leaves] if t else specials)) for a in specials],
    )
    check.phase("views", [(views_task, ())])
    kinds = ["cause", "jserror", "list", "mapkey", "jsobject", "jsset", "sparse"]
    check.phase(
        "cyclic causes",
        [(shapes_task, (2, kinds, p, 16)) for p in range(16)]
        + [(shapes_task, (3, ["cause", "list", "jserror"] if t else ["cause", "list"], p, 32)) for p in range(32)],
    )
    check.phase("versions", [(versions_task, (c,)) for c in chunks(version_tuples(), 32)] + [(symbols_task, ())])
    check.phase("streams", [(stream_task, ())])
    check.bounds = {"feature subsets": 16, "versions": len(version_tuples()) * len(SUFFIXES), "values": len(specials) + len(plain_leaves)}
    check.assumptions = [
        "the wire model stands for readers of Float16Array, which the installed V8 doesn't know",
        "pre-release versions are not considered (V8 has none)",
    ]
