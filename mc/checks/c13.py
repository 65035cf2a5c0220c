"""C13: equality of JS types is sound, total and terminates."""

from __future__ import annotations

import itertools

from v8serialize import jstypes
from v8serialize.constants import JSErrorName, JSRegExpFlag, SerializationTag
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSArrayBufferTransfer,
    JSBigInt64Array,
    JSDataView,
    JSError,
    JSErrorData,
    JSHole,
    JSMap,
    JSObject,
    JSPrimitiveObject,
    JSRegExp,
    JSSet,
    JSSharedArrayBuffer,
    JSUint8Array,
    JSUndefined,
)

from .. import sched
from ..core import CaseTimeout, chunks, exc_summary, time_limit

# -- graphs: node i is (kind, slots); a slot is a node number or a leaf --------

LEAVES = {"x": "x", "y": "y"}


def make_graph(kinds, slots):
    """The real objects of a graph."""
    objs = []
    for k in kinds:
        objs.append(
            JSObject() if k == "obj" else JSArray() if k == "arr" else JSMap() if k in ("map", "mapkey") else JSSet() if k == "set"
            else JSErrorData(message="m") if k == "data" else JSError("m") if k == "jserror" else [] if k == "list" else {}
        )  # fmt: skip
    for o, k, ss in zip(objs, kinds, slots):
        vs = [objs[s] if isinstance(s, int) else LEAVES[s] for s in ss]
        for i, v in enumerate(vs):
            if k in ("obj", "dict", "map"):
                o["ab"[i]] = v
            elif k == "arr":
                o[i] = v
            elif k == "mapkey":
                o[v] = 1
            elif k == "set":
                o.add(v)
            elif k in ("data", "jserror"):
                if i == 0:
                    o.cause = v
                else:
                    o.name = v if isinstance(v, str) else "Error"
            else:
                o.append(v)
    return objs


def spec(kinds, slots):
    """For each node: its kind, and labelled children."""
    out = []
    for k, ss in zip(kinds, slots):
        if k in ("set", "mapkey"):
            ss = list(dict.fromkeys(ss))
        if k in ("data", "jserror"):
            ss = [ss[0], ss[1] if len(ss) > 1 and isinstance(ss[1], str) else "Error"]
        out.append((k, list(ss)))
    return out


TRACKED = {"obj", "arr", "map", "mapkey", "set", "data", "jserror"}


def equal(g, i, h, j, shared):
    """Whether node i of g equals node j of h: both unroll to the same tree, in
    which an object met again on the way down is a reference to its place."""

    def node(i, j, left, right):
        if shared and i == j:
            return True
        (k, a), (m, b) = g[i], h[j]
        if k != m and {k, m} not in ({"data", "jserror"}, {"map", "mapkey"}, {"map", "dict"}):
            return {k, m} == {"mapkey", "dict"} and not a and not b
        if k in TRACKED or m in TRACKED:
            if i in left or j in right:
                return left.index(i) == right.index(j) if i in left and j in right else False
            left, right = [*left, i], [*right, j]
        if len(a) != len(b):
            return False
        if {k, m} & {"map", "mapkey"} and not a:
            return True
        if {k, m} == {"map", "mapkey"}:
            return False
        return all(child(x, y, left, right) for x, y in zip(a, b))

    def child(x, y, left, right):
        if isinstance(x, int) and isinstance(y, int):
            return node(x, y, left, right)
        return x == y

    return node(i, j, [], [])


def bisimilar(g, i, h, j):
    """Whether they unroll to the same tree, whatever the identity structure."""
    seen = set()
    todo = [(i, j)]
    while todo:
        i, j = todo.pop()
        if (i, j) in seen:
            continue
        seen.add((i, j))
        (k, a), (m, b) = g[i], h[j]
        if {k, m} & {"map", "mapkey"} and {k, m} <= {"map", "mapkey", "dict"} and not a and not b:
            continue
        if {k, m} == {"mapkey", "dict"}:
            return None  # may be equal: not modelled
        if k != m and {k, m} not in ({"data", "jserror"}, {"map", "dict"}) or len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, int) and isinstance(y, int):
                todo.append((x, y))
            elif x != y:
                return False
    return True


def only_python_cycle(g):
    """Whether there is a cycle without any JS type (Python cannot compare those)."""
    plain = {i for i, (k, _) in enumerate(g) if k not in TRACKED}
    for i in plain:
        seen, todo = set(), [i]
        while todo:
            n = todo.pop()
            for s in g[n][1]:
                if isinstance(s, int) and s in plain:
                    if s == i:
                        return True
                    if s not in seen:
                        seen.add(s)
                        todo.append(s)
    return False


def source(name, kinds, slots):
    return f"{name} = make_graph({kinds!r}, {slots!r})"


def judge(r, key, a, b, want, code, loose=False):
    """loose: they are the same but for the identity structure, and one object
    is part of both sides; either answer will do, if it is always the same."""
    r.states += 1
    r.transitions += 4
    try:
        with time_limit(10):
            got = (a == b, b == a, not (a != b), not (b != a))
    except CaseTimeout:
        r.violation(key, "did not terminate", code)
        return
    except Exception as e:
        r.violation(key, f"raised {exc_summary(e)}", code)
        return
    except RecursionError as e:
        r.violation(key, f"raised {exc_summary(e)}", code)
        return
    if loose and got in ((False,) * 4, (True,) * 4):
        r.outcomes["either"] += 1
    elif got != (want,) * 4:
        r.violation(key, f"a == b, b == a, not a != b, not b != a are {got}, expected {want}", code)
    else:
        r.traces += 1
        r.outcomes["equal" if want else "different"] += 1


PRE = "import sys; sys.path.insert(0, '/verif')\nfrom mc.checks.c13 import *\n"


def pairs_task(r, kinds_a, kinds_b, slots_list, part, parts, roots=(0,)):
    """Every graph with these kinds against every other, and node against node."""
    ga = [(s, spec(kinds_a, s), make_graph(kinds_a, s)) for s in slots_list]
    gb = [(s, spec(kinds_b, s), make_graph(kinds_b, s)) for s in slots_list]
    ga = [x for x in ga if not only_python_cycle(x[1])]
    gb = [x for x in gb if not only_python_cycle(x[1])]
    for sa, na, oa in ga[part::parts]:
        for sb, nb, ob in gb:
            for i in roots:
                want = equal(na, i, nb, i, False)
                key = f"{kinds_a}{sa}[{i}] == {kinds_b}{sb}[{i}]"
                code = f"{PRE}{source('a', kinds_a, sa)}\n{source('b', kinds_b, sb)}\nprint(a[{i}] == b[{i}])"
                mixed = {"dict"} & {*kinds_a, *kinds_b} and {"map", "mapkey"} & {*kinds_a, *kinds_b}
                loose = not want and bool(mixed) and bisimilar(na, i, nb, i) is not False
                if loose:
                    key = f"map-dict-cycle: {key}"
                judge(r, key, oa[i], ob[i], want, code, loose)
        if kinds_a == kinds_b:
            for i, j in itertools.product(range(len(kinds_a)), repeat=2):
                want = equal(na, i, na, j, True)
                code = f"{PRE}{source('a', kinds_a, sa)}\nprint(a[{i}] == a[{j}])"
                loose = not want and bisimilar(na, i, na, j) is not False
                judge(r, f"{kinds_a}{sa}: [{i}] == [{j}]", oa[i], oa[j], want, code, loose)
    r.sample(f"{kinds_a} x {kinds_b}", 1)


# -- content ---------------------------------------------------------------


def contents():
    """[(source, value, what it is)]: equal exactly when what they are is equal."""
    T = SerializationTag
    out = []

    def add(src, what):
        out.append((src, eval(src), what))

    scope = globals()

    def eval(s):
        return __builtins_eval(s, scope)

    import builtins

    __builtins_eval = builtins.eval
    for n, what in (
        ("JSUndefined", "undefined"), ("JSHole", "hole"), ("None", "none"), ("1", ("n", 1)), ("True", ("n", 1)), ("1.0", ("n", 1)), ("'1'", "s1"), ("''", "s"),
    ):  # fmt: skip
        add(n, what)
    for cls in ("JSObject", "JSArray", "OwnObject", "OwnArray"):
        for src, items, length in (
            ("", {}, 0), ("{0: 1}", {0: 1}, 1), ("{0: 1, 'a': 2}", {0: 1, "a": 2}, 1), ("{'a': 2, 0: 1}", {0: 1, "a": 2}, 1), ("{'a': 2}", {"a": 2}, 0),
            ("{1: 1}", {1: 1}, 2), ("{0: 1, 1: 2}", {0: 1, 1: 2}, 2), ("{0: 1, 1: JSHole}", {0: 1}, 2), ("{40: 1}", {40: 1}, 41), ("{40: 1, 50: JSHole}", {40: 1}, 51),
            ("{0: 2}", {0: 2}, 1), ("{'a': 3}", {"a": 3}, 0), ("{'b': 2}", {"b": 2}, 0), ("{0: True}", {0: 1}, 1), ("{0: None}", {0: None}, 1),
            ("{0: JSUndefined}", {0: "u"}, 1), ("{'a': 1, 'b': 2}", {"a": 1, "b": 2}, 0), ("{'b': 2, 'a': 1}", {"a": 1, "b": 2}, 0),
            ("{300: 1, 0: 5, 'a': 1}", {300: 1, 0: 5, "a": 1}, 301), ("{i: i for i in range(20)}", {i: i for i in range(20)}, 20),
        ):  # fmt: skip
            add(f"{cls}({src})", (cls, frozenset(items.items()), length if "Array" in cls else None))
    # the same contents reached in other ways (storage must not matter)
    add("grown(JSArray, [(40, 1)], [])", ("JSArray", frozenset({(40, 1)}), 41))
    add("grown(JSArray, [(i, 1) for i in range(41)], range(40))", ("JSArray", frozenset({(40, 1)}), 41))
    add("grown(JSObject, [(i, 1) for i in range(41)], range(40))", ("JSObject", frozenset({(40, 1)}), None))
    add("grown(JSObject, [(60, 1), (40, 1)], [60])", ("JSObject", frozenset({(40, 1)}), None))
    add("grown(JSObject, [('z', 1), ('a', 2), (0, 1)], ['z'])", ("JSObject", frozenset({(0, 1), ("a", 2)}), None))
    add("JSArray([1])", ("JSArray", frozenset({(0, 1)}), 1))
    add("JSArray([1, JSHole])", ("JSArray", frozenset({(0, 1)}), 2))
    add("JSArray([1, 2])", ("JSArray", frozenset({(0, 1), (1, 2)}), 2))
    add("JSArray([JSHole])", ("JSArray", frozenset(), 1))
    for src, items in (
        ("", ()), ("[(1, 2)]", ((1, 2),)), ("[(1, 2), (3, 4)]", ((1, 2), (3, 4))), ("[(3, 4), (1, 2)]", ((3, 4), (1, 2))), ("[(1, 3)]", ((1, 3),)),
        ("[('1', 2)]", (("1", 2),)), ("{'a': 1}", (("a", 1),)),
    ):  # fmt: skip
        add(f"JSMap({src})", ("JSMap", items))
    for src, items in (("", ()), ("[1]", (1,)), ("[1, 2]", (1, 2)), ("[2, 1]", (2, 1)), ("['1']", ("1",)), ("[None]", (None,))):
        add(f"JSSet({src})", ("JSSet", items))
    for m, n, s, c in itertools.product(("", "m"), ("Error", "TypeError"), (None, "st"), (None, 1)):
        args = f"{m!r}, name={n!r}, stack={s!r}, cause={c!r}"
        add(f"JSErrorData({args})", ("error", m, n, s, c))
        add(f"JSError({args})", ("error", m, n, s, c))
    add("JSErrorData('m', name=JSErrorName.TypeError)", ("error", "m", "TypeError", None, None))
    for s, f in itertools.product(("a", "b"), ("NoFlag", "Global", "IgnoreCase | JSRegExpFlag.Global")):
        add(f"JSRegExp({s!r}, JSRegExpFlag.{f})", ("regexp", s, f))
    for src, what in (
        ("'1'", ("s", "1")), ("1", ("n", 1)), ("1.0", ("n", 1)), ("True", True), ("False", False), ("2**70", ("b", 2**70)), ("1, SerializationTag.kBigIntObject", ("b", 1)),
        ("2", ("n", 2)), ("''", ("s", "")),
    ):  # fmt: skip
        add(f"JSPrimitiveObject({src})", ("boxed", repr(what)))
    for src, what in (
        ("b'ab'", ("ab", None)), ("b'ac'", ("ac", None)), ("b''", ("", None)), ("bytearray(b'ab')", ("ab", None)), ("b'ab', max_byte_length=2, resizable=True", ("ab", 2)),
        ("b'ab', max_byte_length=3, resizable=True", ("ab", 3)),
    ):  # fmt: skip
        add(f"JSArrayBuffer({src})", ("buffer", *what))
    T  # noqa: B018
    for cls, data, extra in (
        ("JSUint8Array", "ab", ""), ("JSUint8Array", "ac", ""), ("JSUint8Array", "xaby", ", 1, 2"), ("JSUint8Array", "a", ""), ("JSUint8Array", "abc", ", 0, 2"),
    ):  # fmt: skip
        seen = data[1:3] if extra == ", 1, 2" else data[:2]
        add(f"{cls}(JSArrayBuffer({data.encode()!r}){extra})", ("u8", seen))
    add("JSUint8Array(JSArrayBuffer(b'abcd', max_byte_length=6, resizable=True), 0, 2)", ("u8", "ab"))
    return out


class OwnObject(JSObject):
    pass


class OwnArray(JSArray):
    pass


def grown(cls, items, deleted):
    o = cls()
    for k, v in items:
        o[k] = v
    for k in deleted:
        del o[k]
    return o


def contents_task(r, part, parts, wrap):
    cases = contents()
    wraps = {
        "": lambda v: v, "JSObject": lambda v: JSObject(k=v), "JSArray": lambda v: JSArray([0, v]), "JSMap": lambda v: JSMap([("k", v)]),
        "JSMap key": lambda v: JSMap([(v, 1)]), "JSSet": lambda v: JSSet([v]), "JSErrorData": lambda v: JSErrorData(cause=v), "list": lambda v: JSObject(k=[v]),
    }  # fmt: skip
    w = wraps[wrap]
    for sa, a, ka in cases[part::parts]:
        for sb, b, kb in cases:
            if wrap.startswith("JSArray") and "hole" in (ka, kb):
                pass
            if wrap == "JSObject" and "hole" in (ka, kb):
                continue
            if sa.startswith("Own") != sb.startswith("Own") and type(a).__base__ is not type(b).__base__ and isinstance(a, JSObject) and isinstance(b, JSObject):
                continue  # a subclass can choose
            code = f"{PRE}a = {sa}\nb = {sb}\nprint(a == b, b == a, a != b)"
            x, y = w(a), w(b)
            judge(r, f"{wrap}({sa}) == {wrap}({sb})", x, y, ka == kb, code)
    # not equal to things of other types, and never an error
    for sa, a, ka in cases[part::parts]:
        if isinstance(ka, str) or ka[0] == "n":
            continue
        for other in (object(), 5j, b"ab", [1], (1,), {0: 1, "q": 1}, {99}, NotImplemented, Exception("m"), JSError, len, float("nan")):
            r.states += 1
            try:
                if a == other or not (a != other) or other == a:
                    r.violation(f"{sa} == {other!r}", "equal to a value of another type", "")
            except Exception as e:
                r.violation(f"{sa} == {other!r}", f"raised {exc_summary(e)}", "")


VIEW_TYPES = [
    getattr(jstypes, f"JS{n}")
    for n in (
        "Int8Array", "Uint8Array", "Uint8ClampedArray", "Int16Array", "Uint16Array", "Int32Array", "Uint32Array",
        "Float16Array", "Float32Array", "Float64Array", "BigInt64Array", "BigUint64Array", "DataView",
    )
]  # fmt: skip


def hashables(t):
    """[(source, value)]: immutable JS values, many equal to another."""
    out = []
    patterns = [b"", bytes(8), bytes(16), b"\x01" + bytes(7), bytes(7) + b"\x80", b"\x01\0\0\0\0\0\0\x80", b"\xff" * 8, bytes(6) + b"\xf0\x3f", b"\0\0\x80\x3f" * 2, b"\0\x3c" * 4]
    patterns += [bytes([0, 0, 0, 128]) * 2, b"\0\x80" * 4, b"\x80" * 8, b"\0\x7e" * 4, b"\0\0\xc0\x7f" * 2]
    if t:
        patterns += [bytes(1), b"\x01", b"\x01\0", b"\x01\0\0\0", b"\x01" * 4, bytes(4096), bytes(4096 - 8) + b"\x01" * 8, bytes(2048) + b"\x01" * 2048]
    else:
        patterns += [b"\x01\0", bytes(2048) + b"\x01" * 2048]
    for cls in VIEW_TYPES:
        for p in patterns:
            src = f"{p!r}" if len(p) < 20 else f"{p[:1]!r} * {len(p)}"
            out.append((f"{cls.__name__}({src})", cls(p)))
            out.append((f"{cls.__name__}(JSArrayBuffer(bytes(8) + {src}, readonly=True), {8 // cls.data_format.byte_length})", cls(JSArrayBuffer(bytes(8) + p, readonly=True), 8 // cls.data_format.byte_length)))
    for b in ("JSSharedArrayBuffer(1)", "JSSharedArrayBuffer(2)", "JSArrayBufferTransfer(1)", "JSArrayBufferTransfer(2)"):
        out.append((b, eval(b)))
        for cls in VIEW_TYPES:
            for at in ("", ", 0, 1", ", 1, 1", ", 1"):
                out.append((f"{cls.__name__}({b}{at})", eval(f"{cls.__name__}({b}{at})", {**vars(jstypes)})))
    for src, v, _ in contents():
        try:
            hash(v)
        except TypeError:
            continue
        out.append((src, v))
    for src in ("JSArrayBuffer(b'ab', readonly=True)", "JSArrayBuffer(memoryview(b'ab'), copy_data=False)", "JSArrayBuffer(b'ab', copy_data=False)", "JSPrimitiveObject(float('nan'))", "JSPrimitiveObject(-0.0)", "JSPrimitiveObject(0.0)", "JSPrimitiveObject(0)", "JSHole", "JSUndefined", "JSRegExp('a', JSRegExpFlag.Global | JSRegExpFlag.IgnoreCase)"):
        out.append((src, eval(src)))
    return out


MUTABLE = [
    "JSObject()", "JSArray()", "JSMap()", "JSSet()", "JSErrorData()", "JSError()", "JSArrayBuffer(b'ab')", "JSUint8Array(JSArrayBuffer(b'ab'))", "JSUint8Array(bytearray(b'ab'))",
    "JSUint8Array(bytearray(b'ab'), readonly=True)", "JSDataView(bytearray(b'ab'))", "JSArrayBuffer(4, max_byte_length=5)", "JSUint8Array(JSArrayBuffer(2, max_byte_length=5), 0, 1)",
]  # fmt: skip


def hashes_task(r, t, part, parts):
    """Equal values have equal hashes, what can change has none."""
    values = hashables(t)
    known = []
    for src, v in values:
        key = f"hash {src}"
        try:
            known.append(hash(v))
            if hash(v) != known[-1] or v not in {v} or v != v:
                r.violation(key, "not found in a set of itself", f"{PRE}print({{{src}}})")
        except Exception as e:
            known.append(0)
            r.violation(key, f"raised {exc_summary(e)}", f"{PRE}hash({src})")
    for i in range(part, len(values), parts):
        sa, a = values[i]
        for j, (sb, b) in enumerate(values):
            r.states += 1
            r.transitions += 2
            code = f"{PRE}a = {sa}\nb = {sb}\nprint(a == b, b == a, hash(a), hash(b))"
            try:
                equal, back = a == b, b == a
            except Exception as e:
                r.violation(f"{sa} == {sb}", f"raised {exc_summary(e)}", code)
                continue
            if equal is not back or (a != b) is equal:
                r.violation(f"{sa} == {sb}", f"a == b, b == a, a != b are {equal}, {back}, {a != b}", code)
            elif equal and known[i] != known[j]:
                r.violation(f"hash {sa} {sb}", "equal, but their hashes are not", code)
            elif "Shared" in sa + sb or "Transfer" in sa + sb:
                # what is in these is not known, so they are equal only if they are
                # the same place of the same buffer
                if equal is not (sa == sb):
                    r.violation(f"{sa} == {sb}", f"is {equal}", code)
            r.outcomes["equal" if equal else "different"] += 1
    for src in MUTABLE[part::parts]:
        r.states += 1
        try:
            hash(eval(src))
            r.violation(f"hash {src}", "has a hash, but it can change", f"{PRE}hash({src})")
        except TypeError:
            r.traces += 1
        except Exception as e:
            r.violation(f"hash {src}", f"raised {exc_summary(e)}", f"{PRE}hash({src})")


class Boom:
    def __eq__(self, other):
        raise ZeroDivisionError


def failing_task(r):
    """A comparison that fails leaves nothing behind."""
    for kind in ("obj", "arr", "map", "mapkey", "set", "data", "jserror"):
        for depth in range(4):
            kinds = [kind] * (depth + 1)
            slots = [[i + 1] if i < depth else ["x"] for i in range(depth + 1)]
            a, b, c = (make_graph(kinds, slots) for _ in range(3))
            boom = Boom()
            for o in (a[-1], b[-1]):
                v = Boom() if o is a[-1] else boom
                if kind in ("obj", "map"):
                    o["a"] = v
                elif kind == "arr":
                    o[0] = v
                elif kind == "mapkey":
                    o.clear()
                    o[v] = 1
                elif kind == "set":
                    o.clear()
                    o.add(v)
                else:
                    o.cause = v
            key = f"after a failure: {kind} depth {depth}"
            r.states += 1
            try:
                a[0] == b[0]  # noqa: B015
            except ZeroDivisionError:
                pass
            else:
                r.violation(key, "the error of a member's comparison is lost", "")
            # take the failing members out again, and compare
            for o in (a[-1], b[-1]):
                if kind in ("obj", "map"):
                    o["a"] = "x"
                elif kind == "arr":
                    o[0] = "x"
                elif kind in ("mapkey", "set"):
                    o.clear()
                    o.add("x") if kind == "set" else o.__setitem__("x", 1)
                else:
                    o.cause = "x"
            for x, y in itertools.product((a, b, c), repeat=2):
                judge(r, key, x[0], y[0], True, "")
            if kind in ("data", "jserror"):
                c[-1].cause = "y"
            elif kind == "set":
                c[-1].add("y")
            else:
                c[-1]["y"] = 1
            judge(r, key, a[0], c[0], False, "")


# -- threads -----------------------------------------------------------------


def thread_cases():
    def cyc(kind, n, end=None):
        slots = [[(i + 1) % n] for i in range(n)]
        if end is not None:
            slots[-1].append(end)
        return make_graph([kind] * n, slots)

    def pair(a, b, want_a, c, d, want_b):
        return (lambda: a == b, lambda: c == d), (want_a, want_b)

    for kind in ("obj", "arr", "map", "set", "data"):
        # both threads compare the same objects
        a, b = cyc(kind, 2), cyc(kind, 2)
        yield f"{kind}: a == b, a == b", pair(a[0], b[0], True, a[0], b[0], True)
        yield f"{kind}: a == b, b == a", pair(a[0], b[0], True, b[0], a[0], True)
        # one of them with another object
        c = cyc(kind, 2)
        yield f"{kind}: a == b, a == c", pair(a[0], b[0], True, a[0], c[0], True)
        yield f"{kind}: a == b, c == b", pair(a[0], b[0], True, c[0], b[0], True)
        # at another place, and answers that differ
        d = cyc(kind, 1)
        yield f"{kind}: a == b, a[1] == b[1]", pair(a[0], b[0], True, a[1], b[1], True)
        yield f"{kind}: a == b, a == d", pair(a[0], b[0], True, a[0], d[0], False)
        e = cyc(kind, 2, "x") if kind != "data" else cyc(kind, 3)
        yield f"{kind}: a == b, a == e", pair(a[0], b[0], True, a[0], e[0], False)
        yield f"{kind}: e == b, a == b", pair(e[0], b[0], False, a[0], b[0], True)


def threads_task(r, name, preemptions, part, parts):
    bodies, want = dict(thread_cases())[name]

    def judge(results):
        got = tuple(v if k == "ok" else exc_summary(v) for k, v in results)
        return None if got == want else f"the answers are {got}, alone they are {want}"

    r.states += 1
    alone = tuple(b() for b in bodies)
    if alone != want:
        r.violation(f"threads {name}", f"alone the answers are {alone}, expected {want}", "")
        return
    sched.explore(r, f"threads {name}", lambda: bodies, judge, preemptions, (part, parts))


def main(check):
    t = check.thorough
    kinds = ["obj", "arr", "map", "mapkey", "set", "data", "jserror"]
    tasks = []
    two = [list(s) for s in itertools.product([list(p) for p in itertools.product([0, 1, "x", "y"], repeat=2)], repeat=2)]
    small = [list(s) for s in itertools.product([[], ["x"], [0], [1], [0, 1], [1, 0], [1, 1], ["x", 1]], repeat=2)]
    for k in kinds:
        # two objects of a kind, two places each
        tasks += [(pairs_task, ([k, k], [k, k], [s for s in two if t or s[1][1] != "y"], p, 8, (0, 1) if t else (0,))) for p in range(8)]
    for a, b in itertools.product([*kinds, "list", "dict"], repeat=2):
        sl = [s for s in small if all(len(x) > 0 for x in s)] if {a, b} & {"data", "jserror"} else small
        tasks.append((pairs_task, ([a, b], [a, b], sl, 0, 1, (0, 1))))
    check.phase("two objects", tasks)
    tasks = []
    one = [[[x] for x in s] for s in itertools.product([0, 1, 2, "x"], repeat=3)]
    for ks in itertools.product(["obj", "set", "data", "list"] if not t else [*kinds, "list"], repeat=3):
        tasks.append((pairs_task, (list(ks), list(ks), one, 0, 1, (0,))))
    four = [[[x] for x in s] for s in itertools.product([0, 1, 2, 3, "x"], repeat=4)]
    for k in kinds if t else ["obj", "map", "mapkey"]:
        tasks += [(pairs_task, ([k] * 4, [k] * 4, [s for s in four if t or s[0] != [0]], p, 8)) for p in range(8)]
    check.phase("rings", tasks)
    # different kinds on the two sides
    tasks = []
    for a, b in itertools.combinations([*kinds, "list", "dict"], 2):
        sl = [s for s in small if all(len(x) > 0 for x in s)] if {a, b} & {"data", "jserror"} else small
        sl = sl[:: 1 if t else 2]
        tasks.append((pairs_task, ([a, a], [b, b], sl, 0, 1)))
        tasks.append((pairs_task, ([a, b], [b, a], sl, 0, 1)))
    check.phase("different kinds", tasks)
    wraps = ["", "JSObject", "JSArray", "JSMap", "JSMap key", "JSSet", "JSErrorData", "list"]
    check.phase("contents", [(contents_task, (p, 4, w)) for w in wraps for p in range(4)])
    check.phase("hashes", [(hashes_task, (t, p, 8)) for p in range(8)])
    check.phase("failures", [(failing_task, ())])
    names = [n for n, _ in thread_cases()]
    if not t:
        names = [n for n in names if n.startswith(("obj", "set"))]
    check.phase("threads", [(threads_task, (n, 2, p, 8)) for n in names for p in range(8)])
    check.bounds = {"objects": 4, "places": 2, "preemptions": 2, "contents": len(contents())}
    check.assumptions = [
        "sharing that is not part of a cycle is not identity structure (== of containers does not see it in Python)",
        "cycles consisting only of Python's own lists and dicts are Python's to compare",
        "whether views of different types are equal is not judged (only that their hashes are, if they are)",
        "thread switches happen between lines of the library",
    ]


chunks, JSBigInt64Array, JSDataView, JSErrorName, JSRegExpFlag, JSHole, JSUndefined, JSRegExp  # noqa: B018
JSPrimitiveObject, JSUint8Array, JSArrayBuffer, JSArrayBufferTransfer, JSSharedArrayBuffer  # noqa: B018
