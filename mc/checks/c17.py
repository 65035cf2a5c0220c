"""C17: repr() of JS types is faithful, terminates and has no side effects."""

from __future__ import annotations

import contextlib
import datetime
import enum
import itertools
import math
import re
import warnings

import v8serialize.constants
import v8serialize.jstypes
from v8serialize.constants import JSErrorName, JSRegExpFlag
from v8serialize.decode import V8SharedObjectReference
from v8serialize.jstypes import (
    JSArray,
    JSArrayBuffer,
    JSDataView,
    JSError,
    JSErrorData,
    JSHole,
    JSMap,
    JSObject,
    JSPrimitiveObject,
    JSRegExp,
    JSRepr,
    JSReprSettingsNotRestored,
    JSSet,
    JSTypedArray,
    JSUint8Array,
    JSUndefined,
    default_js_repr,
    js_repr_settings,
)

from .. import gen, sched
from ..core import CaseTimeout, chunks, exc_summary, time_limit
from ..graph import build, fhex
from ..space import fingerprint
from .c13 import LEAVES, make_graph

NS = {
    **vars(v8serialize.constants), **vars(v8serialize.jstypes), "V8SharedObjectReference": V8SharedObjectReference,
    "nan": math.nan, "inf": math.inf, "datetime": datetime, "re": re, "JSPrimitiveObject": JSPrimitiveObject,
}  # fmt: skip
WIDE = {f"max{x}": 10**6 for x in ("jsobject", "jsarray", "tuple", "list", "array", "dict", "set", "frozenset", "deque", "string", "long", "other")}
WIDE["maxlevel"] = 200


def read(text, **extra):
    """Evaluate a repr (enum members are written <Enum.Member: value>)."""
    text = re.sub(r"<((?:JSErrorName|JSRegExpFlag|SerializationTag)\.\w+(?:\|\w+)*): [^>]*>", lambda m: "(" + re.sub(r"\|(\w+)", r"|JSRegExpFlag.\1", m[1]) + ")", text)
    return eval(text, {**NS, **extra})


def tree(v, depth=0):
    """The value as a tree: types and contents, not identities."""
    if depth > 60:
        return "..."

    def t(x):
        return tree(x, depth + 1)

    if v is None or v is JSUndefined or v is JSHole or v is Ellipsis:
        return repr(v)
    c = type(v).__name__
    if isinstance(v, JSErrorName):
        return ("str", v.value)  # the name itself may be given as a string
    if isinstance(v, enum.Enum):
        return (c, v.value)
    if isinstance(v, float):
        return (c, fhex(v))
    if isinstance(v, (int, str, bytes, bytearray, datetime.datetime)):
        return (c, repr(v) if isinstance(v, datetime.datetime) else bytes(v) if isinstance(v, bytearray) else v)
    if isinstance(v, memoryview):
        return (c, bytes(v), v.readonly, v.format, v.shape)
    if isinstance(v, re.Pattern):
        return (c, v.pattern, v.flags)
    if isinstance(v, JSArray):
        return (c, len(v.array), [(k, t(x)) for k, x in v.items()])
    if isinstance(v, JSObject):
        return (c, [(k, t(x)) for k, x in v.items()])
    if isinstance(v, JSMap):
        return (c, [(t(k), t(x)) for k, x in v.items()])
    if isinstance(v, JSSet):
        return (c, [t(x) for x in v])
    if isinstance(v, (JSError, JSErrorData)):
        return (c, t(v.name), t(v.message), t(v.stack), t(v.cause))
    if isinstance(v, JSRegExp):
        return (c, v.source, v.flags.value)
    if isinstance(v, JSPrimitiveObject):
        return (c, v.tag.name, t(v.value))
    if isinstance(v, JSArrayBuffer):
        with v.data as d:
            return (c, bytes(d), v.resizable, v.max_byte_length, d.readonly)
    if isinstance(v, (JSTypedArray, JSDataView)):
        return (c, t(v.backing_buffer), v.item_offset, v.item_length, v.readonly)
    if isinstance(v, dict):
        return (c, sorted(([repr(t(k)), t(x)] for k, x in v.items()), key=lambda p: p[0]))
    if isinstance(v, (set, frozenset)):
        return (c, sorted(repr(t(x)) for x in v))
    if isinstance(v, (list, tuple)):
        return (c, [t(x) for x in v])
    return (c, repr(v))


PRE = "import sys; sys.path.insert(0, '/verif')\nfrom mc.checks.c17 import *\n"


def faithful(r, key, v, code=""):
    want = tree(v)
    before = fingerprint(v)
    for name, settings in (("default", {}), ("wide", WIDE), ("indent 2", {**WIDE, "indent": 2}), ("indent 0", {**WIDE, "indent": 0}), ("None again", {**WIDE, "indent": None})):
        r.transitions += 1
        try:
            with time_limit(10), js_repr_settings(**settings):
                text, again = repr(v), repr(v)
        except (Exception, CaseTimeout) as e:
            r.violation(f"{key} ({name})", f"repr() raised {exc_summary(e)}", code)
            return
        if text != again:
            r.violation(f"{key} ({name})", f"repr() varies: {text!r} then {again!r}", code)
            return
        if name == "default" and (len(text) > 90 and ("..." in text or "…" in text) or re.search(r"\d\.\.\.\d", text)):
            r.outcomes["beyond default limits"] += 1
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = tree(read(text))
        except Exception as e:
            r.violation(f"{key} ({name})", f"repr() is {text}, which cannot be evaluated: {exc_summary(e)}", code)
            return
        if got != want:
            r.violation(f"{key} ({name})", f"repr() is {text}, which evaluates to {got}, not {want}", code)
            return
        r.outcomes["evaluates to the same"] += 1
    if fingerprint(v) != before:
        r.violation(key, f"repr() changed the value: {before} became {fingerprint(v)}", code)
        return
    r.traces += 1


# -- A: acyclic values ------------------------------------------------------------


MEMORY = re.compile("(top|list|tuple|dict|error cause).*<memoryview>")  # as Python renders memoryviews


def leaves_task(r, part, parts):
    names = [*gen.PRIMS, *gen.CONFUSABLE, *gen.OBJECTS, *gen.HOST_ONLY, *gen.RESIZABLE]
    for i, (key, g) in enumerate(gen.single_leaf_cases(names)):
        if i % parts == part and not MEMORY.match(key):
            r.states += 1
            faithful(r, key, build(g), f"{PRE}print(repr(build(gen.place(*{tuple(key[:-1].split('<', 1))!r}))))")


def nested_task(r, depth, part, parts):
    leaves = ("float:nan", "error", "regexp:flags", "view:u8", "arr:only holes", "map", "boxed:str", "date:2024")
    for i, (key, g) in enumerate(gen.nested_cases(depth, leaves if depth < 3 else leaves[:2])):
        if i % parts == part:
            r.states += 1
            faithful(r, key, build(g), "")


def pair_task(r, part, parts):
    names = [*gen.CONFUSABLE, "regexp", "error", "obj", "map:empty", "date:0", "tuple", "bytes"]
    for i, (key, g) in enumerate(gen.pair_cases(names)):
        if i % parts == part:
            r.states += 1
            faithful(r, key, build(g), "")


KEYS = [
    0, 1, 5, 99, 4294967294, "4294967295", "-1", "", " ", "a", "b", "_", "_a", "a b", "a-b", "a'b", 'a"b', "a\nb", "1a", "1.5",
    "None", "True", "class", "match", "type", "lambda", "print", "self", "cls", "init", "properties", "args", "kwargs", "array", "key", "iterable", "name", "value",
    "__class__", "__init__", "__debug__", "__dict__", "length", "constructor", "é", "λ", "ﬁ", "ſ", "µ", "μ", "ª", "K", "e\u0301", "ℌ", "x²", "℘", "·", "a·",
    "\ud800", "😀", "\0", "\\", "{", "%s", "…", "...", "**", "=", "#", "(", ")", "\u2028", "１", "a１",
]  # fmt: skip


def keys_task(r, part, parts):
    """Objects and arrays with every key, and every pair of keys, in both orders."""
    arrays = [[], [0], [7, JSHole]]
    for i, ks in enumerate(itertools.chain(((k,) for k in KEYS), itertools.permutations(KEYS, 2))):
        if i % parts != part:
            continue
        r.states += 1
        o, s = JSObject(), JSArray()
        s[4999] = "far"
        for n, k in enumerate(ks):
            o[k] = n
            if not isinstance(k, int):
                s[k] = n
        faithful(r, f"JSObject with keys {ks!a}", o, f"from v8serialize.jstypes import *\no = JSObject()\nfor k in {ks!a}: o[k] = 1\nprint(repr(o))")
        faithful(r, f"sparse JSArray with keys {ks!a}", s)
        for a in arrays:
            d = JSArray(a)
            for n, k in enumerate(ks):
                if not isinstance(k, int):
                    d[k] = n
            faithful(r, f"JSArray({a}) with keys {ks!a}", d)


def arrays_task(r, length):
    """Every small array of holes and values, dense and sparse."""
    for els in itertools.product((JSHole, 1, "x"), repeat=length):
        for base in (0, 40, 5000):
            for props in ({}, {"p": 1}, {"a b": 1}, {"p": 1, "a b": 2}):
                r.states += 1
                a, o = JSArray(), JSObject()
                for i, e in enumerate(els):
                    a[base + i] = e
                    o[base + i] = e
                if base and length:
                    a.array.resize(base + length)
                for k, v in props.items():
                    a[k] = v
                    o[k] = v
                faithful(r, f"{length} elements {els} from {base} with {props}", a)
                faithful(r, f"object: {length} elements {els} from {base} with {props}", o)


# -- limits ---------------------------------------------------------------------


def limit_task(r):
    """Each limit alone: what fits is complete, what doesn't is visibly cut."""

    def filled(cls, n):
        if cls is JSObject:
            return JSObject({f"k{i}": i for i in range(n)})
        return cls([(f"k{i}", i) for i in range(n)])

    kinds = {
        "maxjsobject": [lambda n: JSObject({f"k{i}": 1000 + i for i in range(n)}), lambda n: JSObject({f"k {i}": 1000 + i for i in range(n)}), lambda n: JSObject({i: 1000 + i for i in range(n)}),
                        lambda n: JSObject({i if i < n // 2 else f"k{i}": 1000 + i for i in range(n)}), lambda n: JSObject({i if i < n // 2 else f"k {i}": 1000 + i for i in range(n)}),
                        lambda n: JSObject({i * 100: 1000 + i for i in range(n)})],
        "maxjsarray": [lambda n: JSArray(range(1000, 1000 + n)), lambda n: JSArray({f"k{i}": 1000 + i for i in range(n)}), lambda n: JSArray({f"k {i}": 1000 + i for i in range(n)}),
                       lambda n: JSArray({i if i < n // 2 else f"k{i}": 1000 + i for i in range(n)}), lambda n: JSArray({i if i < n // 2 else f"k {i}": 1000 + i for i in range(n)}),
                       lambda n: JSArray({i * 100: 1000 + i for i in range(n)}), lambda n: JSArray({i * 100 if i < n // 2 else f"k{i}": 1000 + i for i in range(n)}),
                       lambda n: JSArray({i * 100: JSHole if i == n - 1 else 1000 + i for i in range(n)}), lambda n: JSArray([JSHole] * n)],
        "maxdict": [lambda n: JSMap((i, 1000 + i) for i in range(n)), lambda n: JSMap(([i], 1000 + i) for i in range(n)), lambda n: JSObject(a={i: 1000 + i for i in range(n)})],
        "maxset": [lambda n: JSSet(range(1000, 1000 + n)), lambda n: JSSet([[1000 + i] for i in range(n)]), lambda n: JSObject(a=set(range(1000, 1000 + n)))],
        "maxlist": [lambda n: JSObject(a=list(range(1000, 1000 + n))), lambda n: JSArray([list(range(1000, 1000 + n))])],
        "maxtuple": [lambda n: JSObject(a=tuple(range(1000, 1000 + n)))],
        "maxfrozenset": [lambda n: JSObject(a=frozenset(range(1000, 1000 + n)))],
    }  # fmt: skip
    for field, makes in kinds.items():
        for which, make in enumerate(makes):
            for limit in range(6):
                for n in range(8):
                    for indent in (None, 2):
                        r.states += 1
                        r.transitions += 1
                        v = make(n)
                        key = f"limits: {field}={limit} for value {which} of size {n} indent={indent}"
                        try:
                            with js_repr_settings(**{**WIDE, field: limit, "indent": indent}):
                                text = repr(v)
                        except Exception as e:
                            r.violation(key, f"raised {exc_summary(e)}")
                            continue
                        if n <= limit:
                            got = tree(read(text))
                            if got != tree(v):
                                r.violation(key, f"is {text} although it's within the limits")
                                continue
                        elif "..." not in text:
                            r.violation(key, f"is {text}, which isn't marked as cut")
                            continue
                        else:
                            shown = len(re.findall(r"\b10\d\d\b|JSHole", text))
                            if shown != limit:
                                r.violation(key, f"is {text}, which shows {shown} items, not {limit}")
                                continue
                        r.traces += 1
                        r.outcomes["complete" if n <= limit else "cut"] += 1
    for limit in range(0, 12):
        for n in range(14):
            for label, v in (
                ("str", JSObject(a="x" * max(0, n - 2))), ("long", JSArray([10 ** max(0, n - 1)])), ("bytes", JSArrayBuffer(b"x" * n)),
                ("bytes in", JSObject(a=b"x" * n)), ("bytearray in", JSObject(a=bytearray(b"x" * n))), ("memoryview in", JSObject(a=memoryview(b"x" * n))), ("readonly", JSArrayBuffer(b"x" * n, readonly=True)),
            ):  # fmt: skip
                r.states += 1
                r.transitions += 1
                with js_repr_settings(**{**WIDE, "maxlong" if label == "long" else "maxstring": limit}):
                    text = repr(v)
                size = max(2, n) if label == "str" else max(1, n) if label == "long" else n
                if (size <= limit) == ("..." in text or "…" in text):
                    r.violation(f"limits: {label} of {n} at {limit}", f"is {text}")
                elif size <= limit and tree(read(text)) != tree(v):
                    r.violation(f"limits: {label} of {n} at {limit}", f"is {text}, of another value")
                else:
                    r.traces += 1
    wraps = {
        "JSObject": lambda x: JSObject(a=x), "JSObject idx": lambda x: JSObject({0: x}), "JSArray": lambda x: JSArray([x]), "JSArray prop": lambda x: JSArray({"a b": x}),
        "JSMap": lambda x: JSMap([("k", x)]), "JSMap key": lambda x: JSMap([(x, "k")]), "JSSet": lambda x: JSSet([x]), "JSError": lambda x: JSError("m", cause=x), "list": lambda x: [x], "sparse": lambda x: JSArray({5000: x}),
    }  # fmt: skip
    for depth in range(1, 5):
        for names in itertools.product(wraps, repeat=depth):
            if names[0] == "list":
                continue
            v = 5
            for n in reversed(names):
                v = wraps[n](v)
            for level in range(1, depth + 3):
                r.states += 1
                r.transitions += 1
                with js_repr_settings(**{**WIDE, "maxlevel": level}):
                    text = repr(v)
                key = f"limits: maxlevel={level} for {names}"
                if (level > depth) == ("..." in text):
                    r.violation(key, f"is {text}")
                elif level > depth and tree(read(text)) != tree(v):
                    r.violation(key, f"is {text}, of another value")
                else:
                    r.traces += 1


# -- B: cyclic values -------------------------------------------------------------


class Cut:
    """What a reference to an enclosing object is rendered as."""


def unrolled(kinds, slots, i, got, path=()):
    """The tree that evaluating the repr of node i must give."""
    if i in path:
        return "cut"
    path = (*path, i)
    k, ss = kinds[i], slots[i]

    def child(s, *where):
        if not isinstance(s, int):
            return ("str", LEAVES[s])
        g = got
        try:
            for w in where:
                g = g[w]
        except (IndexError, TypeError, KeyError):
            g = None
        return unrolled(kinds, slots, s, g, path)

    first = [(n, s) for n, s in enumerate(ss) if s not in ss[:n]]
    if k == "obj":
        return ("JSObject", [("ab"[n], child(s, 1, n, 1)) for n, s in enumerate(ss)])
    if k == "arr":
        return ("JSArray", len(ss), [(n, child(s, 2, n, 1)) for n, s in enumerate(ss)])
    if k == "map":
        return ("JSMap", [(("str", "ab"[n]), child(s, 1, n, 1)) for n, s in enumerate(ss)])
    if k == "mapkey":
        return ("JSMap", [(child(s, 1, m, 0), ("int", 1)) for m, (_, s) in enumerate(first)])
    if k == "set":
        return ("JSSet", [child(s, 1, m) for m, (_, s) in enumerate(first)])
    if k in ("data", "jserror"):
        name = ("str", LEAVES[ss[1]] if len(ss) > 1 and not isinstance(ss[1], int) else "Error")
        return ("JSErrorData" if k == "data" else "JSError", name, ("str", "m"), "None", child(ss[0], 4))
    if k == "list":
        return ("list", [child(s, 1, n) for n, s in enumerate(ss)])
    return ("dict", [[repr(("str", "ab"[n])), child(s, 1, n, 1)] for n, s in enumerate(ss)])


def late(kinds):
    """Dataclasses render lists as Python does, which has its own idea of what is being rendered."""
    return "data" in kinds and bool({"list", "dict"} & set(kinds))


def cut_tree(text):
    marked = text.replace("...", "Cut()")

    def fix(t):
        if isinstance(t, tuple) and t and t[0] == "Cut":
            return "cut"
        return type(t)(map(fix, t)) if isinstance(t, (tuple, list)) else t

    return fix(tree(read(marked, Cut=Cut)))


def cyclic_task(r, n, kindset, part, parts, width=2):
    choices = [list(range(n)) + ["x"]] * width
    index = 0
    for kinds in itertools.combinations_with_replacement(kindset, n):
        if kinds[0] in ("list", "dict"):
            continue
        for kinds in {kinds, (*kinds[1:], kinds[0])}:
            if kinds[0] in ("list", "dict"):
                continue
            for slots in itertools.product(list(itertools.product(*choices)), repeat=n):
                index += 1
                if index % parts != part:
                    continue
                r.states += 1
                one_cyclic(r, kinds, slots)


def one_cyclic(r, kinds, slots):
    objs = make_graph(kinds, slots)
    before = fingerprint(objs)
    code = f"{PRE}objs = make_graph({kinds!r}, {slots!r})\nprint(repr(objs[0]))"
    texts = []
    for indent in (None, 2):
        r.transitions += 1
        try:
            with time_limit(10), js_repr_settings(**WIDE, indent=indent):
                text, again = repr(objs[0]), repr(objs[0])
        except (Exception, CaseTimeout) as e:
            r.violation(f"{kinds}{slots} indent={indent}", f"repr() raised {exc_summary(e)}", code)
            return
        if text != again:
            r.violation(f"{kinds}{slots}", f"repr() varies: {text} then {again}", code)
            return
        try:
            got = cut_tree(text)
        except Exception as e:
            r.violation(f"{kinds}{slots}", f"repr() is {text}, which cannot be evaluated: {exc_summary(e)}", code)
            return
        want = unrolled(kinds, slots, 0, got)
        if got != want and not late(kinds):
            r.violation(f"{kinds}{slots}", f"repr() is {text}: {got}, expected {want}", code)
            return
        texts.append(text)
    if fingerprint(objs) != before:
        r.violation(f"{kinds}{slots}", "repr() changed the values", code)
        return
    r.traces += 1
    r.outcomes["cyclic" if "..." in texts[0] else "acyclic"] += 1


# -- C: settings ---------------------------------------------------------------

FIELDS = {
    # field: (value it gets, probe)
    "maxjsobject": (1, lambda: JSObject(a=1, b=2)), "maxjsarray": (1, lambda: JSArray([1, 2])), "maxlevel": (1, lambda: JSObject(a=1)),
    "maxtuple": (1, lambda: JSArray([(1, 2)])), "maxlist": (1, lambda: JSArray([[1, 2]])), "maxarray": (1, lambda: JSArray([__import__("array").array("b", [1, 2])])),
    "maxdict": (1, lambda: JSMap({1: 1, 2: 2})), "maxset": (1, lambda: JSSet([1, 2])), "maxfrozenset": (1, lambda: JSArray([frozenset({1, 2})])),
    "maxdeque": (1, lambda: JSArray([__import__("collections").deque([1, 2])])), "maxstring": (5, lambda: JSArray(["abcdefgh"])), "maxlong": (5, lambda: JSArray([10**10])),
    "maxother": (10, lambda: JSArray([1.2345678901234])), "fillvalue": ("@@", lambda: (lambda o: (o.__setitem__("a", o), o)[1])(JSObject())), "indent": (2, lambda: JSArray([1, 2])),
}  # fmt: skip


def probe():
    out = []
    for _field, (_v, make) in FIELDS.items():
        out.append(repr(make()))
    return tuple(out)


def expected(settings):
    """What the probes give under settings, by a JSRepr made for the purpose."""
    js = JSRepr(**settings)
    return tuple(js.repr(make()) for _v, make in FIELDS.values())


def defaults():
    return {f: getattr(default_js_repr, f) for f in FIELDS}


def fields_task(r):
    """Each field changes exactly what it names, and is restored."""
    base = probe()
    for f, (value, _m) in FIELDS.items():
        for g, (value2, _m2) in FIELDS.items():
            r.states += 1
            r.transitions += 2
            key = f"settings: {f} then {g}"
            with js_repr_settings(**{f: value}) as one:
                p1 = probe()
                with js_repr_settings(**{g: value2}) as two:
                    p2 = probe()
                p3 = probe()
            if probe() != base or p3 != p1:
                r.violation(key, "settings aren't restored")
            elif (getattr(one, f), getattr(two, f), getattr(two, g)) != (value, value, value2):
                r.violation(key, "the JSRepr given doesn't have the settings in force")
            elif p1 != expected({**defaults(), f: value}) or p2 != expected({**defaults(), f: value, g: value2}):
                r.violation(key, f"the settings in force aren't those asked for: {p1} {p2}")
            elif f != "indent" and p1[list(FIELDS).index(f)] == base[list(FIELDS).index(f)]:
                r.violation(key, f"{f}={value} has no effect: {p1}")
            else:
                r.traces += 1
    # a value of None is no setting, other than for indent
    with js_repr_settings(indent=2, maxstring=5):
        for f in FIELDS:
            r.states += 1
            p = probe()
            with js_repr_settings(**{f: None}):
                q = probe()
            want = expected({**defaults(), "maxstring": 5, "indent": None if f == "indent" else 2})
            if q != want or probe() != p:
                r.violation(f"settings: {f}=None", f"gives {q}, expected {want}")
    for bad in ({"bogus": 1}, {"maxlevels": 3}, {"max": 1}, {"js": 2}):
        for extra in ({}, {"maxstring": 5}, {"indent": 2}):
            r.states += 1
            try:
                with js_repr_settings(**extra, **bad):
                    r.violation(f"settings: {bad}", "is accepted")
            except TypeError:
                pass
            if probe() != base:
                r.violation(f"settings: {bad}", "a refused setting changes those in force")
            try:
                JSRepr(**extra, **bad)
                r.violation(f"settings: JSRepr({bad})", "is accepted")
            except TypeError:
                r.traces += 1


OPENERS = {
    "kw1": lambda shared: js_repr_settings(maxjsarray=1),
    "kw2": lambda shared: js_repr_settings(fillvalue="@@", indent=2),
    "obj": lambda shared: js_repr_settings(shared),
    "force": lambda shared: js_repr_settings(maxjsarray=2, force_restore=True),
    "forceobj": lambda shared: js_repr_settings(shared, force_restore=True),
}
KW = {"kw1": {"maxjsarray": 1}, "kw2": {"fillvalue": "@@", "indent": 2}, "force": {"maxjsarray": 2}}
SMALL = [lambda: JSArray([1, 2, 3]), lambda: JSMap({1: 1, 2: 2, 3: 3})]


for _f, (_v, _make) in FIELDS.items():
    OPENERS[f"field {_f}"] = lambda shared, kw={_f: _v}: js_repr_settings(**kw)
    KW[f"field {_f}"] = {_f: _v}
ORDERS = [
    (("open", 0), ("open", 1), ("close", 0), ("close", 1)),
    (("open", 0), ("open", 1), ("raise", 0), ("close", 1)),
    (("open", 0), ("open", 1), ("close", 1), ("close", 0)),
    (("open", 0), ("open", 1), ("open", 0), ("close", 1), ("close", 2), ("close", 0)),
]
KEEP = []


def orders_task(r, fields):
    """Contexts of every pair of fields exited in and out of order."""
    for f in fields:
        for g in FIELDS:
            for order in ORDERS:
                h = tuple((op, ("field " + (f, g)[x]) if op == "open" else x) for op, x in order)
                run_history(r, h, full)


def full(js=None):
    return tuple(js.repr(m()) if js else repr(m()) for _v, m in FIELDS.values())


def small(js=None):
    return tuple(js.repr(m()) if js else repr(m()) for m in SMALL)


def histories(max_open, length):
    """Sequences of ("open", kind) and ("close"|"raise", which open context)."""

    def rec(h, opened, closed):
        if h:
            yield h
        if len(h) == length:
            return
        if opened < max_open:
            for k in OPENERS:
                if k.startswith("field"):
                    continue
                yield from rec((*h, ("open", k)), opened + 1, closed)
        for i in range(opened):
            if i not in closed:
                for how in ("close", "raise"):
                    yield from rec((*h, (how, i)), opened, closed | {i})

    yield from rec((), 0, frozenset())


def history_task(r, max_open, length, part, parts):
    for n, h in enumerate(histories(max_open, length)):
        if n % parts == part:
            run_history(r, h)


def run_history(r, h, see=None):
    see = see or small
    base = see()
    shared = JSRepr(maxdict=2)
    shared_settings = {**{f: getattr(shared, f) for f in FIELDS}}
    force = {"force", "forceobj"}
    # model: the settings in force are (identity, settings)
    now = ("default", defaults())
    ctxs = []
    r.states += 1
    what = None
    for step, (op, x) in enumerate(h):
        r.transitions += 1
        if op == "open":
            cm = OPENERS[x](shared)
            js = cm.__enter__()
            new = ("shared", shared_settings) if x in ("obj", "forceobj") else (f"ctx{len(ctxs)}", {**now[1], **KW[x]})
            ctxs.append((cm, now, new, x))
            now = new
            if {f: getattr(js, f) for f in FIELDS} != new[1]:
                what = f"step {step}: the JSRepr given has other settings than those asked for"
        else:
            cm, before, new, kind = ctxs[x]
            e = KeyError("from the block") if op == "raise" else None
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                try:
                    swallowed = cm.__exit__(type(e) if e else None, e, None)
                    if swallowed:
                        what = f"step {step}: swallows the block's exception"
                except KeyError as got:
                    if got is not e:
                        what = f"step {step}: raises {got!r}"
            warned = [w for w in caught if issubclass(w.category, JSReprSettingsNotRestored)]
            in_order = now[0] == new[0]
            if in_order or kind in force:
                now = before
            if bool(warned) != (not in_order and kind not in force):
                what = f"step {step}: {'warns' if warned else 'does not warn'}"
        want = see(JSRepr(**now[1]))
        if see() != want:
            what = what or f"step {step}: the settings in force are not those of {now[0]}: {see()}"
        if what:
            break
    if what:
        r.violation(f"settings history: {h}", what, f"{PRE}r = __import__('mc.core').core.Result()\nrun_history(r, {h!r})\nprint(r.violations)")
    else:
        r.traces += 1
        r.outcomes["history"] += 1
    # leave the process as it was (contexts that are collected are exited)
    KEEP.extend(ctxs)
    KEEP.append(js_repr_settings(default_js_repr))
    KEEP[-1].__enter__()
    if see() != base:
        r.violation("settings", "the default settings have changed")


# -- E: foreign values and failures -----------------------------------------------


def foreign_task(r):
    class Stop(BaseException):
        pass

    class Raises:
        def __init__(self, e):
            self.e = e

        def __repr__(self):
            if self.e:
                raise self.e
            return "Raises()"

    class Back:
        def __init__(self):
            self.target = None

        def __repr__(self):
            return f"Back({self.target!r})"

    class Deep:
        def __repr__(self):
            with js_repr_settings(maxjsarray=1):
                return f"Deep({JSArray([1, 2])!r})"

    def wraps(x):
        return {
            "JSObject": JSObject(a=x), "JSArray": JSArray([x]), "sparse": JSArray({5000: x}), "prop": JSArray([1], **{"a b": x}), "JSMap": JSMap([("k", x)]), "JSMap key": JSMap([(x, 1)]),
            "JSSet": JSSet([x]), "JSError": JSError("m", cause=x), "JSErrorData": JSErrorData("m", cause=x), "boxed": JSObject(a=JSMap({1: JSArray([x])})),
        }  # fmt: skip

    for e in (ValueError("no"), KeyboardInterrupt(), Stop(), RecursionError(), MemoryError()):
        bad = Raises(e)
        for name, v in wraps(bad).items():
            r.states += 1
            r.transitions += 3
            try:
                text = repr(v)
                if not isinstance(e, Exception):
                    r.violation(f"raising: {name} {e!r}", f"swallows {type(e).__name__}: {text}")
                    continue
            except BaseException as got:  # noqa: B036
                if got is not e:
                    r.violation(f"raising: {name} {e!r}", f"raised {exc_summary(got)}")
                    continue
            bad.e = None
            text = repr(v)
            bad.e = e
            if "Raises()" not in text or "..." in text:
                r.violation(f"raising: {name} {e!r}", f"after a failed repr(), it is {text}")
                continue
            # the same when it fails within others
            outer = JSArray([v, 1])
            with contextlib.suppress(BaseException):
                repr(outer)
            bad.e = None
            text = repr(outer)
            bad.e = e
            if "Raises()" not in text or "..." in text:
                r.violation(f"raising: {name} {e!r}", f"after a failed repr() of its container, that is {text}")
            else:
                r.traces += 1
    for name in wraps(0):
        b = Back()
        v = b.target = wraps(b)[name]
        r.states += 1
        r.transitions += 1
        text = repr(v)
        if text.count("Back(") != 1 or text.count("...") != 1 or repr(v) != text:
            r.violation(f"foreign: {name}", f"is {text}")
        else:
            r.traces += 1
    plain = repr(JSArray([1, 2]))
    for name, v in wraps(Deep()).items():
        r.states += 1
        if "Deep(JSArray([1, ...]))" not in repr(v) or repr(JSArray([1, 2])) != plain:
            r.violation(f"foreign settings: {name}", f"is {v!r}")
        else:
            r.traces += 1
    # a context manager as a decorator, entered again within itself

    @js_repr_settings(maxjsarray=1)
    def rec(n):
        if n == 3:
            raise KeyError
        text = repr(JSArray([1, 2]))
        with contextlib.suppress(KeyError):
            rec(n + 1)
        return text == repr(JSArray([1, 2])) == "JSArray([1, ...])"

    r.states += 1
    if not rec(0) or repr(JSArray([1, 2])) != plain:
        r.violation("settings: decorator", "settings aren't restored")
    # long chains end one way or another
    for n in (50, 150):
        for mk in (lambda x: JSObject(a=x), lambda x: JSErrorData("m", cause=x), lambda x: JSMap([(x, x)]) if n < 0 else JSMap([("k", x)]), lambda x: JSError("m", cause=x), lambda x: JSSet([x])):
            v = 1
            for _ in range(n):
                v = mk(v)
            r.states += 1
            with time_limit(20):
                repr(v)
            r.traces += 1


# -- D: threads -------------------------------------------------------------------


def thread_task(r, which, part):
    def cyc(k):
        o = make_graph(*{
            "obj": (("obj", "arr"), ((1, "x"), (0, "y"))),
            "map": (("map", "set"), ((1, 0), (0, "x"))),
            "err": (("jserror", "obj"), ((1, "x"), (0, "x"))),
            "data": (("data", "obj"), ((1, "x"), (0, "x"))),
        }[k])
        return o

    a, b = which
    alone = [repr(cyc(a)[0]), repr(cyc(b)[1 if a == b else 0])]

    def make():
        o = cyc(a)
        p = o if a == b else cyc(b)
        return (lambda: repr(o[0])), (lambda: repr(p[1 if a == b else 0]))

    def judge(results):
        if [x for _, x in results] != alone:
            return f"gives {results}, alone {alone}"
        return None

    sched.explore(r, f"repr {which}", make, judge, part=part, snippet=PRE)
    r.states += 1


def main(check):
    t = check.thorough
    check.bounds = {
        "values": "every leaf in every position; every tower of containers of depth 2 (3); all pairs of confusable values; all pairs of keys; all arrays of up to 3 (4) elements",
        "cyclic": "all graphs of up to 3 containers with 2 slots, from 8 kinds",
        "settings": "all pairs of fields; all open/close/raise histories of up to 5 (6) steps, 3 contexts",
        "threads": "all schedules of two concurrent reprs with up to 2 preemptions at line granularity",
    }
    check.assumptions = [
        "enum members are written <Enum.Member: value> (as tests require) and read as Enum.Member",
        "views of memoryviews show the memoryview's address (as tests require)",
        "subclasses of JS types and non-contiguous memoryviews are not explored",
    ]
    check.phase("leaves", [(leaves_task, (i, 8)) for i in range(8)])
    check.phase("nested", [(nested_task, (d, i, 8)) for d in ((1, 2, 3) if t else (1, 2)) for i in range(8)])
    check.phase("pairs", [(pair_task, (i, 8)) for i in range(8)])
    check.phase("keys", [(keys_task, (i, 8)) for i in range(8)])
    check.phase("arrays", [(arrays_task, (n,)) for n in range(5 if t else 4)])
    check.phase("limits", [(limit_task, ())])
    kinds = ("obj", "arr", "map", "mapkey", "set", "data", "jserror", "list", "dict")
    cyc = [(cyclic_task, (n, kinds, i, 8)) for n in (1, 2) for i in range(8)]
    cyc += [(cyclic_task, (3, kinds if t else ("obj", "arr", "map", "data", "list"), i, 32)) for i in range(32 if t else 4)]
    check.phase("cyclic", cyc)
    check.phase("fields", [(fields_task, ())])
    check.phase("histories", [(history_task, (3, 6 if t else 5, i, 16)) for i in range(16)])
    check.phase("orders of settings", [(orders_task, (c,)) for c in chunks(FIELDS, 8)])
    check.phase("foreign", [(foreign_task, ())])
    pairs = [("obj", "obj"), ("map", "map"), ("obj", "err"), ("data", "data")]
    check.phase("threads", [(thread_task, (w, (i, 8))) for w in pairs for i in range(8)])


JSRegExpFlag, JSUint8Array  # noqa: B018
