"""C09: JSObject and JSArray behave like JavaScript objects and arrays."""

from __future__ import annotations

import itertools
import json

from v8serialize.jstypes import JSArray, JSHole, JSObject

from .. import nodejs, wire
from ..core import CaseTimeout, chunks, exc_summary, time_limit
from ..space import Space

HOLE = JSHole
MAX_INDEX = 2**32 - 2


def canon(k):
    """ToPropertyKey, with array indexes as ints (C11 checks this in depth)."""
    name = wire.js_number_string(k) if isinstance(k, float) else str(k)
    if name.isascii() and name.isdecimal() and len(name) <= 10 and str(int(name)) == name and int(name) <= MAX_INDEX:
        return int(name)
    return name


class Model:
    """What the JavaScript object holds: indexes, names, an array's length."""

    def __init__(self, items=(), is_array=False):
        self.idx, self.names, self.is_array, self.length = {}, {}, is_array, 0
        for k, v in items:
            self[k] = v

    def __setitem__(self, k, v):
        k = canon(k)
        d = self.idx if isinstance(k, int) else self.names
        if isinstance(k, int):
            self.length = max(self.length, k + 1)
        if v is HOLE:  # create the property, then delete it
            d.pop(k, None)
        else:
            d[k] = v

    def _dict(self):
        return {**{k: self.idx[k] for k in sorted(self.idx)}, **self.names}

    def __getitem__(self, k):
        return self._dict()[canon(k)]

    def __delitem__(self, k):
        k = canon(k)
        del (self.idx if isinstance(k, int) else self.names)[k]

    def __contains__(self, k):
        return canon(k) in self._dict()

    def __iter__(self):
        return iter(self._dict())

    def __len__(self):
        return len(self._dict())

    def keys(self):
        return self._dict().keys()

    def values(self):
        return self._dict().values()

    def items(self):
        return self._dict().items()

    def get(self, k, d=None):
        return self._dict().get(canon(k), d)

    def pop(self, k, *d):
        if k not in self and d:
            return d[0]
        v = self[k]
        del self[k]
        return v

    def popitem(self):
        d = self._dict()
        if not d:
            raise KeyError
        k = next(iter(d))
        return k, self.pop(k)

    def clear(self):
        self.idx, self.names = {}, {}

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k] if d is not HOLE or k in self else d

    def update(self, other=(), /, **kw):
        pairs = [(k, other[k]) for k in other.keys()] if hasattr(other, "keys") else list(other)
        for k, v in [*pairs, *kw.items()]:
            self[k] = v

    # the views
    @property
    def array(self):
        return ModelArray(self)

    @property
    def properties(self):
        return self.names


class ModelArray:
    def __init__(self, m):
        self.m = m

    def __len__(self):
        return self.m.length

    def _list(self):
        return [self.m.idx.get(i, HOLE) for i in range(self.m.length)]

    def __iter__(self):
        return iter(self._list())

    def __getitem__(self, i):
        j = i + self.m.length if i < 0 else i
        if not 0 <= j < self.m.length:
            raise IndexError
        return self.m.idx.get(j, HOLE)

    def __setitem__(self, i, v):
        self[i]
        self.m[i + self.m.length if i < 0 else i] = v

    def _put(self, values):
        self.m.length = len(values)
        self.m.idx = {i: v for i, v in enumerate(values) if v is not HOLE}

    def append(self, v):
        self.m[self.m.length] = v

    def extend(self, vs):
        for v in list(vs):
            self.append(v)

    def pop(self, i=-1):
        values = self._list()
        v = values.pop(i)
        self._put(values)
        return v

    def reverse(self):
        self._put(self._list()[::-1])

    def insert(self, i, v):
        values = self._list()
        values.insert(i, v)
        self._put(values)

    def __delitem__(self, i):
        values = self._list()
        del values[i]
        self._put(values)

    def clear(self):
        self._put([])

    def resize(self, n):
        self.m.idx = {k: v for k, v in self.m.idx.items() if k < n}
        self.m.length = n

    @property
    def elements_used(self):
        return len(self.m.idx)

    def elements(self):
        return {k: self.m.idx[k] for k in sorted(self.m.idx)}


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(i) for i in v]
    return v if v is None or type(v) in (str, bool, int) else repr(v)


PROBES = [0, 1, "0", "1", 1.0, 2, 15, "16", 31, "a", "b", "01", -1, "-1", 2**32 - 2, "4294967294", 2**32 - 1, "4294967295", 1.5, "", -0.0, 10**6]


def observe(o):
    keys = list(o)
    is_array = o.is_array if isinstance(o, Model) else isinstance(o, JSArray)
    elements = dict(o.array.elements())
    out = {
        "keys": norm(keys),
        "items()": norm(list(o.items())),
        "values()": norm(list(o.values())),
        "keys()": norm(list(o.keys())),
        "len()": len(o),
        "bool()": bool(o),
        "getitem": [norm(o[k]) for k in keys],
        "getitem by name": [norm(o[str(k)]) for k in keys],
        "get": [norm(o.get(p, "none")) for p in PROBES],
        "in": [p in o for p in PROBES],
        "array.elements()": norm(list(elements.items())),
        "array.elements_used": o.array.elements_used,
        "properties": norm(list(o.properties.items())),
    }
    if is_array:
        out["array length"] = len(o.array)
        out["last"] = norm(o.array[-1]) if len(o.array) else None
        if len(o.array) < 200:
            out["array"] = norm(list(o.array))
    else:
        n = len(o.array)
        out["array long enough"] = n > max(elements, default=-1)
        if n < 200:
            out["array"] = [norm(v) for i, v in enumerate(o.array) if v is not HOLE]
    return out


SCOPE = {"HOLE": HOLE, "JSObject": JSObject, "JSArray": JSArray, "it": iter}
PRELUDE = "from v8serialize.jstypes import JSObject, JSArray, JSHole as HOLE\nit = iter\n"


def key_ops(keys, values, full):
    """Statements about each of the keys."""
    out = []
    for k in keys:
        k = repr(k)
        out += [f"a[{k}] = {v}" for v in values]
        out += [f"a[{k}] = HOLE", f"del a[{k}]"]
        if full:
            out += [f"r = a[{k}]", f"r = a.get({k})", f"r = a.get({k}, 'd')", f"r = {k} in a", f"r = a.pop({k})", f"r = a.pop({k}, 'd')"]
            out += [f"r = a.setdefault({k}, 'sd')", f"r = a.setdefault({k})", f"a.update({{{k}: 'u'}})", f"a.update([({k}, 'u'), ({k}, 'u2')])"]
            out += [f"a.update({{{k}: HOLE}}, b='kw')", f"a.update({{{k}: 'u'}}.items())", f"a.update(JSObject([({k}, 'jo')]))"]
            out += [f"a.update(it([({k}, 'i')]))", f"a |= {{{k}: 1}}" if False else f"a.update(JSArray({{{k}: 'ja'}}))"]
    return out


def whole_ops(array):
    out = ["a.clear()", "r = list(a.popitem())", "a.update(a)", "a.update()", "a.update(b=1, a=2)", "r = list(a.items())"]
    out += ["r = [a.pop(k) for k in list(a)]", "a.update({'z': 1, 0: 2, '1': 3})", "r = [k for k in a if a.get(k) == 'x']"]
    out += ["r = list(reversed(list(a.keys())))"]
    if array:
        out += ["a.array.append('p')", "a.array.append(HOLE)", "a.array.extend(['p', HOLE, 'q'])", "r = a.array.pop()", "a.array.reverse()"]
        out += ["a.array.insert(0, 'i')", "del a.array[0]", "a.array.clear()", "a.array.resize(1)", "a.array.resize(20)", "a.array[-1] = 'l'", "a.array[-1] = HOLE"]
        out += ["r = a.array.pop(0)", "a.array[0] = 'f'", "a.array[99] = 'f'"]
    return out


def make_inits(cls):
    name, is_array = cls.__name__, cls is JSArray
    out = {f"{name}()": (cls, lambda: Model(is_array=is_array))}
    for items in (
        [(0, "x"), (1, "y"), (2, "z")], [("b", 1), ("a", 2)], [("b", 1), (3, "t"), ("a", 2), ("0", "z")], [(20, "far")],
        [(i, i) for i in range(16)], [(i, i) for i in range(0, 64, 4)], [(2**32 - 2, "last"), (2**32 - 1, "name"), ("n", 1)],
        [(10**6, "m"), ("n", 1), (0, "z")], [(15, "x")], [(14, "x")], [(0, HOLE), (1, "x"), (2, HOLE)],
    ):  # fmt: skip
        src = ", ".join(f"({k!r}, {'HOLE' if v is HOLE else repr(v)})" for k, v in items)
        src = f"{name}(dict([{src}]))" if is_array else f"{name}([{src}])"
        out[src] = ((lambda items=items: cls(dict(items))), (lambda items=items: Model(items, is_array)))
    return out


def bfs_task(r, cls, init_part, keys, values, depth, full, max_index):
    inits = make_inits(cls)
    inits = dict(list(inits.items())[init_part[0] :: init_part[1]])
    sp = Space(
        r, cls.__name__, SCOPE, norm, observe, prelude=PRELUDE,
        key=lambda m: f"{sorted(m.idx.items(), key=repr)} {list(m.names.items())} {m.length}",
    )  # fmt: skip

    def ops(m):
        out = key_ops(keys, values, full) + (whole_ops(m.is_array) if full else [])
        if m.length > 200:  # the list view of the model is for short arrays
            out = [s for s in out if not any(w in s for w in (".array.pop", ".array.reverse", ".array.insert", "del a.array", ".array.extend", ".array.append"))]
        return out

    sp.explore(inits, ops, depth)
    r.sample(f"{cls.__name__} from {list(inits)[0]}", 1)


def construct_task(r):
    """Constructors."""
    holes = ["x", HOLE, "y", HOLE]
    cases = {
        "JSObject(a=1, b=2)": (lambda: JSObject(a=1, b=2), Model([("a", 1), ("b", 2)])),
        "JSObject({'a': 1}, a=2, c=3)": (lambda: JSObject({"a": 1}, a=2, c=3), Model([("a", 2), ("c", 3)])),
        "JSObject({'b': 1, 5: 2, '1': 3}, **{'3': 4})": (
            lambda: JSObject({"b": 1, 5: 2, "1": 3}, **{"3": 4}), Model([("b", 1), (5, 2), (1, 3), (3, 4)])),
        "JSObject(self=1, properties=2, key=3)": (
            lambda: JSObject(self=1, properties=2, key=3), Model([("self", 1), ("properties", 2), ("key", 3)])),
        "JSObject(iter(pairs))": (lambda: JSObject(iter([("a", 1), ("0", 2)])), Model([("a", 1), (0, 2)])),
        "JSObject(JSObject)": (lambda: JSObject(JSObject({7: 1}, n=2)), Model([(7, 1), ("n", 2)])),
        "JSObject(JSArray)": (lambda: JSObject(JSArray(holes, n=2)), Model([(0, "x"), (2, "y"), ("n", 2)])),
        "JSArray(list)": (lambda: JSArray(holes), Model(enumerate(holes), True)),
        "JSArray(iter)": (lambda: JSArray(iter(holes)), Model(enumerate(holes), True)),
        "JSArray(str)": (lambda: JSArray("abc"), Model(enumerate("abc"), True)),
        "JSArray(pairs)": (lambda: JSArray([("a", 1)]), Model([(0, ("a", 1))], True)),
        "JSArray(list, kw)": (lambda: JSArray(["x"], n=1, **{"0": "o", "5": "p"}), Model([(0, "o"), ("n", 1), (5, "p")], True)),
        "JSArray(kw)": (lambda: JSArray(self=1, properties=2), Model([("self", 1), ("properties", 2)], True)),
        "JSArray(dict)": (lambda: JSArray({"n": 1, 3: "t"}), Model([("n", 1), (3, "t")], True)),
        "JSArray(JSArray)": (lambda: JSArray(JSArray(["x", "y"], n=1)), Model([(0, "x"), (1, "y"), ("n", 1)], True)),
        "JSArray(JSArray.array)": (lambda: JSArray(JSArray(holes).array), Model(enumerate(holes), True)),
        "JSArray(range)": (lambda: JSArray(range(40)), Model(enumerate(range(40)), True)),
        "JSArray([hole]*40)": (lambda: JSArray([HOLE] * 40), Model(enumerate([HOLE] * 40), True)),
    }  # fmt: skip
    sp = Space(r, "constructor", SCOPE, norm, observe, prelude=PRELUDE)
    for src, (make, model) in cases.items():
        r.states += 1
        r.transitions += 1
        try:
            bad = sp.compare(make(), model)
        except Exception as e:
            bad = f"raised {exc_summary(e)}"
        if bad:
            sp.report(src, (), bad)
        else:
            r.traces += 1
    # copies are independent
    for cls, src in itertools.product((JSObject, JSArray), (JSObject({0: 1}, a=1), JSArray([1], a=1))):
        r.states += 1
        before = observe(src)
        new = cls(src)
        new["b"] = 2
        new[0] = 5
        new.array.append("x")
        del new["a"]
        if observe(src) != before:
            sp.report(f"{cls.__name__}({src!r})", (), "changing the new object changes the old one")
    # only .array gives write access to part of it
    o = JSObject(a=1)
    for attempt in (lambda: o.properties.__setitem__("0", 1), lambda: o.properties.__delitem__("a"), lambda: o.properties.clear()):
        try:
            attempt()
        except (TypeError, AttributeError):
            continue
        r.violation("properties are writable", f"properties allows writing: {o!r}", "")


# -- the model against V8 -----------------------------------------------------

JS_RUN = """(() => { const FNS = %s, INITS = %s; const out = [];
const f = FNS.map((s) => eval('((a) => {' + s + '})'));
const run = (d, path) => {
  for (const init of INITS) {
    const a = eval('(' + init + ')');
    for (const i of path) f[i](a);
    out.push([Object.entries(a), Array.isArray(a) ? a.length : null]);
  }
  if (d > 0) for (let i = 0; i < f.length; i++) run(d - 1, [...path, i]);
};
run(%d, %s);
return out; })()"""


def js_key(k):
    return json.dumps(k) if isinstance(k, str) else ("-0" if k == 0 and str(k)[0] == "-" else repr(k))


def statements(keys, array):
    """(JavaScript, Python)"""
    out = []
    for k in keys:
        j, p = js_key(k), repr(k)
        out.append((f"a[{j}] = 'x'", f"a[{p}] = 'x'"))
        out.append((f"delete a[{j}]", f"a.pop({p}, None)"))
    out.append(("Object.assign(a, {z: 1, 1: 'q'})", "a.update({'z': 1, 1: 'q'})"))
    if array:
        out.append(("a.length < 9e8 && a.push('p')", "len(a.array) < 9e8 and a.array.append('p')"))
        out.append(("a.length = 2", "a.array.resize(2)"))
        out.append(("if (a.length < 9e8) a.length += 1", "len(a.array) < 9e8 and a.array.append(HOLE)"))
        out.append(("if (a.length < 9e8) a.pop()", "0 < len(a.array) < 9e8 and a.array.pop()"))
        out.append(("Object.assign(a, [, 's'])", "a.update(JSArray([HOLE, 's']))"))
    return out


JS_INITS = [("{}", "JSObject()"), ("{b: 1, 2: 'y', a: 2}", "JSObject([('b', 1), (2, 'y'), ('a', 2)])")]
JS_ARRAYS = [("[]", "JSArray()"), ("['x', , 'y']", "JSArray(['x', HOLE, 'y'])"), ("Object.assign(['k'], {n: 1})", "JSArray(['k'], n=1)")]


def v8_task(r, array, keys, depth, first):
    """Every sequence of statements, in V8, in the model, and in the code."""
    st = statements(keys, array)
    inits = JS_ARRAYS if array else JS_INITS
    src = JS_RUN % (json.dumps([s[0] for s in st]), json.dumps([i[0] for i in inits]), depth - 1, json.dumps(first))
    reply = nodejs.batch([{"op": "eval", "src": src}])[0]
    if "err" in reply:
        raise RuntimeError(reply["err"])
    results = iter(reply["ok"])

    def run(d, path):
        for _js, py in inits:
            entries, length = next(results)
            r.states += 1
            r.transitions += 1
            compare_v8(r, array, py, [st[i][1] for i in path], entries, length)
        if d > 0:
            for i in range(len(st)):
                run(d - 1, [*path, i])

    run(depth - 1, list(first))
    r.sample([st[i] for i in first], 1)


def compare_v8(r, array, init, path, entries, length):
    want = [[k, v] for k, v in entries]
    # the model
    scope = dict(SCOPE)
    src = f"a = {init}\n" + "\n".join(path)
    m = eval(init, {**SCOPE, "JSObject": lambda *a, **k: model_of(False, *a, **k), "JSArray": lambda *a, **k: model_of(True, *a, **k)})
    local = {"a": m}
    for s in path:
        exec(s, scope, local)
    if [[str(k), v] for k, v in m.items()] != want or (array and m.length != length):
        raise RuntimeError(f"the model differs from V8 after {src}: {list(m.items())} {m.length} {want} {length}")
    local = {}
    try:
        with time_limit(20):
            exec(src, scope, local)
            a = local["a"]
            got = [[str(k), v] for k, v in a.items()]
            n = len(a.array) if array else None
    except CaseTimeout:
        got, n = "did not terminate", None
    except Exception as e:
        got, n = exc_summary(e), None
    if got != want or (array and n != length):
        r.violation(f"V8: {init}; {'; '.join(path)}"[:300], f"{got} length {n}, in JavaScript {want} length {length}", PRELUDE + src + "\nprint(list(a.items()))")
    else:
        r.traces += 1
        r.outcomes[f"{len(want)} properties, length {length}"] += 1


def model_of(is_array, items=(), **kw):
    if is_array and not hasattr(items, "keys"):
        items = enumerate(items)
    m = Model(items, is_array)
    m.update(**kw)
    return m


def main(check):
    t = check.thorough
    tasks = []
    n = len(make_inits(JSObject))
    for cls in (JSObject, JSArray):
        small = [0, "1", 2.0, "a", "b"]
        odd = ["01", -1, 2**32 - 2, 2**32 - 1, 15, "16", "a", 10**6, -0.0, 1.5]
        for p in range(n):
            tasks += [(bfs_task, (cls, (p, n), small, ["'x'", "None"], 3 if t else 2, True, 200))]
            tasks += [(bfs_task, (cls, (p, n), odd, ["'x'"], 3 if t else 2, t, 200))]
            tasks += [(bfs_task, (cls, (p, n), [0, 1, 2, "a", "b"], ["'x'"], 5 if t else 4, False, 200))]
        spread = [0, 4, 15, 16, 17, 63, 64, 65, 300, "n"]
        for p in range(n):
            tasks += [(bfs_task, (cls, (p, n), spread, ["'x'"], 4 if t else 3, False, 200))]
    check.phase("operation sequences", tasks)
    check.phase("constructors", [(construct_task, ())])
    keys = [0, "1", 3, "a", "b", 40]
    odd = ["-1", "01", -1, 2**32 - 2, "4294967295", 1.5]
    tasks = []
    for array in (False, True):
        for ks, d in ((keys, 4 if t else 3), (odd, 3 if t else 3)):
            k = len(statements(ks, array))
            tasks += [(v8_task, (array, ks, d, (i,))) for i in range(k)]
        tasks.append((v8_task, (array, keys, 1, ())))
    check.phase("sequences in V8", tasks)
    check.bounds = {"operations": "2 to 4 (3 to 5 thorough)", "V8 sequences": 4 if t else 3}
    check.assumptions = [
        "assigning JSHole is creating the property and deleting it",
        "operations on .array are those of the list it documents to be (C10)",
    ]


chunks  # noqa: B018
