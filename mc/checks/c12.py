"""C12: JSMap and JSSet follow JavaScript's same-value-zero and order rules."""

from __future__ import annotations

import datetime
import itertools
import json
import math

from v8serialize.jstypes import JSHole, JSMap, JSObject, JSPrimitiveObject, JSRegExp, JSSet, JSUndefined, same_value_zero

from .. import nodejs
from ..core import CaseTimeout, chunks, exc_summary, time_limit
from ..space import Space

# every kind of value, with the JavaScript values they stand for
VALUES = {
    "1": (1, "1"), "1.0": (1.0, "1.0"), "True": (True, "true"), "'1'": ("1", "'1'"), "0": (0, "0"), "-0.0": (-0.0, "-0"),
    "False": (False, "false"), "NAN": (math.nan, "NaN"), "NAN2": (-float("nan"), "NaN"), "None": (None, "null"),
    "UNDEF": (JSUndefined, "undefined"), "''": ("", "''"), "1.5": (1.5, "1.5"), "-1": (-1, "-1"), "2**53": (2**53, "2**53"),
    "2.0**53": (2.0**53, "2**53"), "'ab'": ("ab", "'ab'"), "AB": ("".join(["a", "b"]), "'a' + 'b'"), "INF": (math.inf, "Infinity"),
    "L1": ([0], "O[0]"), "L2": ([0], "O[1]"), "T1": (tuple([0]), "O[2]"), "T2": (tuple([0]), "O[3]"), "J1": (JSObject(a=1), "O[4]"),
    "J2": (JSObject(a=1), "O[5]"), "D1": (datetime.datetime(2020, 1, 1), "O[6]"), "D2": (datetime.datetime(2020, 1, 1), "O[7]"),
    "P1": (JSPrimitiveObject(1), "O[8]"), "P2": (JSPrimitiveObject(1), "O[9]"), "R1": (JSRegExp("a"), "O[10]"), "R2": (JSRegExp("a"), "O[11]"),
    "F1": (frozenset([1]), "O[12]"), "F2": (frozenset([1, 2]) - {2}, "O[13]"), "S1": (JSSet([1]), "O[14]"), "E1": (ValueError("x"), "O[15]"),
}  # fmt: skip
SCOPE = {k: v for k, (v, _) in VALUES.items() if k.isidentifier() and k not in ("True", "False", "None")}
NAMES = {id(v): k for k, (v, _) in VALUES.items()}
SCOPE |= {"JSMap": JSMap, "JSSet": JSSet, "HOLE": JSHole, "it": iter}
PRELUDE = (
    "import datetime, math\nfrom v8serialize.jstypes import *\nfrom v8serialize.jstypes import JSUndefined as UNDEF\n"
    "NAN, NAN2, INF, AB = math.nan, -float('nan'), math.inf, ''.join(['a', 'b'])\nL1, L2, T1, T2 = [0], [0], tuple([0]), tuple([0])\n"
    "J1, J2, D1, D2 = JSObject(a=1), JSObject(a=1), datetime.datetime(2020, 1, 1), datetime.datetime(2020, 1, 1)\n"
    "P1, P2, R1, R2 = JSPrimitiveObject(1), JSPrimitiveObject(1), JSRegExp('a'), JSRegExp('a')\n"
    "F1, F2, S1, E1 = frozenset([1]), frozenset([1, 2]) - {2}, JSSet([1]), ValueError('x')\nit = iter\n"
)


def same(v):
    """JavaScript's same-value-zero, as a key."""
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, (int, float)):
        return ("num", "nan" if v != v else int(v) if abs(v) < 2**60 and v == int(v) else v)
    if v is None or v is JSUndefined or v is JSHole:
        return ("const", repr(v))
    if isinstance(v, (str, bytes)):
        return (type(v).__name__, v)
    return ("object", id(v))


def norm(v):
    """Results, naming objects; numbers that JavaScript doesn't distinguish are the same."""
    if id(v) in NAMES and same(v)[0] == "object":
        return f"<{NAMES[id(v)]}>"
    if isinstance(v, (list, tuple)):
        return [norm(i) for i in v]
    if isinstance(v, (JSSet, SetModel)):
        return ["set", sorted(repr(norm(i)) for i in v)]
    if v is NotImplemented or isinstance(v, dict):
        return repr(v)
    s = same(v)
    return s if s[0] != "object" else f"<{type(v).__name__} object>"


class MapModel:
    def __init__(self, items=()):
        self.d = {}
        self.update(items)

    def __setitem__(self, k, v):
        self.d[same(k)] = (k, v)

    def __getitem__(self, k):
        if same(k) not in self.d:
            raise KeyError(k)
        return self.d[same(k)][1]

    def __delitem__(self, k):
        self[k]
        del self.d[same(k)]

    def __contains__(self, k):
        return same(k) in self.d

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter([k for k, _ in self.d.values()])

    def keys(self):
        return list(self)

    def values(self):
        return [v for _, v in self.d.values()]

    def items(self):
        return list(self.d.values())

    def get(self, k, d=None):
        return self[k] if k in self else d

    def pop(self, k, *d):
        if k not in self and d:
            return d[0]
        v = self[k]
        del self[k]
        return v

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def clear(self):
        self.d = {}

    def update(self, other=(), /, **kw):
        pairs = [(k, other[k]) for k in list(other.keys())] if hasattr(other, "keys") else list(other)
        for k, v in [*pairs, *kw.items()]:
            self[k] = v

    def popitem(self):
        if not self.d:
            raise KeyError
        k = next(iter(self))
        return k, self.pop(k)

    def __eq__(self, other):
        items = list(other.items())
        if len(items) != len(self):
            return False
        if not isinstance(other, (JSMap, MapModel)):
            try:
                return dict(self.items()) == dict(items)
            except TypeError:
                pass
        return items == self.items()


class SetModel:
    def __init__(self, values=()):
        self.d = {}
        for v in values:
            self.add(v)

    def add(self, v):
        self.d.setdefault(same(v), v)

    def discard(self, v):
        self.d.pop(same(v), None)

    def remove(self, v):
        if v not in self:
            raise KeyError(v)
        self.discard(v)

    def __contains__(self, v):
        return same(v) in self.d

    def __iter__(self):
        return iter(list(self.d.values()))

    def __len__(self):
        return len(self.d)

    def clear(self):
        self.d = {}

    def pop(self):
        if not self.d:
            raise KeyError
        v = next(iter(self))
        self.discard(v)
        return v

    def _of(self, other):
        return other if isinstance(other, SetModel) else SetModel(other)

    def __or__(self, o):
        return SetModel([*self, *o])

    def __and__(self, o):
        o = self._of(o)
        return SetModel([v for v in self if v in o])

    def __sub__(self, o):
        o = self._of(o)
        return SetModel([v for v in self if v not in o])

    def __xor__(self, o):
        o = self._of(o)
        return SetModel([*[v for v in self if v not in o], *[v for v in o if v not in self]])

    def __ror__(self, o):
        return self._of(o) | self

    def __rand__(self, o):
        return self._of(o) & self

    def __rsub__(self, o):
        return self._of(o) - self

    def __rxor__(self, o):
        return self._of(o) ^ self

    def _become(self, other):
        self.d = dict(other.d)
        return self

    def __ior__(self, o):
        return self._become(self | o)

    def __iand__(self, o):
        return self._become(self & o)

    def __isub__(self, o):
        return self._become(self - o)

    def __ixor__(self, o):
        return self._become(self ^ o)

    def isdisjoint(self, o):
        return not len(self & o)

    def __le__(self, o):
        return not len(self - o)

    def __ge__(self, o):
        return not len(self._of(o) - self)

    def __lt__(self, o):
        return self <= o and len(self) < len(self._of(o))

    def __gt__(self, o):
        return self >= o and len(self) > len(self._of(o))

    def __eq__(self, o):
        if len(o) != len(self):
            return False
        if not isinstance(o, (JSSet, SetModel)):
            try:
                return set(self) == set(o)
            except TypeError:
                pass
        return list(self) == list(o)


def observe_map(m):
    return {
        "items": norm(list(m.items())), "list()": norm(list(m)), "keys()": norm(list(m.keys())), "values()": norm(list(m.values())),
        "len()": len(m), "bool()": bool(m), "in": [v in m for v, _ in VALUES.values()], "get": [norm(m.get(v, "none")) for v, _ in VALUES.values()],
        "getitem": [norm(m[k]) for k in list(m)], "in keys()": [v in m.keys() for v, _ in VALUES.values()] if isinstance(m, JSMap) else
        [v in m for v, _ in VALUES.values()],
    }  # fmt: skip


def observe_set(s):
    return {
        "list()": norm(list(s)), "len()": len(s), "bool()": bool(s), "in": [v in s for v, _ in VALUES.values()],
    }  # fmt: skip


def map_ops(keys, full):
    def f(m):
        out = ["a.clear()", "r = JSSet([a.popitem()[0] for _ in range(len(a))])", "a.popitem() if not a else 0"]
        for k in keys:
            out += [f"a[{k}] = 'v'", f"a[{k}] = 'w'", f"del a[{k}]"]
            if full:
                out += [f"r = a[{k}]", f"r = a.get({k})", f"r = a.get({k}, 'd')", f"r = {k} in a", f"r = a.pop({k})", f"r = a.pop({k}, 'd')"]
                out += [f"r = a.pop({k}, None)", f"r = a.setdefault({k}, 'sd')", f"r = a.setdefault({k})", f"a.update([({k}, 'u'), ({k}, 'u2')])"]
                out += [f"a.update(it([({k}, 'u')]), b=2)", f"a.update(JSMap([({k}, 'jm')]))", f"r = a == JSMap([({k}, 'v')])"]
        if full:
            out += ["a.update({1: 'd', 'z': 2, True: 't'})", "a.update()", "a.update(z=1)", "a.update(a)"]
            out += ["r = a == {1: 'v'}", "r = a == {'ab': 'v', 1.0: 'v'}", "r = a == {'1': 'w'}", "r = a == {}", "r = a != {1: 'v'}"]
            out += ["r = a == JSMap()", "r = a == JSMap(list(a.items()))", "r = a == JSMap(list(a.items())[::-1])", "r = a == dict((k, v) for k, v in a.items() if isinstance(k, str))"]
            out += ["r = [a.pop(k) for k in list(a)]"]
        return out

    return f


OPERANDS = ["[]", "[1, True]", "[L1, L2]", "[L2, 'ab', 1.0]", "[NAN2, None, NAN]", "JSSet()", "JSSet([1.0, L1])", "JSSet([T1, NAN, AB])", "a", "list(a)", "JSSet(a)", "JSSet(list(a)[:1])"]


def set_ops(keys, full):
    def f(m):
        out = ["a.clear()", "r = JSSet([a.pop() for _ in range(len(a))])", "a.pop() if not len(a) else 0"]
        for k in keys:
            out += [f"a.add({k})", f"a.discard({k})"]
            if full:
                out += [f"a.remove({k})", f"r = {k} in a", f"a |= [{k}, {k}]", f"a &= [{k}]", f"a -= [{k}]", f"a ^= [{k}, {k}]", f"a &= JSSet([{k}])"]
                out += [f"a |= it([{k}])", f"a ^= it([{k}])", f"a -= it([{k}])", f"r = a == JSSet([{k}])", f"r = JSSet([{k}]) <= a if 0 else a >= JSSet([{k}])"]
        if full:
            for o in OPERANDS:
                out += [f"r = a {op} {o}" for op in "|&-^"]
                out += [f"r = a.isdisjoint({o})", f"r = a == a"]
                if not o.startswith(("[", "list")):
                    out += [f"r = a {op} {o}" for op in ("<=", "<", ">", ">=", "==", "!=")]
                else:
                    out += [f"r = {o} {op} a" for op in "|&-^"]
                out += [f"a |= {o}", f"a &= {o}", f"a -= {o}", f"a ^= {o}"]
            out += ["r = a == {1}", "r = a == {'ab', 1.0}", "r = a == set()", "r = a != {'1'}", "r = a == JSSet(list(a)[::-1])"]
        return out

    return f


def exec_ops(ops):
    """Augmented assignments to a parameter must change the object itself."""

    def f(m):
        return [f"b = a; {s}; r = b is a" if s[:2] == "a " and s[3:4] == "=" and s[2] in "|&-^" else s for s in ops(m)]

    return f


def bfs_task(r, which, inits, keys, depth, full):
    impl, model, observe, ops = (
        (JSMap, MapModel, observe_map, map_ops) if which == "map" else (JSSet, SetModel, observe_set, set_ops)
    )
    sp = Space(r, impl.__name__, SCOPE, norm, observe, prelude=PRELUDE, key=lambda m: repr([norm(v) for v in m.d.values()]))
    made = {}
    for init in inits:
        if which == "map":
            src = f"JSMap([{', '.join(f'({k}, {i})' for i, k in enumerate(init))}])"
        else:
            src = f"JSSet([{', '.join(init)}])"
        made[src] = (
            lambda s=src: eval(s, SCOPE),
            lambda s=src: eval(s, {**SCOPE, "JSMap": MapModel, "JSSet": SetModel}),
        )
    sp.explore(made, exec_ops(ops(keys, full)), depth)
    r.sample(f"{impl.__name__} from {inits[-1]}", 1)


def svz_task(r):
    """Every pair of values: one entry or two, in JavaScript and here."""
    names = list(VALUES)
    js = [VALUES[n][1] for n in names]
    src = "(() => { const O = Array.from({length: 30}, () => ({})); const V = [%s]; return V.map((a) => V.map((b) => new Set([a, b]).size)); })()" % ", ".join(js)
    reply = nodejs.batch([{"op": "eval", "src": src}])[0]
    if "err" in reply:
        raise RuntimeError(reply["err"])
    for (i, a), (j, b) in itertools.product(enumerate(names), repeat=2):
        x, y = VALUES[a][0], VALUES[b][0]
        r.states += 1
        r.transitions += 4
        want = reply["ok"][i][j] == 1
        if (same(x) == same(y)) != want:
            raise RuntimeError(f"the model of same-value-zero is wrong about {a}, {b}")
        try:
            got = {
                "same_value_zero ==": same_value_zero(x) == same_value_zero(y), "hash": not want or hash(same_value_zero(x)) == hash(same_value_zero(y)),
                "JSSet": len(JSSet([x, y])) == 1, "JSMap": len(JSMap([(x, 1), (y, 2)])) == 1, "in": y in JSSet([x]), "map in": y in JSMap([(x, 0)]),
                "len": JSMap([(x, 1)]).get(y) == 1,
            }  # fmt: skip
        except Exception as e:
            r.violation(f"{a}, {b}", f"raised {exc_summary(e)}", "")
            continue
        for k, v in got.items():
            if v != (True if k == "hash" else want):
                r.violation(f"same-value-zero: {a}, {b}", f"{k} says {v}, JavaScript says {want}", PRELUDE + f"print(JSSet([{a}, {b}]))")
        r.traces += 1
        r.outcomes["same" if want else "different"] += 1


def construct_task(r):
    cases = {
        "JSMap(None)": ("map", lambda: JSMap(None), []),
        "JSMap()": ("map", lambda: JSMap(), []),
        "JSMap({'a': 1})": ("map", lambda: JSMap({"a": 1}), [("a", 1)]),
        "JSMap({'a': 1}, a=2, b=3)": ("map", lambda: JSMap({"a": 1}, a=2, b=3), [("a", 2), ("b", 3)]),
        "JSMap(b=1, a=2)": ("map", lambda: JSMap(b=1, a=2), [("b", 1), ("a", 2)]),
        "JSMap(init=1, iterable=2, map=3, other=4)": (
            "map", lambda: JSMap(init=1, iterable=2, map=3, other=4), [("init", 1), ("iterable", 2), ("map", 3), ("other", 4)]),
        "JSMap(self=1)": ("map", lambda: JSMap(**{"self": 1}), [("self", 1)]),
        "JSMap(JSMap)": ("map", lambda: JSMap(JSMap([(1, 2), (True, 3)])), [(1, 2), (True, 3)]),
        "JSMap(iter)": ("map", lambda: JSMap(iter([(1, 2), (1.0, 3), (2, 4)])), [(1, 3), (2, 4)]),
        "JSMap(lists)": ("map", lambda: JSMap([["a", 1], "bc"]), [("a", 1), ("b", "c")]),
        "JSMap(JSObject)": ("map", lambda: JSMap(JSObject({"b": 1, 0: 2})), [(0, 2), ("b", 1)]),
        "JSSet()": ("set", lambda: JSSet(), []),
        "JSSet('aba')": ("set", lambda: JSSet("aba"), ["a", "b"]),
        "JSSet({3})": ("set", lambda: JSSet({3}), [3]),
        "JSSet(gen)": ("set", lambda: JSSet(x for x in [2, 1, 2.0, True]), [2, 1, True]),
        "JSSet(JSSet)": ("set", lambda: JSSet(JSSet([1, True])), [1, True]),
        "JSSet(dict)": ("set", lambda: JSSet({"a": 1}), ["a"]),
    }  # fmt: skip
    for src, (which, make, want) in cases.items():
        observe, model = (observe_map, MapModel) if which == "map" else (observe_set, SetModel)
        sp = Space(r, "constructor", SCOPE, norm, observe, prelude=PRELUDE)
        r.states += 1
        r.transitions += 1
        try:
            bad = sp.compare(make(), model(want))
        except Exception as e:
            bad = f"raised {exc_summary(e)}"
        if bad:
            sp.report(src, (), bad)
        else:
            r.traces += 1
    # constructing copies
    a = JSMap([(1, 2)])
    b = JSMap(a)
    b[3] = 4
    s = JSSet([1])
    t = JSSet(s)
    t.add(2)
    u = s | [5]
    u.add(6)
    r.states += 3
    if list(a) != [1] or list(s) != [1] or (s & [1]) is s:
        r.violation("copies", f"changing a copy changes the original: {a} {s}", "")
    # identity keys live as long as the collection that holds them
    m, s = JSMap(), JSSet()
    for i in range(2000):
        m[[i]] = i
        s.add([i])
    r.states += 2
    if len(m) != 2000 or len(s) != 2000 or [k[0] for k in m] != list(range(2000)) or [v[0] for v in s] != list(range(2000)):
        r.violation("temporary keys", f"{len(m)} and {len(s)} of 2000 distinct objects", "m = JSMap()\nfor i in range(2000): m[[i]] = i")
    # updated keys: the entry stays valid after the first key object dies
    m = JSMap()
    keys = [[i] for i in range(10)]
    for k in keys:
        m[k] = 0
    del keys[5:]
    for i in range(100):
        m[[i]] = 1
    if len(m) != 110:
        r.violation("keys kept", f"{len(m)} entries, expected 110", "")


JS_RUN = """(() => { const O = Array.from({length: 30}, () => ({}));
const K = [%s], isMap = %s; const out = [];
const name = (k) => K.findIndex((x) => x === k || (x !== x && k !== k));
const st = [];
for (let i = 0; i < K.length; i++) {
  if (isMap) { st.push((m) => m.set(K[i], 'v')); st.push((m) => m.set(K[i], 'w')); } else st.push((m) => m.add(K[i]));
  st.push((m) => m.delete(K[i]));
}
st.push((m) => m.clear());
const run = (d, path) => {
  const m = isMap ? new Map() : new Set();
  const res = path.map((i) => { const r = st[i](m); return typeof r === 'boolean' ? r : null; });
  out.push([[...m].map((e) => isMap ? [name(e[0]), e[1]] : name(e)), m.size, res.length ? res[res.length - 1] : null]);
  if (d > 0) for (let i = 0; i < st.length; i++) run(d - 1, [...path, i]);
};
run(%d, %s);
return out; })()"""


def v8_task(r, which, names, depth, first):
    """Every sequence of operations in V8, on the model and in the code."""
    js = ", ".join(VALUES[n][1] for n in names)
    reply = nodejs.batch([{"op": "eval", "src": JS_RUN % (js, json.dumps(which == "map"), depth - 1, json.dumps(first))}])[0]
    if "err" in reply:
        raise RuntimeError(reply["err"])
    results = iter(reply["ok"])
    values = [VALUES[n][0] for n in names]
    st = []
    for n, v in zip(names, values):
        if which == "map":
            st.append((f"a[{n}] = 'v'", lambda m, v=v: m.__setitem__(v, "v")))
            st.append((f"a[{n}] = 'w'", lambda m, v=v: m.__setitem__(v, "w")))
            st.append((f"a.pop({n}, None)", lambda m, v=v: m.pop(v, None)))
        else:
            st.append((f"a.add({n})", lambda m, v=v: m.add(v)))
            st.append((f"a.discard({n})", lambda m, v=v: m.discard(v)))
    st.append(("a.clear()", lambda m: m.clear()))
    index = {}
    for i, v in enumerate(values):
        index.setdefault(same(v), i)

    def content(m):
        if which == "map":
            return [[index[same(k)], v] for k, v in m.items()]
        return [index[same(k)] for k in m]

    def run(d, path):
        want, size, _ = next(results)
        r.states += 1
        r.transitions += 1
        model = (MapModel if which == "map" else SetModel)()
        for i in path:
            st[i][1](model)
        if content(model) != want:
            raise RuntimeError(f"the model differs from V8: {[st[i][0] for i in path]} {content(model)} {want}")
        try:
            with time_limit(20):
                impl = (JSMap if which == "map" else JSSet)()
                for i in path:
                    st[i][1](impl)
                got = content(impl)
                n = len(impl)
        except CaseTimeout:
            got, n = "did not terminate", size
        except Exception as e:
            got, n = exc_summary(e), size
        if got != want or n != size:
            code = "; ".join(st[i][0] for i in path)
            r.violation(f"V8 {which}: {code}", f"{got} (keys by number in {names}), size {n}; in JavaScript {want}", f"{PRELUDE}a = {'JSMap' if which == 'map' else 'JSSet'}()\n" + "\n".join(st[i][0] for i in path))
        else:
            r.traces += 1
            r.outcomes[f"{size} entries"] += 1
        if d > 0:
            for i in range(len(st)):
                run(d - 1, [*path, i])

    run(depth - 1, list(first))


def main(check):
    t = check.thorough
    check.phase("same value zero", [(svz_task, ())])
    check.phase("constructors", [(construct_task, ())])
    tasks = []
    every = list(VALUES)
    small = ["1", "1.0", "True", "NAN", "L1", "L2", "'ab'", "AB"]
    other = ["T1", "T2", "None", "UNDEF", "-0.0", "0", "NAN2", "NAN"]
    some = [["1"], ["1", "True"], ["L1", "L2", "NAN"], ["'ab'", "1", "None"], ["T1", "T2", "D1"], ["F1", "0", "False", "''"], ["J1", "J2"], []]
    for which in ("map", "set"):
        tasks += [(bfs_task, (which, [i], small, 3 if t else 2, True)) for i in some]
        tasks += [(bfs_task, (which, [i], other, 3 if t else 2, True)) for i in some]
        tasks += [(bfs_task, (which, [[], *([k] for k in c)], every, 2 if t else 1, True)) for c in chunks(every, 8)]
        tasks += [(bfs_task, (which, [[]], small[:5], 7 if t else 5, False))]
        tasks += [(bfs_task, (which, [[]], other[:5], 7 if t else 5, False))]
    check.phase("operation sequences", tasks)
    tasks = []
    for which in ("map", "set"):
        for names in (["1", "True", "NAN", "L1", "L2"], ["0", "-0.0", "NAN", "NAN2", "False"], ["'1'", "1", "None", "UNDEF", "''"], ["T1", "T2", "D1", "D2", "P1"]):
            n = len(names) * (3 if which == "map" else 2) + 1
            tasks += [(v8_task, (which, names, (4 if t else 3) + (which == "set"), (i,))) for i in range(n)]
    check.phase("sequences in V8", tasks)
    check.bounds = {"values": len(VALUES), "operations": "2 (all), 5 (set/delete)", "V8 sequences": 3}
    check.assumptions = [
        "-0 and 0, and an int and the equal float, are the same key; which of the two Python objects is kept is not specified",
        "ints that become bigints are not compared with equal floats; pop() and popitem() may remove any entry",
        "algebra with Python's own sets uses Python's equality on that side and is not judged",
    ]
