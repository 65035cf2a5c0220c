"""C11: property keys are canonicalised exactly as JavaScript does."""

from __future__ import annotations

import itertools
import json
import math
import struct

from v8serialize import dumps, loads
from v8serialize.jstypes import JSArray, JSObject

from .. import nodejs, wire
from ..core import CaseTimeout, chunks, exc_summary, time_limit
from ..graph import s16

JS = """(() => { const f = new DataView(new ArrayBuffer(8));
const hex = (s) => { let o = ''; for (let i = 0; i < s.length; i++) o += s.charCodeAt(i).toString(16).padStart(4, '0'); return o; };
return %s.map(([t, v]) => {
  if (t === 'f') { f.setBigUint64(0, BigInt('0x' + v)); v = f.getFloat64(0); }
  else if (t === 'i') v = BigInt(v); else if (t === 'n') v = Number(v);
  const o = {}; o[v] = 1; const a = []; if (v !== 'length') a[v] = 1;
  return [hex(Object.keys(o)[0]), a.length];
}); })()"""


def encode(k):
    if isinstance(k, float):
        return ["f", struct.pack(">d", k).hex()]
    if isinstance(k, int):
        return ["n" if abs(k) < 2**53 else "i", str(k)]
    return ["s", k]


def oracle(keys):
    """[(canonical name, array index or None)...] according to V8."""
    reply = nodejs.batch([{"op": "eval", "src": JS % json.dumps([encode(k) for k in keys])}])[0]
    if "err" in reply:
        raise RuntimeError(reply["err"])
    out = []
    for name, length in reply["ok"]:
        out.append((name, length - 1 if length else None))
    return out


def model(k):
    """The same, written down from the specification."""
    if isinstance(k, float):
        name = wire.js_number_string(k)
    else:
        name = str(k)
    index = int(name) if name.isascii() and name.isdecimal() and len(name) <= 10 and str(int(name)) == name else None
    if index is not None and index > 2**32 - 2:
        index = None
    return s16(name), index


def legacy(k):
    """The known finding: names of numbers that aren't indexes."""
    if not isinstance(k, float):
        return None
    return str(int(k)) if k.is_integer() else str(k)


def describe(k):
    return repr(k) if not isinstance(k, int) or abs(k) < 2**80 else f"~{k.bit_length()}b"


def code_for(k):
    lit = f"float('{k!r}')" if isinstance(k, float) else repr(k) if not isinstance(k, int) else hex(k)
    return f"from v8serialize.jstypes import *\nk = {lit}\no = JSObject([(k, 1)]); print(list(o), len(o.array))"


def keys_task(r, keys, roundtrip):
    keys = list(keys)
    for i in range(0, len(keys), 2000):
        part = keys[i : i + 2000]
        for k, (name, index) in zip(part, oracle(part)):
            if model(k) != (name, index):
                raise RuntimeError(f"the model disagrees with V8 on {k!r}: {model(k)} {(name, index)}")
            one(r, k, name, index, roundtrip)
    r.sample(describe(keys[0]), 1)


def one(r, k, name, index, roundtrip):
    r.states += 1
    want = index if index is not None else bytes.fromhex(name).decode("utf-16-be", "surrogatepass")
    key, code = f"key {describe(k)}", code_for(k)
    try:
        with time_limit(20):
            bad = check(r, k, want, roundtrip)
    except CaseTimeout:
        bad = "did not terminate"
    except Exception as e:
        bad = f"raised {exc_summary(e)}"
    if bad:
        if bad == f"stored as {legacy(k)!r}":
            key = f"float-name:{describe(k)}"
        r.violation(key, f"{bad}, expected {want!r:.100}", code)
    else:
        r.traces += 1
        r.outcomes[f"{type(k).__name__} -> {type(want).__name__}"] += 1


def check(r, k, want, roundtrip):
    def same(got):
        return type(got) is type(want) and got == want

    o = JSObject()
    o[k] = "v"
    r.transitions += 1
    stored = list(o)
    if len(stored) != 1 or not same(stored[0]):
        return f"stored as {stored[0] if len(stored) == 1 else stored!r:.100}" if not isinstance(stored[0], str) else f"stored as {stored[0]!r}"
    if isinstance(want, int):
        if dict(o.array.elements()) != {want: "v"} or o.properties:
            return "not stored as an array index"
    elif len(o.array) or dict(o.properties) != {want: "v"}:
        return "stored as an array index"
    # every spelling reads it, once
    for q in (k, want, str(want)):
        if o[q] != "v" or q not in o or o.get(q) != "v" or o.setdefault(q, "w") != "v":
            return f"not found as {q!r:.80}"
        o[q] = "v2"
        if len(o) != 1 or o[k] != "v2":
            return f"assigning {q!r:.80} made another property"
        o[q] = "v"
    # idempotent
    p = JSObject()
    p[want] = "v"
    if [*map(repr, p)] != [repr(want)] or p != o:
        return "canonicalising it again changes it"
    # other ways in
    for name, make in {
        "items": lambda: JSObject([(k, "v")]), "mapping": lambda: JSObject({k: "v"}), "update": lambda: upd(JSObject(), k),
        "setdefault": lambda: sd(JSObject(), k), "array": lambda: arr(k), "array mapping": lambda: JSArray({k: "v"}),
    }.items():  # fmt: skip
        q = make()
        if not same(next(iter(q))) or len(q) != 1 or q[want] != "v":
            return f"by {name}: stored as {list(q)!r:.100}"
        if name.startswith("array") and len(q.array) != (want + 1 if isinstance(want, int) else 0):
            return f"by {name}: array length {len(q.array)}"
    # and out
    if o.pop(k) != "v" or len(o) or k in o:
        return "pop doesn't remove it"
    o[want] = 1
    del o[k]
    if len(o) or list(o):
        return "del doesn't remove it"
    for absent in (lambda: o[k], lambda: o.pop(k), lambda: o.__delitem__(k)):
        try:
            absent()
        except KeyError:
            pass
        else:
            return "reading it when absent isn't a KeyError"
    if roundtrip:
        o[k] = [k]
        back = loads(dumps(o))
        if not same(next(iter(back))) or len(back) != 1:
            return f"reads back as {list(back)!r:.100}"
    return None


def upd(o, k):
    o.update({k: "v"})
    return o


def sd(o, k):
    o.setdefault(k, "v")
    return o


def arr(k):
    a = JSArray()
    a[k] = "v"
    return a


def pairs_task(r, firsts, keys):
    """Two keys are the same property if and only if they are in JavaScript."""
    names = dict(zip(map(repr, keys), (m for m in map(model, keys))))
    for a in firsts:
        for b in keys:
            if legacy(a) not in (None, "0") and is_odd(a) or is_odd(b):
                continue
            r.states += 1
            r.transitions += 1
            want = names[repr(a)][0] == names[repr(b)][0]
            o = JSObject()
            o[a] = 1
            o[b] = 2
            got = len(o) == 1
            if got != want or (b in JSObject([(a, 1)])) != want or o[a] != (2 if want else 1) or o[b] != 2:
                r.violation(
                    f"pair {describe(a)} {describe(b)}", f"{'different' if want else 'the same'} properties, unlike JavaScript",
                    f"from v8serialize.jstypes import *\no = JSObject([({a!r}, 1), ({b!r}, 2)]); print(o)",
                )  # fmt: skip
            # order of the two
            ka, kb = names[repr(a)], names[repr(b)]
            if not want:
                first = (ka[1] is not None) and (kb[1] is None or ka[1] < kb[1]) or (ka[1] is None and kb[1] is None)
                if (list(o.values()) == [1, 2]) != first:
                    r.violation(f"order {describe(a)} {describe(b)}", f"in the wrong order: {list(o)}", "")


def is_odd(k):
    """A float whose name is a known finding."""
    return isinstance(k, float) and legacy(k) != wire.js_number_string(k) and model(k)[1] is None


class Key(str):
    pass


def subclass_task(r):
    class I(int):  # noqa: E742
        pass

    class F(float):
        pass

    for k, want in ((Key("a"), "a"), (Key("3"), 3), (Key("-1"), "-1"), (I(3), 3), (I(-3), "-3"), (F(2.0), 2), (F(2.5), "2.5"), (I(2**32), "4294967296")):
        r.states += 1
        try:
            o = JSObject([(k, "v")])
            bad = list(o) != [want] or o[want] != "v" or k not in o or len(o) != 1
            back = loads(dumps(o))
            bad = bad or list(back) != [want]
            del o[k]
            bad = bad or len(o)
        except Exception as e:
            bad = exc_summary(e)
        if bad:
            r.violation(f"subclass {type(k).__name__} {k!r}", f"not the property {want!r}: {bad}", "")


def all_keys(t):
    alphabet = ["0", "1", "4", "9", "-", ".", "e", "+", " ", "_", "a", "٣", "²", "０", "\n"]
    strings = {"".join(s) for n in range(5 if t else 4) for s in itertools.product(alphabet, repeat=n)}
    near = set()
    for b in [0, *range(1, 71), 80, 128, 1000]:
        for d in (-2, -1, 0, 1, 2):
            near.add(2**b + d)
            near.add(-(2**b) + d)
    for b in range(0, 25):
        for d in (-1, 0, 1):
            near.add(10**b + d)
    near |= set(range(2**32 - 300, 2**32 + 300)) | set(range(-300, 5000 if not t else 100000)) | set(range(2**31 - 50, 2**31 + 50))
    ints = sorted(near)
    odd = set()
    for n in ints:
        if abs(n) < 2**200 and (abs(n) < 40 or n % 16 in (0, 15, 1) or n >= 2**31):
            s = str(n)
            odd |= {s, f"0{s}", f"+{s}", f"{s} ", f" {s}", f"{s}.0", f"{s}e0", f"{s}\n", f"-{s}", f"{s}0", s.replace("1", "١"), f"{n:_}", f"{n:x}", f"0x{abs(n):x}"}
    strings |= odd | {"NaN", "Infinity", "-Infinity", "inf", "nan", "length", "\ud800", "1\0", "9" * 5000, "1" + "0" * 4400, "0" * 5000}
    strings |= {"constructor", "true", "null", "undefined", "1e3", "1E3", "0b1", "0o7", "½", "Ⅷ", "一", "𝟏", "１２", "1\u200b", "4294967294", "4294967295"}
    # __proto__ sets the prototype when assigned in JavaScript
    strings.discard("__proto__")
    floats = {float(n) for n in ints if abs(n) < 2**1000}
    floats |= {n / d for n in range(-60, 300) for d in (2, 4, 3, 10)}
    floats |= {s * m * 10.0**e for e in range(-30, 30) for m in (1, 1.5, 9.999, 123456789.0, 1.2345678901234567) for s in (1, -1)}
    floats |= {float(f"1e{e}") for e in range(-330, 309, 1 if t else 7)} | {0.0, -0.0, math.nan, math.inf, -math.inf, 5e-324, 1.7976931348623157e308}
    for x in list(floats):
        if x == x and not math.isinf(x) and (2**31 < abs(x) < 2**34 or abs(x) < 3):
            floats |= {math.nextafter(x, math.inf), math.nextafter(x, -math.inf)}
    return sorted(strings), ints, sorted(floats, key=lambda f: (repr(f)))


def main(check):
    t = check.thorough
    strings, ints, floats = all_keys(t)
    check.phase("strings", [(keys_task, (c, i == 0)) for i, c in enumerate(chunks(strings, 32))])
    check.phase("ints", [(keys_task, (c, True)) for c in chunks(ints, 16)])
    check.phase("floats", [(keys_task, (c, True)) for c in chunks(floats, 16)])
    some = [s for s in strings if len(s) <= 2] + ints[:: 40 if not t else 8] + floats[:: 20 if not t else 4]
    some += [n for n in (0, 1, 2**32 - 2, 2**32 - 1, 2**32)] + ["4294967294", "4294967295", 4294967294.0, 4294967295.0, "0", 0.0, -0.0, "-0"]
    some = list({repr(k): k for k in some}.values())
    check.phase("pairs", [(pairs_task, (c, some)) for c in chunks(some, 32)])
    check.phase("subclasses", [(subclass_task, ())])
    check.bounds = {"strings": len(strings), "ints": len(ints), "floats": len(floats), "pairs": len(some) ** 2}
    check.assumptions = [
        "ints JavaScript numbers cannot hold exactly (beyond 2**53) are named by their digits, as a bigint key is",
    ]
