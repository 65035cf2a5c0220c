"""C04: everything V8 serializes loads with the same meaning."""

from __future__ import annotations

import itertools

from .. import gen, nodejs
from ..core import chunks
from ..graph import Graph, js_source, loose, match
from ..reading import against_wire, verdict
from . import c02

LEAVES = {
    "undefined": "undefined", "null": "null", "true": "true", "false": "false",
    **{f"num {n}": n for n in (
        "0 -0 1 -1 63 64 -64 -65 127 128 255 256 8191 8192 1073741823 1073741824 -1073741824 -1073741825 "
        "2147483647 2147483648 -2147483648 -2147483649 4294967295 4294967296 9007199254740991 "
        "9007199254740992 -9007199254740991 1.5 -1.5 0.1 1e21 1e-7 5e-324 1.7976931348623157e308 NaN "
        "Infinity -Infinity 1e100"
    ).split()},
    "computed 1": "(0.5+0.5)", "computed -0": "(-1*0)", "float32": "Math.fround(0.1)",
    **{f"big {n}": n for n in (
        "0n 1n -1n 255n 256n 18446744073709551615n 18446744073709551616n -18446744073709551616n "
        "(2n**64n-1n) (2n**128n) (-(2n**128n)) (2n**1000n) (-(2n**2000n)+1n) (2n**63n) (-(2n**63n))"
    ).split()},
    "str empty": "''", "str a": "'a'", "str latin1": "'\\xe9\\xff'", "str two-byte": "'\\u0100'",
    "str emoji": "'\\u{1f600}'", "str lone high": "'\\ud800'", "str lone low": "'x\\udc00'", "str nul": "'\\0'",
    "str bom": "'\\ufeff'", "str 127": "'a'.repeat(127)", "str 128": "'a'.repeat(128)",
    "str two-byte 63": "'\\u0100'.repeat(63)", "str two-byte 64": "'\\u0100'.repeat(64)",
    "str two-byte 65": "'\\u0100'.repeat(65)", "str big": "'\\u0100'.repeat(9000)",
    "str cons": "('a'.repeat(50)+'\\u0101'.repeat(50))", "str slice": "('\\u0100'+'a'.repeat(50)).slice(5)",
    "str index": "'0'", "str proto": "'__proto__'",
    **{f"boxed {n}": f"Object({n})" for n in
       "true false 0 -0 1 1.5 NaN 2147483648 '' 'a' '\\u0100' 'a'.repeat(200) 0n 5n -5n 2n**70n".split()},
    "date 0": "new Date(0)", "date 1": "new Date(1)", "date -1": "new Date(-1)",
    "date": "new Date(1709164800123)", "date old": "new Date(-5e12)", "date max py": "new Date(253402300700000)",
    "date min py": "new Date(-62135500000000)", "date invalid": "new Date(NaN)", "date max": "new Date(8.64e15)",
    "date min": "new Date(-8.64e15)", "date 10000": "new Date(253402400000000)",
    "re": "/a/", "re empty": "new RegExp('')", "re slash": "/\\//", "re newline": "new RegExp('\\n')",
    "re two-byte": "/\\u0100\u0100/", "re named": "/(?<n>x)/u",
    **{f"re {f}": f"/a./{f}" for f in "d g i m s u v y dg gimsuy dgimsvy gy".split()},
    "buf 0": "new ArrayBuffer(0)", "buf 3": "new Uint8Array([1,2,3]).buffer",
    "buf 200": "new Uint8Array(200).fill(86).buffer", "rab": "new ArrayBuffer(4,{maxByteLength:9})",
    "rab 0": "new ArrayBuffer(0,{maxByteLength:0})", "rab 300": "new ArrayBuffer(1,{maxByteLength:300})",
    **{f"view {c}": f"new {c}([1,2,3])" for c in
       "Int8Array Uint8Array Uint8ClampedArray Int16Array Uint16Array Int32Array Uint32Array Float32Array "
       "Float64Array".split()},
    "view i64": "new BigInt64Array([-1n,2n])", "view u64": "new BigUint64Array([1n])",
    "view empty": "new Uint8Array(0)", "view part": "new Int16Array(new ArrayBuffer(8),2,2)",
    "view end": "new Uint8Array(new ArrayBuffer(8),8)", "view 200": "new Uint8Array(200)",
    "dataview": "new DataView(new Uint8Array([1,2,3,4]).buffer,1,2)",
    "dataview empty": "new DataView(new ArrayBuffer(0))",
    "view rab": "new Uint8Array(new ArrayBuffer(4,{maxByteLength:9}),1,2)",
    "view rab track": "new Uint16Array(new ArrayBuffer(5,{maxByteLength:9}),2)",
    "dataview rab track": "new DataView(new ArrayBuffer(5,{maxByteLength:9}),1)",
    "Buffer": "Buffer.from([1,2,3])", "Buffer empty": "Buffer.alloc(0)", "Buffer 300": "Buffer.alloc(300,7)",
    "subarray": "new Uint8Array([1,2,3,4]).subarray(1,3)",
    **{f"err {c}": f"new {c}('m')" for c in
       "Error EvalError RangeError ReferenceError SyntaxError TypeError URIError".split()},
    "err no message": "new Error()", "err empty message": "new TypeError('')",
    "err cause": "new Error('m',{cause:1})", "err cause undefined": "new Error('m',{cause:undefined})",
    "err cause null": "new Error('m',{cause:null})", "err cause err": "new Error('m',{cause:new TypeError('c')})",
    "err self": "(()=>{const e=new Error('m');e.cause=e;return e})()",
    "err self deep": "(()=>{const e=new RangeError('m');e.cause={list:[e]};return e})()",
    "err stack": "Object.assign(new Error('m'),{stack:'\\u0100'})",
    "err stack empty": "Object.assign(new Error('m'),{stack:''})",
    "err no stack": "(()=>{const e=new Error('m');delete e.stack;return e})()",
    "err stack non-string": "Object.assign(new Error('m'),{stack:5})",
    "err named": "(()=>{const e=new Error('m');e.name='RangeError';return e})()",
    "err custom name": "(()=>{const e=new Error('m');e.name='Custom';return e})()",
    "err URI name": "(()=>{const e=new Error('m');e.name='URIError';return e})()",
    "err subclass": "new (class X extends TypeError{})('m')",
    "err aggregate": "new AggregateError([1],'m')",
    "err two-byte": "new Error('\\u0100')", "err message number": "Object.assign(new Error(),{message:'5'})",
    "obj": "({})", "obj a": "({a:1})", "obj order": "({b:1,a:2,2:3,1:4})", "obj idx": "({4294967294:1,4294967295:2})",
    "obj neg": "({'-1':1,'-0':2,'01':3,'1.5':4,'1e3':5})", "obj keys": "({'':1,'\\u0100':2,'\\ud800':3})",
    "obj proto": "({['__proto__']:1})", "obj null proto": "Object.assign(Object.create(null),{x:1})",
    "obj class": "new (class A{constructor(){this.x=1;this.y=[]}})()", "obj getter": "({get g(){return 7}})",
    "obj deleted": "(()=>{const o={a:1,b:2,c:3};delete o.b;return o})()",
    "obj many": "Object.fromEntries(Array.from({length:200},(_, i)=>['k'+i,i]))",
    "obj symbol": "({[Symbol('s')]:1,a:2})", "obj hidden": "Object.defineProperty({a:1},'h',{value:2})",
    "obj float keys": "({0.5:1,1e21:2,1e-7:3,NaN:4,Infinity:5})", "obj frozen": "Object.freeze({a:1})",
    "arr": "[]", "arr smi": "[1,2,3]", "arr double": "[1.5,2.5,-0]", "arr double int": "[1.5,2,3]",
    "arr double hole": "[1.5,,2.5]", "arr holes": "[,1,,2,,]", "arr only holes": "[,,,]", "arr mixed": "[1,'a',null]",
    "arr length": "Object.assign([1],{length:3})", "arr props": "Object.assign([1,2],{b:1,a:2})",
    "arr sparse": "(()=>{const a=[];a[5000]=1;return a})()",
    "arr sparse props": "(()=>{const a=[];a[5000]=1;a.z=2;a.y=3;a[7]=0;return a})()",
    "arr huge": "new Array(4294967295)", "arr long": "new Array(40000000)",
    "arr last": "(()=>{const a=[];a[4294967294]=1;return a})()",
    "arr max key": "(()=>{const a=[];a[4294967295]=1;return a})()",
    "arr 200": "Array.from({length:200},(_, i)=>i)", "arr doubles 70": "Array.from({length:70},(_, i)=>i/2)",
    "arr undefined": "[undefined,,undefined]", "arr dictionary": "(()=>{const a=[1,2,3];a[100000]=4;return a})()",
    "arr subclass": "new (class X extends Array{})(3)", "args": "(function(){return arguments})(1,2)",
    "arr nan": "[NaN,1.5]", "arr frozen": "Object.freeze([1,2])",
    "map": "new Map()", "map kv": "new Map([[1,2],['1',3],[true,4],[null,5],[undefined,6],[NaN,7],[1.5,8]])",
    "map objkey": "new Map([[{},1],[{},2],[[],3]])", "map -0": "new Map([[-0,1]])",
    "map order": "(()=>{const m=new Map([[1,1],[2,2]]);m.delete(1);m.set(1,3);return m})()",
    "map self": "(()=>{const m=new Map();m.set(m,m);return m})()",
    "set": "new Set()", "set vs": "new Set([1,'1',true,null,undefined,NaN,'',0])",
    "set self": "(()=>{const s=new Set();s.add(s);return s})()", "set objs": "new Set([{},{},[]])",
    "set 200": "new Set(Array.from({length:200},(_, i)=>i))",
    "mod map": "(()=>{const m=new Map();m.set({get x(){m.set(5,6);return 1}},1);return m})()",
    "mod arr": "(()=>{const a=[{get x(){a.length=1;return 1}},2,3];return a})()",
    "mod arr grow": "(()=>{const a=[{get x(){a.push(9);return 1}},2];return a})()",
    "mod obj": "(()=>{const o={a:{get x(){delete o.b;return 1}},b:2};return o})()",
}  # fmt: skip

# X may occur several times: it's one value
POSITIONS = {
    "top": "X", "arr": "[X,'end']", "arr2": "[X,X]", "arrhole": "[,X,,]", "obj": "({a:X,b:X})",
    "obj idx": "({5:X,2:X})", "map val": "new Map([[1,X],[2,X]])", "map key": "new Map([[X,1],['k',X]])",
    "set": "new Set(['s',X,'end'])", "prop": "Object.assign([1],{p:X})",
    "sparse": "(()=>{const a=[];a[999]=X;a[100000]='e';a.p=X;return a})()",
    "cause": "Object.assign(new TypeError('m',{cause:X}),{stack:'st'})",
    "cause2": "[Object.assign(new Error('m',{cause:[X]}),{stack:'s'}),X]",
    "after view": "[new Uint8Array([1,2,3]),X,X]", "after buffer": "[new ArrayBuffer(2),X]",
    "before view": "[X,new Uint16Array([1,2]),'end']", "after regexp": "[/a/g,X,X]", "after err": "[new Error(''),X,X]",
    "deep": "[[[{a:new Map([[1,new Set([X])]])}]],X]",
}  # fmt: skip


def describe_to_graph(table) -> Graph:
    root, nodes = table

    def walk(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "big":
                return ("big", int(t[1], 16))
            return tuple(walk(i) for i in t)
        return t

    nodes = [walk(n) for n in nodes]
    nodes = [("Date", None if n[1] == "nan" else n[1] * 1000) if n[0] == "Date" else n for n in nodes]
    return Graph(walk(root), nodes, [""] * len(nodes))


def run_sources(r, cases, mode):
    """cases: (key, JavaScript expression)"""
    cases = list(cases)
    for i in range(0, len(cases), 300):
        part = cases[i : i + 300]
        replies = nodejs.batch([{"op": "ser", "src": s, "mode": mode} for _, s in part])
        for (key, src), reply in zip(part, replies):
            key = f"{mode or 'host'} {key}"
            if "err" in reply:
                r.outcomes[f"not serializable: {reply['err'][:40]}"] += 1
                continue
            data = bytes.fromhex(reply["hex"])
            v = verdict(data)
            if v[0] == "value":
                # the model reads the bytes as the value that V8 wrote
                m = None
                if not UNSTABLE & set(key.split()) and v[1][1] != len(data):
                    m = f"{len(data) - v[1][1]} bytes left"
                if not key_unstable(key):
                    m = m or model_differs(reply["ok"], v[1][0])
                if m:
                    raise RuntimeError(f"model differs from V8: {key}: {src}: {m} {data.hex()}")
            elif v[0] == "incomplete":
                raise RuntimeError(f"model differs from V8: {key}: {src}: {v} {data.hex()}")
            against_wire(r, key, data, v)
            r.outcomes[f"model: {v[0]} {v[1] if v[0] != 'value' else ''}"] += 1
        r.sample(part[0][1], 2)


UNSTABLE: set = set()


def key_unstable(key):
    """The value changes while it's serialized, or isn't a plain value."""
    return any(w in key for w in ("<mod ", "err stack non-string", "err subclass", "err aggregate", "args",
                                  "err named", "err custom", "err URI"))  # fmt: skip


def model_differs(described, got: Graph):
    want = describe_to_graph(nodejs.table(described))
    # host objects lose the buffer their view had
    hosts = any(n[0] == "View" for n in got.nodes)
    a, b = loose(strip(want.to_js(py=False), hosts)), loose(strip(got.to_js(py=False), hosts))
    return match(a, b, {i for i, n in enumerate(want.nodes) if n[0] == "Buffer"} if hosts else frozenset())


def strip(table, hosts):
    root, nodes = table
    out = []
    for n in nodes:
        if n[0] == "RegExp":
            n = (n[0], n[1], "".join(sorted(n[2])))
        if hosts and n[0] == "View":
            b = nodes[n[2][1]]
            raw = bytes.fromhex(b[1])[n[3] : n[3] + n[5]] if b[0] == "Buffer" and n[3] != "oob" else b""
            n = ("View", n[1], raw.hex(), n[5])
        out.append(n)
    return root, out


def positions_task(r, names, mode, positions=POSITIONS):
    def cases():
        for n in names:
            for p, tpl in positions.items():
                yield f"{p}<{n}>", f"(X=>{paren(tpl)})({LEAVES[n]})"

    run_sources(r, cases(), mode)


def paren(s):
    return f"({s})"


def pairs_task(r, names, others, mode, tpl):
    def cases():
        for a in names:
            for b in others:
                yield f"{tpl} <{a}> <{b}>", f"((X,Y)=>{paren(tpl)})({LEAVES[a]},{LEAVES[b]})"

    run_sources(r, cases(), mode)


def keys_task(r, keys):
    """Property keys of objects, arrays and dictionaries, in every creation order."""

    def cases():
        for a in keys:
            yield f"key {a}", f"({{[{a}]:1}})"
            yield f"arr key {a}", f"(()=>{{const r=[7];r[{a}]=1;return r}})()"
            for b in keys:
                yield f"keys {a} {b}", f"({{[{a}]:1,[{b}]:2}})"
                yield f"arr keys {a} {b}", f"(()=>{{const r=[];r[{a}]=1;r[{b}]=2;return r}})()"

    run_sources(r, cases(), "plain")


KEYS = [
    "0", "1", "'01'", "-0", "-1", "'-0'", "1.5", "4294967294", "4294967295", "4294967296", "2**31", "2**31-1", "2**30",
    "2**53", "1e21", "NaN", "Infinity", "''", "'a'", "'\\xff'", "'\\u0100'", "'\\ud800'", "'length '", "1e-7", "' 1'",
    "'1'", "100", "5000", "'constructor'", "'toString'",
]  # fmt: skip


def graphs_task(r, names):
    """JavaScript values of specification graphs in every position."""
    cases = []
    for n in names:
        for p in gen.POSITIONS:
            g = gen.place(p, n)
            try:
                cases.append((f"{p}<{n}>", js_source(g)))
            except AssertionError:
                pass
    run_sources(r, cases, "plain")


def variants_task(r, part, parts, resizable, counts):
    """V8's serialization of every variant of every kind."""
    cases = []
    for key, g in itertools.chain(
        gen.catalogue_cases(part, parts, resizable), itertools.islice(gen.two_counts_cases(counts), part, None, parts)
    ):
        try:
            cases.append((key, js_source(g)))
        except AssertionError:
            pass  # not a thing JavaScript has
    for mode in ("plain", ""):
        run_sources(r, cases, mode)


def main(check):
    t = check.thorough
    names = list(LEAVES)
    for mode in ("plain", ""):
        check.phase(
            f"leaf in position ({mode or 'host objects'})", [(positions_task, (c, mode)) for c in chunks(names, 24)]
        )
        tpls = ["[X,Y]"] if not t else ["[X,Y,X,Y]", "new Map([[X,Y]])", "({a:X,b:Y})", "new Set([X,Y,'end'])"]
        for tpl in tpls:
            small = [n for n in names if n not in ("arr long", "arr huge", "str big")]
            check.phase(
                f"pairs {tpl} ({mode or 'host objects'})",
                [(pairs_task, (c, small, mode, tpl)) for c in chunks(small, 24)],
            )
    check.phase("keys", [(keys_task, (KEYS,))])
    counts = [0, 1, 2, 127, 128, 129] + ([255, 256, 300, 16383, 16384] if t else [300])
    check.phase(
        "variants of every kind",
        [(variants_task, (p, 32, False, counts)) for p in range(32)]
        + [(variants_task, (p, 16, True, [])) for p in range(16)],
    )
    check.phase("graphs", [(graphs_task, (c,)) for c in chunks([*gen.PRIMS, *c02.JS_NAMES, *gen.RESIZABLE], 16)])
    js_kinds = [k for k in gen.CONTAINERS if k not in ("list", "dict", "jserror")]
    check.phase(
        "cyclic shapes",
        [(c02.js_shapes_task, (2, js_kinds, 2, p, 16)) for p in range(16)]
        + [(c02.js_shapes_task, (3, js_kinds[:5] if t else ["jsarray", "jsset", "cause"], 2, p, 32)) for p in range(32)],
    )
    check.bounds = {"JavaScript leaves": len(names), "positions": len(POSITIONS), "keys": len(KEYS)}
    check.assumptions = [
        "V8 is the one in the installed node; the wire model's reading of every stream is compared with "
        "node's own description of the value, then the library is compared exactly with the model"
    ]
