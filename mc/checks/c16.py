"""C16: errors and Python exceptions keep name, message, stack and cause."""

from __future__ import annotations

import itertools
import json
import re
from traceback import FrameSummary, StackSummary, TracebackException

from v8serialize import V8SerializeError, dumps, loads
from v8serialize.constants import JSErrorName, SerializationFeature
from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSObject, JSUndefined

from .. import nodejs
from ..core import chunks, exc_summary

NAMES = ["Error", "EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError", "URIError"]
CIRCULAR = SerializationFeature.CircularErrorCause


class Str(str):
    pass


def js_name(name):
    """The name JavaScript gives an error of a name."""
    name = "URIError" if name == "UriError" else str(name)
    return name if name in NAMES else "Error"


def check_name(r, key, code, got, name):
    """A decoded name is the JavaScript name (one spelling is a known finding)."""
    want = js_name(name)
    if want == "URIError" and got == "UriError":
        if name == "URIError":
            r.violation("uri-name: an error named URIError", "is named UriError after a round trip", code)
        return
    if got != want:
        r.violation(key, f"name is {got!r}, expected {want!r}", code)
    elif want not in (m.value for m in JSErrorName) and want != "URIError":
        r.violation(key, f"name {got!r} isn't a JSErrorName", code)


# spellings close to JavaScript's names that are other names
NEAR = ["TypeErrorX", "TypeError ", " TypeError", "Typeerror", "typeerror", "TYPEERROR", "TypeErro", "TypeError\n", "Type Error", "TypeError\0", "RangeError ", "URIERROR", "uriError", "URI", "EvalErro", "Error "]


BUILDERS = {"default": (None, JSError), "JSError": (JSError.builder, JSError), "JSErrorData": (JSErrorData.builder, JSErrorData)}
TEXTS = [None, "", "m", "é", "λ\U0001f600", "\ud800", "a\nb", "x" * 300, Str("sub")]
CAUSES = {
    "None": None, "0": 0, "''": "", "False": False, "'c'": "c", "JSUndefined": JSUndefined, "[]": [], "{}": {}, "1.5": 1.5, "True": True,
    "JSError('x')": JSError("x"), "JSErrorData('y', cause=JSError('z'))": JSErrorData("y", cause=JSError("z")), "ValueError('v')": ValueError("v"),
}  # fmt: skip


def same_cause(got, want):
    if isinstance(want, ValueError):
        return got.message == "ValueError: v" and got.name == "Error" and got.cause is None
    if isinstance(want, (JSError, JSErrorData)):
        return got.message == want.message and same_cause(got.cause, want.cause)
    if isinstance(want, list):
        return isinstance(got, JSArray) and len(got) == 0
    if isinstance(want, dict):
        return len(got) == 0
    return type(got) is type(want) and got == want


def field_task(r, cls, part, parts):
    cases = list(itertools.product([*NAMES, *JSErrorName, "UriError", "", "Custom", "error", "AggregateError", "\ud800", Str("TypeError"), "E", *NEAR],
                                   TEXTS, TEXTS, CAUSES))[part::parts]  # fmt: skip
    few = [c for i, c in enumerate(cases) if i % 23 == part % 23]
    asked = []
    for name, message, stack, cause in cases:
        circular = (len(asked) + len(name)) % 2 == 0
        code = f"{cls.__name__}({message!r}, name={name!r}, stack={stack!r}, cause={cause})"
        key = f"fields: {code[:200]}"
        e = cls(message, name=name, stack=stack, cause=CAUSES[cause])
        for features in (None, CIRCULAR) if (name, message, stack, cause) in few else (CIRCULAR if circular else None,):
            r.transitions += 1
            try:
                data = dumps(e, features=features)
            except Exception as x:
                r.violation(key, f"dumps raised {exc_summary(x)}", code)
                continue
            for how, (builder, kind) in BUILDERS.items():
                try:
                    got = loads(data, js_error_builder=builder)
                except Exception as x:
                    r.violation(key, f"loads raised {exc_summary(x)}", code)
                    continue
                if type(got) is not kind:
                    r.violation(key, f"loads gives a {type(got)}", code)
                    continue
                check_name(r, key, code, got.name, name)
                m = message
                if m is None and (kind is JSError or cls is JSError):
                    m = ""
                if got.message != m or got.stack != stack or not same_cause(got.cause, CAUSES[cause]):
                    r.violation(key, f"{how}: message {got.message!r}, stack {got.stack!r}, cause {got.cause!r}", code)
                else:
                    r.traces += 1
                    r.outcomes[js_name(name)] += 1
            asked.append((key, code, name, message, stack, cause, data))
        if e.name != name or e.cause is not CAUSES[cause] or e.stack != stack:
            r.violation(key, "the error was changed by serializing it", code)
    r.states += len(cases)
    for (key, code, name, message, stack, cause, data), reply in zip(asked, nodejs.batch([{"op": "deser", "hex": a[-1].hex()} for a in asked])):
        if "err" in reply:
            r.violation(key, f"V8 can't read it: {reply['err']}", code)
            continue
        root, nodes = nodejs.table(reply["ok"])
        _, n, m, s, c = nodes[root[1]]
        h = lambda t: ("str", t.encode("utf-16-be", "surrogatepass").hex())  # noqa: E731
        if n != js_name(name) or m != h(message or "") or stack is not None and s != h(stack) or (cause == "None") != (c == ("absent",)):
            r.violation(key, f"V8 sees {nodes}", code)
        else:
            r.traces += 1


# -- both layouts of serialized errors -----------------------------------------


def layout_task(r):
    def string(s):
        return bytes([0x22, len(s)]) + s

    protos = {None: "Error", "E": "EvalError", "R": "RangeError", "F": "ReferenceError", "S": "SyntaxError", "T": "TypeError", "U": "URIError"}
    causes = {
        "none": (b"", None), "int": (b"I\x02", 1), "obj": (b"o{\x00", "obj"), "null": (b"0", None), "undefined": (b"_", JSUndefined), "false": (b"F", False),
        "error": (b"rTm" + string(b"c") + b".", "err"), "error with stack": (b"rTm" + string(b"c") + b"s" + string(b"t") + b".", "err"),
        "error with a cause": (b"rm" + string(b"c") + b"cI\x04.", "err"), "self": (b"^\x01", "self"), "list": (b"^\x00", "list"),
    }  # fmt: skip
    for (proto, name), message, stack, (cname, (cause, meaning)), builder in itertools.product(
        protos.items(), (None, b"", b"m"), (None, b"", b"stack"), causes.items(), (None, JSErrorData.builder)
    ):
        results = []
        for order in ("new", "old"):
            body = b"r" + (proto.encode() if proto else b"")
            m = b"m" + string(message) if message is not None else b""
            s = b"s" + string(stack) if stack is not None else b""
            c = b"c" + cause if cause else b""
            body += m + (s + c if order == "new" else c + s) + b"."
            ids = 2 + (meaning in ("obj", "err"))
            # the list refers to the error and to an object after it
            data = b"\xff\x0fA\x04" + body + b"o{\x00^\x01" + b"^" + bytes([ids]) + b"$\x00\x04"
            r.transitions += 1
            key = f"layout: {order} {name} message={message} stack={stack} cause={cname}"
            code = f"loads(bytes.fromhex({data.hex()!r}))"
            try:
                lst = loads(data, js_error_builder=builder)
            except Exception as x:
                r.violation(key, f"raised {exc_summary(x)}", code)
                continue
            e, obj, e2, obj2 = lst.array
            want_cause = {"obj": lambda: isinstance(e.cause, JSObject) and len(e.cause) == 0, "err": lambda: getattr(e.cause, "message", None) == "c",
                          "self": lambda: e.cause is e, "list": lambda: e.cause is lst}  # noqa: B023  # fmt: skip
            good = want_cause[meaning]() if isinstance(meaning, str) else type(e.cause) is type(meaning) and e.cause == meaning
            want_message = message.decode() if message is not None else ("" if builder is None else None)
            want_stack = stack.decode() if stack is not None else None
            if e2 is not e or obj2 is not obj or type(obj) is not JSObject or obj is e.cause:
                r.violation(key, "object references are off", code)
            elif not good or e.message != want_message or e.stack != want_stack:
                r.violation(key, f"message {e.message!r}, stack {e.stack!r}, cause {e.cause!r}", code)
            else:
                r.traces += 1
                results.append(order)
            check_name(r, key, code, e.name, name if name != "URIError" else "UriError")
        r.outcomes["both layouts" if len(results) == 2 else "differ"] += 1
        r.states += 1


# -- cause graphs --------------------------------------------------------------


def graph_task(r, n, part, parts):
    """Every way n values refer to each other as causes, members, and items."""
    kinds = ("JSError", "JSErrorData", "list", "obj")
    asked = []
    combos = itertools.product(itertools.product(kinds, repeat=n), itertools.product((None, *range(n)), repeat=n), itertools.product((None, *range(n)), repeat=n))
    for ks, first, second in itertools.islice(combos, part, None, parts):
        if not any(k.startswith("JS") for k in ks):
            continue
        if any(s is not None and k.startswith("JS") for k, s in zip(ks, second)):
            continue  # an error refers to one thing
        objs = [JSError(f"m{i}") if k == "JSError" else JSErrorData(f"m{i}") if k == "JSErrorData" else [] if k == "list" else JSObject() for i, k in enumerate(ks)]
        for o, k, a, b in zip(objs, ks, first, second):
            for j, t in ((0, a), (1, b)):
                if t is None:
                    continue
                if k == "list":
                    o.append(objs[t])
                elif k == "obj":
                    o["ab"[j]] = objs[t]
                else:
                    o.cause = objs[t]
        edges = [[t for t in (a, b) if t is not None] for a, b in zip(first, second)]
        seen, active, circular = set(), [], False

        def visit(i):
            nonlocal circular
            if i in active:
                circular = circular or ks[i].startswith("JS")  # noqa: B023
                return
            if i in seen:
                return
            seen.add(i)  # noqa: B023
            active.append(i)  # noqa: B023
            for t in edges[i]:  # noqa: B023
                visit(t)  # noqa: B023
            active.pop()  # noqa: B023

        visit(0)
        if len(seen) < n:
            continue
        key = f"graph: {ks} {first} {second}"
        code = f"mc.checks.c16.graph_task: {ks} {first} {second}"
        r.states += 1
        for features in (None, CIRCULAR):
            r.transitions += 1
            try:
                data = dumps(objs[0], features=features)
            except V8SerializeError:
                if features or not circular:
                    r.violation(key, "refused", code)
                r.outcomes["refused: circular"] += 1
                continue
            except Exception as x:
                r.violation(key, f"raised {exc_summary(x)}", code)
                continue
            if circular and not features:
                r.violation(key, "a circular cause is written without the feature", code)
                continue
            for how, (builder, kind) in BUILDERS.items():
                bad = isomorphic(ks, edges, 0, loads(data, js_error_builder=builder), kind)
                if bad:
                    r.violation(key, f"{how}: {bad}", code)
                else:
                    r.traces += 1
                    r.outcomes["circular" if circular else "shared or tree"] += 1
            asked.append((key, code, ks, edges, data))
    for (key, code, ks, edges, data), reply in zip(asked, nodejs.batch([{"op": "deser", "hex": a[-1].hex()} for a in asked])):
        if "err" in reply:
            r.violation(key, f"V8 can't read it: {reply['err']}", code)
            continue
        root, nodes = nodejs.table(reply["ok"])
        bad = isomorphic_js(ks, edges, 0, root, nodes)
        if bad:
            r.violation(key, f"V8 sees {bad}: {nodes}", code)
        else:
            r.traces += 1


def isomorphic(ks, edges, i, v, kind):
    seen, todo = {}, [(i, v)]
    back = {}
    while todo:
        i, v = todo.pop()
        if i in seen or id(v) in back:
            if seen.get(i) is not v or back.get(id(v)) != i:
                return f"value {i} isn't one object"
            continue
        seen[i], back[id(v)] = v, i
        k = ks[i]
        if k == "list":
            if not isinstance(v, JSArray):
                return f"value {i} is {type(v)}"
            kids = list(v.array)
        elif k == "obj":
            if type(v) is not JSObject:
                return f"value {i} is {type(v)}"
            kids = [v[p] for p in "ab" if p in v]
        else:
            if type(v) is not kind or v.message != f"m{i}":
                return f"value {i} is {type(v)} {v.message!r}"
            kids = [] if v.cause is None else [v.cause]
        if len(kids) != len(edges[i]):
            return f"value {i} has {len(kids)} values"
        todo += zip(edges[i], kids)
    return None


def isomorphic_js(ks, edges, i, ref, nodes):
    seen, back, todo = {}, {}, [(i, ref)]
    while todo:
        i, (t, x) = todo.pop()
        if t != "r":
            return f"value {i} as {t}"
        if i in seen or x in back:
            if seen.get(i) != x or back.get(x) != i:
                return f"value {i} not as one object"
            continue
        seen[i], back[x] = x, i
        n = nodes[x]
        kids = [e[1] for e in n[2]] if n[0] == "Array" else [e[1] for e in n[1]] if n[0] == "Object" else [n[4]] if n[4] != ("absent",) else []
        if n[0] != {"list": "Array", "obj": "Object"}.get(ks[i], "Error") or len(kids) != len(edges[i]):
            return f"value {i} as {n[0]} of {len(kids)}"
        todo += zip(edges[i], kids)
    return None


# -- errors made by V8 ---------------------------------------------------------

JS_ERRORS = r"""
(function () {
  const out = [];
  const ctors = [Error, EvalError, RangeError, ReferenceError, SyntaxError, TypeError, URIError];
  const messages = [undefined, '', 'm', '\u00e9', '\u0100', '\ud800'];
  const stacks = [undefined, '', 's', '\u0100'];
  const causes = [undefined, null, 0, '', false, 'c', [], {}];
  const names = [undefined, 'RangeError', 'Custom', 'URIError'];
  for (const C of ctors) for (const m of messages) for (const s of stacks) for (let c = 0; c < causes.length + 1; c++) for (const n of names) {
    const e = m === undefined ? new C() : new C(m);
    if (s !== undefined) Object.defineProperty(e, 'stack', {value: s, writable: true, configurable: true, enumerable: false});
    if (c < causes.length) Object.defineProperty(e, 'cause', {value: causes[c], enumerable: false});
    if (n !== undefined) e.name = n;
    const ser = new v8.Serializer(); ser.writeHeader(); ser.writeValue(e);
    const hex = ser.releaseBuffer().toString('hex');
    const back = v8.deserialize(Buffer.from(hex, 'hex'));
    out.push([hex, back.name, back.message, back.stack, Object.hasOwn(back, 'cause') ? c : -1]);
  }
  return JSON.stringify(out);
})()"""


def v8_task(r):
    (reply,) = nodejs.batch([{"op": "eval", "src": JS_ERRORS}])
    causes = [JSUndefined, None, 0, "", False, "c", [], {}]
    asked = []
    for hexed, name, message, stack, cause in json.loads(reply["ok"]):
        want = causes[cause] if cause >= 0 else None
        for builder, kind in BUILDERS.values():
            r.transitions += 1
            key, code = f"from V8: {name} {message!r} {cause} {hexed[:40]}", f"loads(bytes.fromhex({hexed!r}))"
            try:
                e = loads(bytes.fromhex(hexed), js_error_builder=builder)
            except Exception as x:
                r.violation(key, f"raised {exc_summary(x)}", code)
                continue
            check_name(r, key, code, e.name, "UriError" if name == "URIError" else name)
            if type(e) is not kind or (e.message or "") != message or e.stack != stack or not same_cause(e.cause, want):
                r.violation(key, f"{e!r} has message {e.message!r}, stack {e.stack!r}, cause {e.cause!r}; V8 {message!r} {stack!r} {want!r}", code)
            else:
                r.traces += 1
                r.outcomes["from V8"] += 1
        asked.append((key, code, name, message, stack, cause, dumps(e)))
    for (key, code, name, message, stack, cause, data), reply in zip(asked, nodejs.batch([{"op": "deser", "hex": a[-1].hex()} for a in asked])):
        root, nodes = nodejs.table(reply["ok"]) if "ok" in reply else (None, [reply])
        h = lambda t: ("str", t.encode("utf-16-be", "surrogatepass").hex())  # noqa: E731
        n = nodes[0]
        if n[0] != "Error" or n[1] != name or n[2] != h(message) or n[3] != h(stack) or (n[4] == ("absent",)) != (cause in (-1, 1)):
            r.violation(key, f"V8 sees {nodes} after the way back", code)
        else:
            r.traces += 1


# -- Python exceptions ---------------------------------------------------------


class Custom(Exception):
    def __str__(self):
        return "custom text"


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError


def syntax_error():
    try:
        compile("x = (1\ny =", "<some source>", "exec")
    except SyntaxError as e:
        return e


KINDS = {
    "ValueError('text')": (lambda: ValueError("text"), "ValueError: text"),
    "ValueError()": (lambda: ValueError(), "ValueError"),
    "ValueError('')": (lambda: ValueError(""), "ValueError"),
    "KeyError('k')": (lambda: KeyError("k"), "KeyError: 'k'"),
    "OSError(2, 'No')": (lambda: OSError(2, "No"), "FileNotFoundError: [Errno 2] No"),
    "Custom()": (lambda: Custom(), f"{__name__}.Custom: custom text"),
    "multi-line": (lambda: ValueError("a\n  b"), "ValueError: a\n  b"),
    "spaces": (lambda: ValueError("  a"), "ValueError:   a"),
    "λ": (lambda: ValueError("λ\U0001f600"), "ValueError: λ\U0001f600"),
    "surrogate": (lambda: ValueError("\ud800"), "ValueError: \ud800"),
    "KeyboardInterrupt()": (lambda: KeyboardInterrupt(), "KeyboardInterrupt"),
    "BaseException('b')": (lambda: BaseException("b"), "BaseException: b"),
    "StopIteration(1)": (lambda: StopIteration(1), "StopIteration: 1"),
    "SyntaxError('bad')": (lambda: SyntaxError("bad"), "SyntaxError: bad"),
    "SyntaxError in source": (syntax_error, "SyntaxError: '(' was never closed"),
    "SyntaxError with place": (lambda: SyntaxError("oops", ("f.py", 3, 2, "the text\n")), "SyntaxError: oops"),
    "IndentationError": (lambda: IndentationError("ind", ("f.py", 1, 1, "  x\n")), "IndentationError: ind"),
    "group": (lambda: ExceptionGroup("g", [ValueError("x")]), "ExceptionGroup: g (1 sub-exception)"),
    "nested group": (lambda: BaseExceptionGroup("g", [ExceptionGroup("h", [KeyError(1)]), KeyboardInterrupt()]), "BaseExceptionGroup: g (2 sub-exceptions)"),
    "noted": (lambda: noted(ValueError("n")), "ValueError: n"),
    "noted SyntaxError": (lambda: noted(SyntaxError("s", ("f.py", 3, 2, "the text\n"))), "SyntaxError: s"),
    "JSError": (lambda: RuntimeError("wrapped"), "RuntimeError: wrapped"),
}  # fmt: skip


def noted(e):
    e.add_note("a note")
    e.add_note("another")
    return e


def describes(r, key, code, data, exc_line, exact=True):
    """Whether error data is of an exception with a message line."""
    if data.name != "Error":
        r.violation(key, f"name is {data.name!r}", code)
    if not isinstance(data.message, str) or not data.message.startswith(exc_line.split("\n")[0] if not exact else exc_line):
        r.violation(key, f"message is {data.message!r}, expected {exc_line!r}", code)
        return False
    if not isinstance(data.stack, str) or exc_line not in data.stack:
        r.violation(key, f"stack is {data.stack!r}, without {exc_line!r}", code)
        return False
    return True


def make_frames(names, lines, fail):
    """Raise an exception through functions of given names, at given lines."""
    scope = {"fail": fail}
    for i, (n, line) in enumerate(zip(names, lines)):
        if i == 0:
            src = "\n" * (line - 2) + f"def {n}():\n    raise fail()"
        else:
            src = "\n" * (line - 2) + f"def {n}():\n    {names[i - 1]}()"
        exec(compile(src, f"/some dir/{n}.py", "exec"), scope)  # noqa: S102
    try:
        scope[names[-1]]()
    except BaseException as e:
        e.__traceback__ = e.__traceback__.tb_next
        return e


def kind_task(r):
    """Every kind of exception, with every depth of traceback, encoded and read back."""
    pool = [("f", 2), ("λ", 40), ("g_1", 7), ("main", 100)]
    asked = []
    for kind, depth in itertools.product(KINDS, range(5)):
        make, line = KINDS[kind]
        e = make_frames([p[0] for p in pool[:depth]], [p[1] for p in pool[:depth]], make) if depth else make()
        if not depth:
            e.__traceback__ = None
        key = f"exception: {kind} {depth} frames"
        code = f"e = {kind}  # raised through {depth} functions\nJSErrorData.from_exception(e)"
        r.states += 1
        direct = JSErrorData.from_exception(e)
        data = dumps(e)
        tbe = TracebackException.from_exception(e)
        got = {"from_exception": direct, "from_traceback_exception": JSErrorData.from_traceback_exception(tbe), "loads": loads(data), "loads data": loads(data, js_error_builder=JSErrorData.builder),
               "in a list": loads(dumps([1, e, e])).array[1], "as cause": loads(dumps(JSErrorData("x", cause=e))).cause}  # fmt: skip
        for how, d in got.items():
            r.transitions += 1
            if not describes(r, f"{key} {how}", code, d, line):
                continue
            if d.cause is not None:
                r.violation(f"{key} {how}", f"cause is {d.cause!r}", code)
            if d.message != direct.message or d.stack != direct.stack:
                r.violation(f"{key} {how}", "differs from from_exception()", code)
            frames = re.findall(r"^    at (\S+) \(/some dir/(.*)\.py:(\d+):(\S+)\)$", d.stack.split("\n\n")[0], re.M)
            want = [(n, n, str(ln), "4") for n, ln in pool[:depth]]
            if frames != want:
                r.violation(f"{key} {how}", f"frames {frames}, expected {want} in {d.stack!r}", code)
            elif kind.startswith("noted") and ("a note" not in d.stack or "another" not in d.stack):
                r.violation(f"{key} {how}", "the stack lacks the notes", code)
            else:
                r.traces += 1
                r.outcomes[kind] += 1
        lst = loads(dumps([e, e])).array
        if lst[0] is not lst[1]:
            r.violation(key, "an exception that occurs twice isn't one error", code)
        asked.append((key, code, direct, data))
    for (key, code, direct, data), reply in zip(asked, nodejs.batch([{"op": "deser", "hex": a[-1].hex()} for a in asked])):
        h = lambda t: ("str", t.encode("utf-16-be", "surrogatepass").hex())  # noqa: E731
        nodes = nodejs.table(reply["ok"])[1] if "ok" in reply else [reply]
        if len(nodes) != 1 or nodes[0] != ("Error", "Error", h(direct.message), h(direct.stack), ("absent",)):
            r.violation(key, f"V8 sees {nodes}", code)
        else:
            r.traces += 1


def chain_task(r, n, part, parts):
    """Every way n exceptions can be each other's cause and context."""
    one = list(itertools.product((None, *range(n)), (None, *range(n)), (False, True)))
    for links in itertools.islice(itertools.product(one, repeat=n), part, None, parts):
        excs = [ValueError(f"e{i}") for i in range(n)]
        for e, (cause, context, suppress) in zip(excs, links):
            e.__context__ = None if context is None else excs[context]
            e.__cause__ = None if cause is None else excs[cause]
            e.__suppress_context__ = suppress
        judge_chain(r, f"chain: {links}", excs, links, [()] * n)


def group_task(r, n, part, parts):
    """... and members of groups (the first may contain the others)."""
    one = list(itertools.product((None, *range(n)), (None, *range(n)), (True,)))
    for members in ((1,), (1, 2), (2, 1), (2,)):
        for links in itertools.islice(itertools.product(one, repeat=n), part, None, parts):
            rest = [ValueError(f"e{i}") for i in range(1, n)]
            excs = [ExceptionGroup("e0", [rest[m - 1] for m in members]), *rest]
            for e, (cause, context, suppress) in zip(excs, links):
                e.__context__ = None if context is None else excs[context]
                e.__cause__ = None if cause is None else excs[cause]
                e.__suppress_context__ = suppress
            judge_chain(r, f"group-chain: {members} {links}", excs, links, [members] + [()] * (n - 1))


def judge_chain(r, key, excs, links, members):
    r.states += 1
    r.transitions += 1
    code = f"e = [...]  # (cause, context, suppress): {links}, members of groups {members}"
    chain, i = [], 0
    while i is not None and i not in chain:
        chain.append(i)
        i = links[i][0]
    try:
        d = JSErrorData.from_exception(excs[0])
    except Exception as x:
        r.violation(key, f"raised {exc_summary(x)}", code)
        return
    got, x = [], d
    while x is not None and len(got) < 9:
        m = re.match(r"(?:ValueError|ExceptionGroup): e(\d)", x.message or "")
        got.append(int(m[1]) if m else x.message)
        x = x.cause
    if got != chain:
        # V8 has no notion of exception groups: members are told in the stack
        if any(members) and got == chain[: len(got)] and chain[len(got)] in members[0]:
            key = f"group-member-cause: {key}"
        r.violation(key, f"the causes are {got}, expected {chain}", code)
        return
    x = d
    reach, shared = set(), False

    def visit(i):
        nonlocal shared
        if i in reach:
            shared = True
            return
        reach.add(i)
        cause, context, suppress = links[i]
        for t in {cause, context} | set(members[i]):
            if t is not None:
                visit(t)

    visit(0)
    for i in chain:
        if f": e{i}" not in x.stack.split("\n")[0]:
            r.violation(key, f"the stack of e{i} is {x.stack!r}", code)
            return
        told = [int(c) for c in re.findall(r"another exception:\n\n(?:\S*): e(\d)", x.stack)]
        want, j = [], i
        while links[j][1] is not None and not links[j][2] and links[j][0] is None and links[j][1] not in want and links[j][1] != i:
            j = links[j][1]
            want.append(j)
        # where the walk ends at a suppressed or absent context, nothing more is told
        exact = links[j][1] is None or (links[j][2] and links[j][0] is None)
        if exact and not shared:
            wrong = told != want
        else:
            wrong = told[: len(want)] != want if not shared else any(t not in reach for t in told)
        if wrong:
            r.violation(key, f"the stack of e{i} tells of {told}, expected {want}: {x.stack!r}", code)
            return
        for m in members[i]:
            if f"↳ {members[i].index(m) + 1}: ValueError: e{m}" not in x.stack:
                r.violation(key, f"the stack lacks member e{m}: {x.stack!r}", code)
                return
        x = x.cause
    r.traces += 1
    r.outcomes[f"{len(chain)} causes"] += 1


def tree_task(r, depth):
    """Nested groups tell of all their members, in order."""

    def trees(d):
        yield ()
        if d:
            for width in (1, 2):
                yield from itertools.product(list(trees(d - 1)), repeat=width)

    for tree in trees(depth):
        if tree == ():
            continue
        count = itertools.count()
        want = []

        def build(t, path):
            i = next(count)  # noqa: B023
            if path:
                want.append((".".join(map(str, path)), i))  # noqa: B023
            if t == ():
                return ValueError(f"e{i}")
            return ExceptionGroup(f"e{i}", [build(s, (*path, j)) for j, s in enumerate(t, 1)])

        e = build(tree, ())
        r.states += 1
        r.transitions += 1
        d = JSErrorData.from_exception(e)
        got = [(a, int(b)) for a, b in re.findall(r"^ *↳ ([\d.]+): (?:\S+): e(\d+)", d.stack, re.M)]
        if got != want:
            r.violation(f"tree: {tree}", f"tells of {got}, expected {want}: {d.stack}")
        else:
            r.traces += 1
            r.outcomes["groups"] += 1


# -- what a stack says of where ------------------------------------------------


def at(name, file, line, col):
    """The places a frame can be said to be at: what is known is told, in order, and nothing is made up."""
    part = lambda x: r"[^\d:()]+" if x is None else re.escape(str(x))  # noqa: E731
    if file is line is col is None:
        return re.compile(rf"    at {re.escape(name)} [^\d]*")
    return re.compile(rf"    at {re.escape(name)} \({part(file)}:{part(line)}:{part(col)}\)")


def place_task(r):
    """Exceptions raised at every one of some places, in every kind of code."""
    files = ["m.py", "/a b/λ.py", "<string>", "C:\\x.py", "f(1).py", "9"]
    lines, columns = [1, 2, 9, 300], [0, 1, 4, 9, 10, 90]
    kinds = {
        "<module>": "{i}raise E", "f": "def f():\n{i} raise E\nf()", "<lambda>": "{i}(lambda: fail())()", "K": "class K:\n{i} raise E",
        "<genexpr>": "{i}list(fail() for _ in '1')", "λ_1": "def λ_1():\n{i} raise E\nλ_1()", "__init__": "class A:\n def __init__(self):\n{i}  raise E\nA()",
    }  # fmt: skip

    def fail():
        raise KeyError(1)

    for (name, text), file, line, col in itertools.product(kinds.items(), files, lines, columns):
        src = "\n" * (line - 1) + text.format(i=" " * col)
        if not text.startswith(("def", "class")) and col:
            continue
        try:
            exec(compile(src, file, "exec"), {"E": ValueError("e"), "fail": fail, "__name__": "m"})  # noqa: S102
        except (ValueError, KeyError) as e:
            exc = e
        frames = TracebackException.from_exception(exc).stack
        key = f"place: {name} {file!r} {line} {col}"
        r.states += 1
        # (what Python knows of the frames, in the order of JavaScript's stacks)
        want = [(f.name, f.filename, f.lineno, getattr(f, "colno", None)) for f in reversed(frames)]
        if (name, file) not in [f[:2] for f in want]:
            raise AssertionError(f"the case has no such frame: {want}")
        judge_places(r, key, src, JSErrorData.from_exception(exc).stack, want)
        judge_places(r, key + " loads", src, loads(dumps(exc)).stack, want)


def judge_places(r, key, code, stack, want):
    r.transitions += 1
    got = [x for x in stack.split("\n") if x.startswith("    at ")]
    if len(got) != len(want) or not all(at(*w).fullmatch(g) for g, w in zip(got, want)):
        r.violation(key, f"the frames are {got}, expected {want}", code)
    else:
        r.traces += 1
        r.outcomes["places"] += 1


def summary_task(r):
    """Every combination of known and unknown places, of up to 2 frames."""
    all_ = [
        (name, file, line, col)
        for name, file, line, col in itertools.product(["f", "<module>"], [None, "m.py", "", "0"], [None, 0, 1, 77], [None, 0, 1, 12])
    ]
    for n in (0, 1, 2):
        for frames in itertools.product(all_ if n < 2 else all_[::3], repeat=n):
            tbe = TracebackException(ValueError, ValueError("x"), None)
            out = []
            for name, file, line, col in frames:
                f = FrameSummary(file, line, name, lookup_line=False, line="x", colno=col)
                out.append(f)
            tbe.stack = StackSummary.from_list(out)
            r.states += 1
            want = [(name, file, line, col) for name, file, line, col in reversed(frames)]
            judge_places(r, f"summary: {frames}", f"frames = {frames}", JSErrorData.from_traceback_exception(tbe).stack, want)


# -- assignments ---------------------------------------------------------------


def assign_task(r, cls, depth, part, parts):
    """Every sequence of assignments to the fields of an error, against a record of them."""
    values = {
        "message": [None, "", "m2", "é"], "name": ["TypeError", JSErrorName.RangeError, "Custom"], "stack": [None, "", "s2"],
        "cause": [None, 0, "c", "itself"],
    }  # fmt: skip
    ops = [(f, v) for f, vs in values.items() for v in vs]
    for k in range(1, depth + 1):
        for seq in list(itertools.product(ops, repeat=k))[part::parts]:
            e = cls("m", name="EvalError", stack="s", cause="c0")
            model = {"message": "m", "name": "EvalError", "stack": "s", "cause": "c0"}
            code = f"e = {cls.__name__}('m', name='EvalError', stack='s', cause='c0')\n" + "\n".join(f"e.{f} = {v!r}" for f, v in seq)
            key = f"assign: {cls.__name__} {seq}"
            r.states += 1
            for f, v in seq:
                r.transitions += 1
                if v == "itself":
                    v = e
                setattr(e, f, v)
                model[f] = "" if f == "message" and v is None and cls is JSError else v
            got = {f: getattr(e, f) for f in model}
            if any(got[f] is not model[f] and (got[f] != model[f] or type(got[f]) is not type(model[f])) for f in model):
                r.violation(key, f"has {got!r}", code)
                continue
            try:
                made = cls(model["message"], name=model["name"], stack=model["stack"], cause=model["cause"])
                if model["cause"] is not e and (made != e or e != made):
                    r.violation(key, f"{e!r} differs from {made!r}", code)
                    continue
                for builder, kind in ((None, JSError), (JSErrorData.builder, JSErrorData)):
                    back = loads(dumps(e, features=CIRCULAR), js_error_builder=builder)
                    m = "" if model["message"] is None and (kind is JSError or cls is JSError) else model["message"]
                    if (back.message, back.stack, js_name(back.name)) != (m, model["stack"], js_name(str(getattr(model["name"], "value", model["name"])))):
                        r.violation(key, f"{back!r} after a round trip", code)
                        break
                    if back.cause is not back if model["cause"] is e else (type(back.cause), back.cause) != (type(model["cause"]), model["cause"]):
                        r.violation(key, f"{back!r} after a round trip", code)
                        break
                else:
                    r.traces += 1
                    r.outcomes["assignments"] += 1
            except Exception as x:
                r.violation(key, f"raised {exc_summary(x)}", code)


def main(check):
    check.bounds = {
        "fields": "names x messages x stacks x causes x classes x builders",
        "layouts": "every subset of fields x cause kinds in both orders, with references across",
        "graphs": "all reference graphs of up to 3 values of 4 kinds that contain errors",
        "exceptions": "all kinds x traceback depths up to 4; all cause/context/suppress links of up to 3 exceptions; groups of up to 3 levels; places: kinds of code x files x lines x columns, and all known and unknown parts of up to 2 frames",
        "assignments": "all sequences of up to 3 (thorough: 4) assignments to an error's fields",
    }
    check.assumptions = [
        "a cause of None is no cause (documented: there's no other way to say so)",
        "cycles of __cause__ are cut where they meet an exception again (documented)",
        "the decoded name of URIError is spelled UriError (listed finding)",
        "exceptions in contexts and groups are told of in the text of the stack (documented)",
    ]
    t = check.thorough
    check.phase("fields", [(field_task, (c, i, 8)) for c in (JSError, JSErrorData) for i in range(8)])
    check.phase("layouts", [(layout_task, ())])
    check.phase("graphs", [(graph_task, (n, i, 8)) for n in (1, 2, 3) for i in range(8)])
    check.phase("V8 errors", [(v8_task, ())])
    check.phase("exceptions", [(kind_task, ()), (tree_task, (3 if t else 2,))])
    check.phase("places", [(place_task, ()), (summary_task, ())])
    check.phase("assignments", [(assign_task, (c, 4 if t else 3, i, 8)) for c in (JSError, JSErrorData) for i in range(8)])
    check.phase("chains", [(chain_task, (n, i, 8)) for n in (1, 2, 3) for i in range(8)])
    check.phase("group chains", [(group_task, (3, i, 8)) for i in range(8)])


chunks  # noqa: B018
