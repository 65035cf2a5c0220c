#!/opt/venv/bin/python
"""Look for gaps: make small changes to the code that the repository's tests pass,
and list those that the checks pass too (development only; the survivors are read by
hand: most change no behaviour).

usage: mutate.py [-j N] [-n COUNT] [-s SEED] [-o LOG] [FILE...]
"""
from __future__ import annotations

import argparse
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
CHECKS = {
    "decode.py": "C24 C05 C06 C22 C04 C02 C16 C19 C18 C20 C07 C21",
    "encode.py": "C07 C24 C01 C22 C03 C08 C02 C16 C19 C18 C20 C21",
    "_references.py": "C07 C24 C02 C22 C18 C20",
    "_values.py": "C07 C01 C22",
    "_errors.py": "C24 C06 C07 C12",
    "_recursive_eq.py": "C13 C18",
    "_versions.py": "C08",
    "_decorators.py": "C01 C19",
    "constants.py": "C08 C21 C24 C05 C07 C22 C19 C15 C03",
    "extensions.py": "C20 C19 C24 C18",
    "jsobject.py": "C09 C10 C13 C11 C17 C01 C24 C12",
    "jsarray.py": "C09 C10 C13 C11 C17 C24",
    "jsarrayproperties.py": "C10 C09 C17 C13 C05",
    "jsmap.py": "C12 C13 C24 C17 C01",
    "jsset.py": "C12 C13 C17 C01",
    "_equality.py": "C12 C13",
    "jsbuffers.py": "C14 C15 C24 C13 C17 C01 C20 C04",
    "jserror.py": "C16 C04 C13 C17 C01",
    "_v8traceback.py": "C16 C04",
    "_repr.py": "C17 C13 C18",
    "jsregexp.py": "C21 C13 C17 C04",
    "_normalise_property_key.py": "C11 C09 C24 C05",
    "jsprimitiveobject.py": "C13 C12 C17 C01",
    "jsundefined.py": "C17 C13 C01 C18",
    "_v8.py": "C07 C01 C13 C17",
}


FAST = "not (statemachine or Comparison or rt_js or rt_string or rt_object)"


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.data = text.encode()
        self.found = []
        self.skip = 0

    def pos(self, node):
        return self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset

    def src(self, node):
        a, b = self.pos(node)
        return self.data[a:b].decode()

    def put(self, node, new, why):
        a, b = self.pos(node)
        self.found.append((a, b, new, f"{node.lineno}: {why}"))

    def visit_FunctionDef(self, node):
        if any("overload" in ast.unparse(d) or "abstractmethod" in ast.unparse(d) for d in node.decorator_list):
            return
        for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
            self.visit(d)
        self.swaps(node.body)
        for s in node.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)

    def visit_AnnAssign(self, node):
        if node.value:
            self.visit(node.value)

    def visit_If(self, node):
        if "TYPE_CHECKING" in ast.unparse(node.test) or "version_info" in ast.unparse(node.test):
            return
        t = self.src(node.test)
        self.put(node.test, f"(({t}) and False)", f"never: if {t}")
        self.put(node.test, f"(({t}) or True)", f"always: if {t}")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.put(node, f"({self.src(node.body)})", f"first of {self.src(node)}")
        self.put(node, f"({self.src(node.orelse)})", f"second of {self.src(node)}")
        self.generic_visit(node)

    def put_new(self, node, new, why):
        self.put(node, new, "+ " + why)

    def visit_With(self, node):
        a, b = self.starts[node.lineno - 1] + node.col_offset, self.pos(node.body[0])[0]
        head = self.data[a:b].decode()
        if not any(i.optional_vars for i in node.items) and head.rstrip().endswith(":"):
            self.found.append((a, b, "if True:" + head[len(head.rstrip()):], f"{node.lineno}: + no {head.strip()}"))
        self.generic_visit(node)

    def generic_visit(self, node):
        for name in ("body", "orelse", "finalbody"):
            block = getattr(node, name, None)
            if isinstance(block, list) and not isinstance(node, (ast.ClassDef, ast.Module)):
                self.swaps(block)
        super().generic_visit(node)

    def swaps(self, block):
        simple = (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.Raise)
        for x, y in zip(block, block[1:]):
            if not isinstance(x, simple) or not isinstance(y, simple) or isinstance(x, ast.Raise):
                continue
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) or isinstance(y, ast.Expr) and isinstance(y.value, ast.Constant):
                continue
            sets = {t.id for t in ast.walk(x) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
            uses = {t.id for t in ast.walk(y) if isinstance(t, ast.Name)}
            if sets & uses:
                continue
            (a, b), (c, d) = self.pos(x), self.pos(y)
            new = self.data[c:d] + self.data[b:c] + self.data[a:b]
            self.found.append((a, d, new.decode(), f"{x.lineno}: + swapped with the next: {self.src(x)[:50]}"))

    def visit_Try(self, node):
        if node.finalbody:
            for s in node.finalbody:
                self.put_new(s, "pass", f"no finally {self.src(s)[:50]}")
        for h in node.handlers:
            if h.type is not None and isinstance(h.type, ast.Name):
                self.put_new(h.type, "ZeroDivisionError", f"no except {self.src(h.type)}")
        self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is not None and isinstance(node.value, ast.BoolOp) is False and isinstance(node.value, (ast.Call, ast.Attribute, ast.Name)):
            self.put_new(node, "return None", f"returns None: {self.src(node)[:60]}")
        self.generic_visit(node)

    def visit_Slice(self, node):
        for part in (node.lower, node.upper):
            if part is not None and not isinstance(part, ast.Constant):
                self.put_new(part, "", f"no bound {self.src(part)}")
                self.put_new(part, f"({self.src(part)}) + 1", f"bound + 1 {self.src(part)}")
        self.generic_visit(node)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            x = self.src(node.left)
            if ast.unparse(node.comparators[0]) in ("None", "JSHole", "JSUndefined", "MISSING"):
                if isinstance(node.ops[0], ast.IsNot):
                    self.put_new(node, f"bool({x})", f"truth: {self.src(node)}")
                elif isinstance(node.ops[0], ast.Is):
                    self.put_new(node, f"(not {x})", f"truth: {self.src(node)}")
            if isinstance(node.ops[0], ast.Eq):
                y = self.src(node.comparators[0])
                if "Tag" not in y:
                    self.put_new(node, f"{x} <= {y}", f"<=: {self.src(node)}")
                    self.put_new(node, f"{x} >= {y}", f">=: {self.src(node)}")
            a, b = self.src(node.left), self.src(node.comparators[0])
            swap = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}.get(type(node.ops[0]))
            if swap:
                self.put(node, f"{a} {swap} {b}", f"{swap}: {self.src(node)}")
            if isinstance(node.ops[0], ast.Is) and b != "None":
                self.put(node, f"{a} == {b}", f"==: {self.src(node)}")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        for i in range(len(node.values)):
            rest = [self.src(v) for j, v in enumerate(node.values) if j != i]
            op = " and " if isinstance(node.op, ast.And) else " or "
            self.put(node, "(" + op.join(f"({x})" for x in rest) + ")", f"without {self.src(node.values[i])}")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        new = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.BitOr: "&", ast.BitAnd: "|", ast.LShift: ">>"}.get(type(node.op))
        if new and not isinstance(node.right, ast.Constant) or new and isinstance(node.op, (ast.Add, ast.Sub, ast.FloorDiv)):
            self.put(node, f"({self.src(node.left)} {new} {self.src(node.right)})", f"{new}: {self.src(node)}")
        self.generic_visit(node)

    def visit_Constant(self, node):
        if type(node.value) is int:
            self.put(node, f"{node.value + 1}", f"{node.value + 1}")
            self.put(node, f"({node.value - 1})", f"{node.value - 1}")
        elif type(node.value) is bool:
            self.put(node, str(not node.value), f"{not node.value}")

    def visit_Subscript(self, node):
        if ast.unparse(node.value) not in ("Literal", "Union", "Generic", "Mapping", "dict"):
            self.generic_visit(node)

    def visit_JoinedStr(self, node):
        pass

    def visit_Expr(self, node):
        if isinstance(node.value, (ast.Call, ast.Await)):
            self.put(node, "pass", f"no {self.src(node)[:60]}")
        self.generic_visit(node)

    def visit_Raise(self, node):
        self.put(node, "pass", f"no {self.src(node)[:60]}")

    def visit_Assign(self, node):
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in node.targets):
            self.put(node, "pass", f"no {self.src(node)[:60]}")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.put(node, "pass", f"no {self.src(node)[:60]}")
        self.generic_visit(node)

    def visit_Break(self, node):
        self.put(node, "pass", "no break")

    def visit_Continue(self, node):
        self.put(node, "pass", "no continue")

    def visit_Call(self, node):
        f = ast.unparse(node.func)
        if f in ("cast", "TypeVar", "overload"):
            if f == "cast":
                self.visit(node.args[1])
            return
        if f == "isinstance" and isinstance(node.args[1], ast.Name):
            a, b = map(self.src, node.args)
            self.put_new(node, f"(type({a}) is {b})", f"type: {self.src(node)}")
        if f in ("list", "tuple", "dict", "set", "bytes", "bytearray", "memoryview", "iter", "sorted", "reversed", "str", "int", "float", "bool", "abs", "len") and len(node.args) == 1 and not node.keywords:
            self.put_new(node, f"({self.src(node.args[0])})", f"no {f}: {self.src(node)}")
        if f in ("min", "max") and len(node.args) == 2:
            for x in node.args:
                self.put_new(node, f"({self.src(x)})", f"only {self.src(x)}: {self.src(node)}")
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "toreadonly", "strip", "cast", "items", "values", "keys") and not node.keywords:
            self.put_new(node, f"({self.src(node.func.value)})", f"no .{node.func.attr}: {self.src(node)}")
        if len(node.args) == 2 and not node.keywords and not any(isinstance(x, ast.Starred) for x in node.args) and f not in ("isinstance", "getattr", "issubclass"):
            a, b = map(self.src, node.args)
            self.put_new(node, f"{self.src(node.func)}({b}, {a})", f"arguments swapped: {self.src(node)[:60]}")
        for k in node.keywords:
            if k.arg:
                rest = [self.src(a) for a in node.args] + [(f"{x.arg}=" if x.arg else "**") + self.src(x.value) for x in node.keywords if x is not k]
                self.put(node, f"{self.src(node.func)}({', '.join(rest)})", f"without {k.arg}=: {self.src(node)[:60]}")
        self.generic_visit(node)

    def visit_Tuple(self, node):
        if isinstance(node.ctx, ast.Load) and len(node.elts) > 1:
            for i in range(len(node.elts)):
                self.put(node, "(" + "".join(f"{self.src(x)}, " for j, x in enumerate(node.elts) if j != i) + ")", f"without {self.src(node.elts[i])} of {self.src(node)[:60]}")
        self.generic_visit(node)


def mutants(files):
    out = []
    for f in files:
        text = f.read_text()
        finder = Finder(text)
        finder.visit(ast.parse(text))
        seen = set()
        for a, b, new, why in finder.found:
            data = finder.data[:a] + new.encode() + finder.data[b:]
            try:
                tree = ast.dump(ast.parse(data.decode()))
            except SyntaxError:
                continue
            h = hash(tree)
            if h not in seen:
                seen.add(h)
                out.append((f.name, str(f), data.decode(), why))
    return out


def work(n, queue, log, only_tests):
    d = Path(f"/tmp/p/mut{'r' if only_tests == 'no' else ''}{n}")
    if d.exists():
        shutil.rmtree(d)
    subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
    env = dict(
        os.environ, PYTHONPATH=f"{d}/src:/opt/vp/plugins", MC_REPO_SRC=f"{d}/src", MC_OUT=f"{d}/.mc", PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0", HYPOTHESIS_STORAGE_DIRECTORY=f"{d}/.hyp",
    )
    env.pop("V8SERIALIZE_ECHOSERVERS", None)
    while True:
        item = queue.get()
        if item is None:
            break
        name, path, text, why = item
        target = d / Path(path).relative_to("/repo")
        original = target.read_text()
        t = time.time()
        try:
            target.write_text(text)
            def tests(*args):
                try:
                    r = subprocess.run(
                        ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "vp_hypothesis", "-n", "0", "--insta", "update-none", "-o", f"cache_dir={d}/.pc", "--timeout=60", *args, "test"],
                        cwd=d, env=env, capture_output=True, text=True, timeout=400,
                    )
                    return "tests" if r.returncode else None
                except subprocess.TimeoutExpired:
                    return "tests hang"

            res = None if only_tests == "no" else tests("-k", FAST)
            if res is None:
                for c in () if only_tests == "only" else CHECKS.get(name, "C01 C13 C17").split():
                    try:
                        r = subprocess.run([str(ROOT / "check.py"), c], cwd=ROOT, env=env, capture_output=True, text=True, timeout=300)
                    except subprocess.TimeoutExpired:
                        res = f"{c} hangs"
                        break
                    if r.returncode == 1 and "VIOLATION" in r.stdout:
                        res = c
                        break
                    if r.returncode:
                        res = f"{c} rc={r.returncode}"
                        break
                else:
                    res = None if only_tests == "no" else tests()
        finally:
            target.write_text(original)
        with open(log, "a") as f:
            f.write(f"{res or 'SURVIVED'}\t{name}:{why.strip()!r}\t{time.time() - t:.0f}s\n")
    shutil.rmtree(d)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("-j", type=int, default=4)
    p.add_argument("-n", type=int, default=100)
    p.add_argument("-s", type=int, default=1)
    p.add_argument("-o", default="/tmp/p/mut.log")
    p.add_argument("-t", action="store_true", help="run the repository's tests only")
    p.add_argument("-x", action="store_true", help="only the newer kinds of change")
    p.add_argument("-r", metavar="LOG", help="run the checks only, on the mutants that survived in LOG")
    p.add_argument("-l", action="store_true")
    p.add_argument("files", nargs="*")
    a = p.parse_args()
    src = Path("/repo/src/v8serialize")
    files = [f for f in sorted(src.rglob("*.py")) if "_pycompat" not in str(f) and f.name not in ("__init__.py", "_typing.py", "_enums.py") and (not a.files or f.name in a.files)]
    ms = mutants(files)
    if a.x:
        ms = [m for m in ms if ": + " in m[3]]
    if a.l:
        import collections

        print(len(ms), collections.Counter(m[0] for m in ms))
        return
    random.Random(a.s).shuffle(ms)
    if a.r:
        done = {x.split("\t")[1] for x in open(a.o)} if os.path.exists(a.o) else set()
        todo = {x.split("\t")[1] for x in open(a.r) if x.startswith("SURVIVED")} - done
        ms = [m for m in ms if f"{m[0]}:{m[3].strip()!r}" in todo]
    queue = multiprocessing.Queue()
    for m in ms[: a.n]:
        queue.put(m)
    procs = []
    for i in range(a.j):
        queue.put(None)
    for i in range(a.j):
        procs.append(multiprocessing.Process(target=work, args=(i, queue, a.o, "no" if a.r else "only" if a.t else "")))
        procs[-1].start()
    for x in procs:
        x.join()


if __name__ == "__main__":
    main()
