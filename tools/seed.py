#!/opt/venv/bin/python
"""Plant, confirm and keep the bugs described in a batch file (development only).

usage: seed.py [-j N] BATCH.py [id...]

BATCH.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo,
needs, breaks)]. Each is applied to a scratch copy of /repo, confirmed (changes original lines,
tests pass, demo fails with it and passes without it), kept in
/verif/seeded/<id>/, and the property's check is run against it.
"""
from __future__ import annotations

import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import time
from pathlib import Path

REPO = Path("/repo")
ROOT = Path(__file__).resolve().parents[1]
SEEDED = ROOT / "seeded"
ORIGINAL = ("bef1c0f", "0aa490a", "34b23a2")


def run(*args, timeout=1200, cwd=None, env=None):
    return subprocess.run(
        args, capture_output=True, text=True, timeout=timeout, cwd=cwd, env=env
    )


class Copy:
    """A scratch copy of /repo."""

    def __init__(self, n):
        self.dir = Path(f"/tmp/p/seed{n}")
        if self.dir.exists():
            shutil.rmtree(self.dir)
        run("cp", "-a", str(REPO), str(self.dir))
        self.src = self.dir / "src"
        self.env = dict(
            os.environ,
            PYTHONPATH=f"{self.src}:/opt/vp/plugins",
            MC_REPO_SRC=str(self.src),
            MC_OUT=str(self.dir / ".mc"),
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONHASHSEED="0",
            HYPOTHESIS_STORAGE_DIRECTORY=str(self.dir / ".hyp"),
        )
        self.env.pop("V8SERIALIZE_ECHOSERVERS", None)

    def run(self, *args, **kw):
        return run(*args, cwd=str(self.dir), env=self.env, **kw)

    def git(self, *args):
        return self.run("git", *args)

    def tests_pass(self):
        out = self.dir / ".junit.xml"
        self.run(
            "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "vp_hypothesis",
            "-n", "4", "--insta", "update-none",
            "-o", f"cache_dir={self.dir}/.pc", "--timeout=300",
            "--continue-on-collection-errors", "-o", "junit_family=xunit2",
            f"--junitxml={out}",
        )
        base = json.loads(Path("/opt/vp/BASELINE.json").read_text())
        want = set(base.get("stable", base.get("passed", base.get("tests", []))))
        res = self.dir / ".res.json"
        run("/usr/bin/python3", "/opt/vp/results.py", str(res), f"junit:{out}")
        got = json.loads(res.read_text())
        got = set(got.get("passed", got.get("pass", [])))
        return sorted(want - got)


def original_lines(diff, git):
    """Check that removed lines come from the original repository."""
    cur = None
    old = 0
    removed = foreign = 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        elif line.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", line)[1])
        elif line.startswith("-") and not line.startswith("---"):
            blame = git("blame", "-l", "-L", f"{old},{old}", "HEAD", "--", cur).stdout
            removed += 1
            if not blame.lstrip("^").startswith(ORIGINAL):
                foreign += 1
            old += 1
        elif line.startswith(" "):
            old += 1
    return removed, foreign


def plant(bug, copy):
    bid = bug["id"]
    git = copy.git
    d = SEEDED / bid
    d.mkdir(parents=True, exist_ok=True)
    (d / "demo.py").write_text(bug["demo"].lstrip("\n"))
    (d / "demo.sh").write_text(
        '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
    )
    (d / "demo.sh").chmod(0o755)
    (d / "meta.json").write_text(
        json.dumps(
            {
                "property": bug["property"],
                "needs": bug["needs"],
                "what_it_breaks": bug["breaks"],
            },
            indent=1,
        )
        + "\n"
    )
    git("checkout", "--", ".")
    demo = ("timeout", "250", "bash", str(d / "demo.sh"))
    clean = copy.run(*demo)
    if clean.returncode:
        return f"REJECTED demo fails on clean tree: {clean.stderr[-300:]}"
    try:
        for file, old, new in bug["edits"]:
            p = copy.src / "v8serialize" / file
            t = p.read_text()
            if t.count(old) != 1:
                return f"REJECTED edit matches {t.count(old)} times: {old[:60]!r}"
            p.write_text(t.replace(old, new))
        diff = git("diff").stdout
        (d / "patch.diff").write_text(diff)
        removed, foreign = original_lines(diff, git)
        note = ""
        if removed == 0 or foreign:
            note = f" [lines: removed={removed} foreign={foreign}]"
        bad = copy.run(*demo)
        if bad.returncode == 0:
            return "REJECTED demo passes with the patch" + note
        missing = copy.tests_pass()
        if missing:
            return f"REJECTED tests fail: {missing[:4]}" + note
        t = time.time()
        c = run(str(ROOT / "check.py"), bug["property"], cwd=str(ROOT), env=copy.env)
        t = time.time() - t
        lines = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
        res = "CAUGHT" if c.returncode == 1 and lines else f"MISSED rc={c.returncode}"
        tail = c.stderr.strip().splitlines()[-1:] if c.returncode not in (0, 1) else ""
        return f"{res} {len(lines)} violations {t:.0f}s{note} {tail}"
    finally:
        git("checkout", "--", ".")


def work(n, queue, out):
    copy = Copy(n)
    while True:
        bug = queue.get()
        if bug is None:
            break
        try:
            res = plant(bug, copy)
        except Exception as e:
            res = f"REJECTED error: {e!r}"
        print(bug["id"], bug["property"], res, flush=True)
        if res.startswith("REJECTED"):
            shutil.rmtree(SEEDED / bug["id"])
    shutil.rmtree(copy.dir)


def main():
    args = sys.argv[1:]
    jobs = 2
    if args[0] == "-j":
        jobs = int(args[1])
        del args[:2]
    ns = {}
    exec(compile(Path(args[0]).read_text(), args[0], "exec"), ns)
    bugs = [b for b in ns["BUGS"] if not args[1:] or b["id"] in args[1:]]
    queue = multiprocessing.Queue()
    for b in bugs:
        queue.put(b)
    procs = []
    for n in range(min(jobs, len(bugs))):
        queue.put(None)
        procs.append(multiprocessing.Process(target=work, args=(n, queue, None)))
    for p in procs:
        p.start()
    for p in procs:
        p.join()


if __name__ == "__main__":
    main()
