"""Infrastructure shared by the checks: running, parallelism, evidence, reports."""

from __future__ import annotations

import collections
import contextlib
import json
import multiprocessing
import os
import re
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("MC_REPO_SRC", "/repo/src")
# where a development run puts its evidence and replays
OUT = os.environ.get("MC_OUT", VERIF)
JOBS = min(8, os.cpu_count() or 1)


class CaseTimeout(BaseException):
    """A single case ran for too long (not an Exception, so code can't eat it)."""


def _on_alarm(signum, frame):
    raise CaseTimeout()


@contextlib.contextmanager
def time_limit(seconds: float):
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Result:
    """Counters and violations collected by (one worker of) a check."""

    MAX_VIOLATIONS = 60

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.violation_count = 0
        self.notes = {}
        self.kinds = collections.Counter()

    def violation(self, key: str, what: str, snippet: str = "") -> None:
        self.violation_count += 1
        # a frequent kind of violation (a known finding) must not crowd out others
        kind = key.split(":")[0]
        self.kinds[kind] += 1
        if self.kinds[kind] > 8:
            return
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append((key, what, snippet))

    def sample(self, s, limit: int = 4) -> None:
        if len(self.samples) < limit:
            self.samples.append(s)

    def merge(self, other: Result) -> None:
        self.states += other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.outcomes.update(other.outcomes)
        self.samples.extend(other.samples)
        # simplest first; workers are merged in order
        self.violations.extend(other.violations)
        self.violation_count += other.violation_count
        for k, v in other.notes.items():
            if isinstance(v, (int, float)) and k in self.notes:
                self.notes[k] += v
            else:
                self.notes[k] = v


def exc_summary(e: BaseException) -> str:
    return f"{type(e).__module__}.{type(e).__qualname__}: {str(e)[:300]}"


def raised_in_library(e: BaseException) -> bool:
    """Whether the exception passed through code of the library."""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO_SRC):
            return True
        tb = tb.tb_next
    return False


def _run_task(arg):
    fn, args = arg
    r = Result()
    try:
        fn(r, *args)
    except CaseTimeout:
        r.violation(f"timeout:{fn.__name__}:{args!r:.80}", "did not terminate in time")
    except Exception as e:  # an exception the harness doesn't expect
        tb = traceback.format_exc()
        if raised_in_library(e):
            r.violation(
                f"unexpected:{fn.__name__}:{type(e).__name__}",
                f"library raised unexpectedly: {exc_summary(e)}\n{tb}",
            )
        else:
            r.notes["harness_error"] = tb
    if not r.states and not r.transitions and os.environ.get("MC_VACUOUS"):
        print(f"VACUOUS {fn.__module__}.{fn.__name__}{args!r:.120}", file=sys.stderr)
    return r


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    with contextlib.suppress(Exception):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Check:
    def __init__(self, pid: str, tier: str, seed: int):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.result = Result()
        self.assumptions: list[str] = []
        self.bounds: dict = {}
        self.phases: dict = {}
        self.started = time.time()
        self.exhaustive = True

    def run(self, tasks, jobs: int = JOBS) -> Result:
        """Run [(fn, args)...] in parallel; merge the results in task order.

        fn(result, *args) must be a module-level function (it's not pickled,
        but forked workers resolve it by reference).
        """
        tasks = list(tasks)
        if not tasks:
            return Result()
        total = Result()
        if jobs == 1 or len(tasks) == 1 and False:
            results = map(_run_task, tasks)
            for r in results:
                total.merge(r)
        else:
            ctx = multiprocessing.get_context("fork")
            with ctx.Pool(
                min(jobs, len(tasks)), initializer=_init_worker
            ) as pool:
                for r in pool.imap(_run_task, tasks, chunksize=1):
                    total.merge(r)
        self.result.merge(total)
        return total

    def phase(self, name: str, tasks) -> Result:
        t = time.time()
        r = self.run(tasks)
        self.phases[name] = {
            "states": r.states,
            "transitions": r.transitions,
            "traces": r.traces,
            "violations": r.violation_count,
            "outcomes": dict(r.outcomes.most_common(12)),
            "wall_s": round(time.time() - t, 2),
        }
        return r

    def crashed(self, e: Exception) -> None:
        """Preparing the cases failed: the library's fault or the harness's?"""
        self.exhaustive = False
        tb = "".join(traceback.format_exception(e))
        if raised_in_library(e):
            what = f"library raised unexpectedly: {exc_summary(e)}\n{tb}"
            self.result.violation(f"unexpected:main:{type(e).__name__}", what)
        else:
            self.result.notes["harness_error"] = tb

    # -- reporting --------------------------------------------------------

    def known(self):
        out = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line.strip())
                if m and m[1] == self.pid:
                    out.append((re.compile(m[2]), m[3]))
        return out

    def finish(self) -> int:
        r = self.result
        if "harness_error" in r.notes and not r.violations:
            print(r.notes["harness_error"], file=sys.stderr)
            print(f"ERROR property={self.pid} the check itself failed")
            return 2
        known = self.known()
        seen_known: dict[str, int] = {}
        reported = []
        keys = set()
        for key, what, snippet in r.violations:
            for rx, text in known:
                if rx.fullmatch(key):
                    seen_known[text] = seen_known.get(text, 0) + 1
                    break
            else:
                if key not in keys:
                    keys.add(key)
                    reported.append((key, what, snippet))
        # A listed finding is reported on every run, whether or not this tier's
        # bounds happened to reach it
        for _rx, text in known:
            print(f"KNOWN-FINDING: property={self.pid} {text}")
        rdir = os.path.join(OUT, "replays", self.pid)
        if reported:
            os.makedirs(rdir, exist_ok=True)
        for n, (key, what, snippet) in enumerate(reported[:10]):
            path = os.path.join(rdir, f"{n}.txt")
            with open(path, "w", errors="backslashreplace") as f:
                f.write(f"property: {self.pid}\nkey: {key}\n\n{what}\n")
                if snippet:
                    f.write(f"\n--- replay (python) ---\n{snippet}\n")
            first = what.strip().splitlines()[0] if what.strip() else ""
            line = f"VIOLATION property={self.pid} replay={path} :: {key} :: {first}"
            print(line[:600].encode("ascii", "backslashreplace").decode())
        wall = time.time() - self.started
        evidence = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": r.states,
                "transitions": r.transitions,
                "traces_validated_against_impl": r.traces,
                "distinct_outcomes": len(r.outcomes),
                "outcomes": {str(k): v for k, v in r.outcomes.most_common(25)},
                "samples": r.samples[:12] or ["(none)"],
                "exhaustive": self.exhaustive,
                "bounds": self.bounds,
                "phases": self.phases,
                "notes": {k: v for k, v in r.notes.items() if k != "harness_error"},
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(reported),
            "known_findings_seen": seen_known,
        }
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        print(
            f"{self.pid} tier={self.tier} states={r.states} "
            f"transitions={r.transitions} traces={r.traces} "
            f"violations={len(reported)} wall={wall:.1f}s"
        )
        if "harness_error" in r.notes:
            print(r.notes["harness_error"], file=sys.stderr)
        return 1 if reported else 0


def chunks(seq, n):
    """Split into n interleaved chunks (balanced, deterministic)."""
    seq = list(seq)
    n = max(1, min(n, len(seq)))
    return [seq[i::n] for i in range(n)]
