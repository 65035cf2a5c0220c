"""C21: dates and regular expressions translate without loss."""

from __future__ import annotations

import itertools
import math
import os
import re
import struct
import time
import warnings
from datetime import datetime, timedelta, timezone, tzinfo
from fractions import Fraction
from zoneinfo import ZoneInfo

from v8serialize import DecodeV8SerializeError, TagReader, dumps, loads
from v8serialize import JSRegExpFlag, JSRegExpV8SerializeError
from v8serialize.decode import ReadableTagStream
from v8serialize.encode import WritableTagStream
from v8serialize.jstypes import JSArray, JSObject, JSRegExp

from .. import nodejs
from ..core import chunks, exc_summary

PRE = "import sys; sys.path.insert(0, '/verif')\nfrom mc.checks.c21 import *\n"
UTC = timezone.utc
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)
US = timedelta(microseconds=1)
DAY = 86_400_000_000
LOW, HIGH = (datetime.min.replace(tzinfo=UTC) - EPOCH) // US, (datetime.max.replace(tzinfo=UTC) - EPOCH) // US
# microseconds are told apart up to here: a double of ms has a spacing under 1us
FINE = 2**43 * 1000

ZONES = ["UTC", "Europe/London", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "Pacific/Kiritimati",
         "Africa/Monrovia", "America/St_Johns", "Europe/Dublin", "Africa/Casablanca", "Antarctica/Troll", "Asia/Tehran", "Europe/Amsterdam"]  # fmt: skip


class Local:
    """Run with a process time zone."""

    def __init__(self, zone):
        self.zone = zone

    def __enter__(self):
        self.was = os.environ.get("TZ")
        os.environ["TZ"] = self.zone
        time.tzset()

    def __exit__(self, *a):
        if self.was is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = self.was
        time.tzset()


class Odd(tzinfo):
    """Aware in name only: has no offset."""

    def utcoffset(self, dt):
        return None

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return "odd"


class Sub(datetime):
    pass


def micros(dt, zone):
    """The instant of a datetime as microseconds of the epoch, exactly; naive ones are in zone."""
    if dt.utcoffset() is None:
        dt = dt.replace(tzinfo=zone)
    offset = dt.utcoffset()
    return (dt.replace(tzinfo=UTC, fold=0) - EPOCH) // US - offset // US


def transitions(zone, step=timedelta(days=20)):
    """Instants (us) when zone's offset changes."""
    out = []
    t = datetime(1850, 1, 1, tzinfo=UTC)
    end = datetime(2060, 1, 1, tzinfo=UTC)
    was = t.astimezone(zone).utcoffset()
    while t < end:
        n = t + step
        now = n.astimezone(zone).utcoffset()
        if now != was:
            lo, hi = t, n
            while hi - lo > timedelta(seconds=1):
                mid = lo + (hi - lo) // 2
                mid = mid.replace(microsecond=0)
                if mid in (lo, hi):
                    break
                if mid.astimezone(zone).utcoffset() == was:
                    lo = mid
                else:
                    hi = mid
            out.append((hi - EPOCH) // US)
            was = now
        t = n
    return out


def lattice(dense):
    """Instants in microseconds."""
    near = [0, 1, 2, 499, 500, 501, 998, 999, 1000, 1001, 1499, 1500, 1501, 999_000, 999_499, 999_500, 999_999, 10**6, 10**6 + 1, 2**20]
    out = {s * n for n in near for s in (1, -1)}
    for k in range(0, 58):
        for d in (-1000, -999, -500, -1, 0, 1, 500, 999, 1000):
            for s in (1, -1):
                out.add(s * 2**k + d)
                out.add(s * 2**k * 1000 + d)
    for y in (1, 2, 100, 400, 1582, 1600, 1883, 1899, 1900, 1901, 1969, 1970, 1972, 1999, 2000, 2001, 2037, 2038, 2039, 2099, 2100, 2106, 2248, 2249, 2400, 3000, 9998, 9999):
        for args in ((1, 1), (1, 2), (2, 28), (3, 1), (12, 31)):
            base = (datetime(y, *args, tzinfo=UTC) - EPOCH) // US
            out |= {base + d for d in (-10**6, -1000, -1, 0, 1, 999, 1000, 12345678, 86_399_999_999)}
    for s in (2**31, -(2**31), 2**32, -(2**32)):
        out |= {s * 10**6 + d for d in (-(10**6), -1, 0, 1, 10**6)}
    out |= {LOW, LOW + 1, LOW + 1000, LOW + DAY, LOW + 2 * DAY + 1, HIGH, HIGH - 1, HIGH - 999, HIGH - 1000, HIGH - DAY, HIGH - 2 * DAY}
    if dense:
        out |= set(range(-3000, 3000)) | {s * 10**6 + 1000 * ms + us for s in (-1, 0, 1700000000, -5000000000, 40000000000) for ms in range(1000) for us in (0, 1, 999)}
        t = datetime(1, 2, 1, 11, 22, 33, 444555, tzinfo=UTC)
        while t.year < 9999:
            out.add((t - EPOCH) // US)
            t += timedelta(days=11, seconds=3671, microseconds=1001)
    return sorted(x for x in out if LOW <= x <= HIGH)


def around(ts):
    hours = [0, 1800, 3600, 5400, 7200, 3 * 3600, 6 * 3600, 43200, 86400]
    return sorted({t + s * h * 10**6 + d for t in ts for h in hours for s in (1, -1) for d in (-(10**6), -1000, -1, 0, 1, 999, 10**6)})


def ms_of(data):
    """The double in a stream that's a date alone."""
    if data[:3] != b"\xff\x0fD" or len(data) != 11:
        raise ValueError(f"isn't a date: {data!r}")
    return struct.unpack("<d", data[3:])[0]


def judge_ms(ms, us):
    """Is a double of ms the instant us?"""
    if not math.isfinite(ms):
        return f"is {ms}"
    f = Fraction(ms) * 1000
    if math.floor(Fraction(ms)) != us // 1000:
        return f"is in another millisecond: {ms!r} for {us} us"
    if us % 1000 == 0 and f != us:
        return f"isn't exact: {ms!r} for {us} us"
    if abs(us) < FINE and abs(f - us) > Fraction(1, 2):
        return f"is {float(f)} us, expected {us}"
    return None


def edge(us):
    """Within a day and a bit of what datetime can hold: intermediate results may not fit."""
    return us < LOW + 2 * DAY or us > HIGH - 2 * DAY


def encode_case(r, dt, us, zone, what, snippet):
    r.states += 1
    try:
        data = dumps(dt)
        wrong = judge_ms(ms_of(data), us)
    except Exception as e:
        if edge(us) and type(e).__module__.startswith("v8serialize"):
            r.outcomes["refused at the ends"] += 1
            return
        wrong = f"raised {exc_summary(e)}"
    if wrong:
        r.violation(f"write: {what} {dt!r}", wrong, snippet)
        return
    r.traces += 1
    r.outcomes["written"] += 1
    # and back, in several zones
    for tz in (None, UTC, *DECODE_ZONES):
        r.transitions += 1
        try:
            back = loads(data, default_timezone=tz)
        except DecodeV8SerializeError:
            if edge(us):
                continue
            r.violation(f"back: {what} {dt!r} in {tz}", "is refused", snippet)
            continue
        except Exception as e:
            r.violation(f"back: {what} {dt!r} in {tz}", f"raised {exc_summary(e)}", snippet)
            continue
        got = micros(back, zone)
        if back.tzinfo is not tz or type(back) is not datetime:
            wrong = f"is {back!r}"
        elif abs(us) < FINE or us % 1000 == 0:
            wrong = got != us and f"is {got} us: {back!r}, expected {us}"
        else:
            wrong = got // 1000 != us // 1000 and f"is {got} us: {back!r}, expected {us}"
        if wrong:
            r.violation(f"back: {what} {dt!r} in {tz}", wrong, snippet)
        else:
            r.traces += 1


DECODE_ZONES = [ZoneInfo("America/New_York"), timezone(timedelta(hours=-5, minutes=-37, seconds=-12, microseconds=-345678))]
ENCODE_ZONES = [UTC, *map(ZoneInfo, ("America/New_York", "Australia/Lord_Howe", "Pacific/Apia", "Africa/Monrovia")),
                timezone(timedelta(hours=14)), timezone(timedelta(hours=-23, minutes=-59, seconds=-59, microseconds=-999999)), timezone(timedelta(seconds=1)), timezone(timedelta(microseconds=-1))]  # fmt: skip


def write_task(r, zname, instants):
    """Instants as naive local times (both folds) and in other zones, with a process time zone."""
    zone = ZoneInfo(zname)
    with Local(zname):
        snippet = f"{PRE}with Local({zname!r}):\n    print(loads(dumps(...)))"
        for us in instants:
            utc = EPOCH + us * US
            for tz in ENCODE_ZONES if zname == "UTC" else [UTC]:
                try:
                    dt = utc.astimezone(tz)
                except OverflowError:
                    continue
                encode_case(r, dt, us, zone, f"TZ={zname} aware", snippet)
            if edge(us):
                continue
            local = utc.astimezone(zone).replace(tzinfo=None)
            encode_case(r, local, us, zone, f"TZ={zname} naive", snippet)
            # the other fold, and local times that there aren't
            for dt in (local.replace(fold=1 - local.fold), utc.replace(tzinfo=None), utc.replace(tzinfo=None, fold=1)):
                encode_case(r, dt, micros(dt, zone), zone, f"TZ={zname} naive", snippet)
            if us % 7 == 0:
                encode_case(r, local.replace(tzinfo=Odd()), us, zone, f"TZ={zname} no offset", snippet)
                encode_case(r, Sub.combine(local.date(), local.timetz()).replace(fold=local.fold), us, zone, f"TZ={zname} subclass", snippet)


def read_task(r, zname, values):
    """Doubles in streams, to datetimes of several zones."""
    zone = ZoneInfo(zname)
    with Local(zname):
        for ms in values:
            data = b"\xff\x0fD" + struct.pack("<d", ms)
            finite = math.isfinite(ms)
            us = round(Fraction(ms) * 1000) if finite else None
            for tz in (None, UTC, zone, *DECODE_ZONES):
                for how in ("loads", "TagReader", "stream"):
                    r.states += 1
                    key = f"read: TZ={zname} {ms!r} ms in {tz} by {how}"
                    try:
                        if how == "loads":
                            got = loads(data, default_timezone=tz)
                        elif how == "TagReader":
                            got = loads(b"\xff\x0fA\x01" + data[2:] + b"$\0\x01", decode_steps=[TagReader(default_timezone=tz)])[0]
                        else:
                            s = ReadableTagStream(data[2:])
                            got = s.read_js_date(tz=tz, tag=True).object
                            if s.pos != 9:
                                r.violation(key, f"stops at {s.pos}")
                    except DecodeV8SerializeError:
                        if finite and LOW <= us <= HIGH and not edge(us):
                            r.violation(key, "is refused", f"{PRE}print(loads({data!r}))")
                        else:
                            r.traces += 1
                            r.outcomes["refused"] += 1
                        continue
                    except Exception as e:
                        r.violation(key, f"raised {exc_summary(e)}", f"{PRE}print(loads({data!r}))")
                        continue
                    r.outcomes["read"] += 1
                    wrong = None
                    if not finite:
                        wrong = f"gave {got!r}"
                    elif type(got) is not datetime or got.tzinfo is not tz:
                        wrong = f"gave {got!r}"
                    else:
                        d = abs(micros(got, zone) - Fraction(ms) * 1000)
                        # half a microsecond, plus what a double of us can't hold
                        if d > Fraction(1, 2) + Fraction(abs(ms)) / 2**42 or float(ms).is_integer() and d:
                            wrong = f"gave {got!r}, {float(d)} us away"
                        elif tz is not None or not edge(us):
                            want = (EPOCH + micros(got, zone) * US).astimezone(tz or zone)
                            if tz is None:
                                want = want.replace(tzinfo=None)
                            if (got, got.fold) != (want, want.fold):
                                wrong = f"gave {got!r} fold {got.fold}, expected {want!r} fold {want.fold}"
                    if wrong:
                        r.violation(key, wrong, f"{PRE}print(loads({data!r}))")
                    else:
                        r.traces += 1


def doubles(instants):
    out = {us / 1000 for us in instants} | {float(us // 1000) for us in instants}
    for x in (0.0, -0.0, 5e-324, -5e-324, 1e-20, -1e-20, 0.0005, 0.00049, -0.0005, 0.4995, 999.9994, 999.9996, -0.0004, -999.9999):
        out.add(x)
    lo, hi = LOW / 1000, HIGH / 1000
    for base in (lo, hi, 8.64e15, -8.64e15, 1e16, -1e16, 1e18, 1e20, -1e20, 1e300, -1e300, 2.0**63, -(2.0**63), 2.0**64, 2.0**31 * 1000, 2.0**53, -(2.0**53), 67768036191676799 * 1000.0, 1.7976931348623157e308):
        x = base
        for _ in range(3):
            out.add(x)
            x = math.nextafter(x, math.inf)
        x = base
        for _ in range(3):
            x = math.nextafter(x, -math.inf)
            out.add(x)
        for d in (-86400000, -1000, -1, 1, 1000, 86400000):
            out.add(base + d)
    return [*sorted(x for x in out if not math.isnan(x)), -0.0, math.nan, struct.unpack("<d", b"\1\0\0\0\0\0\xf8\xff")[0]]


def v8_task(r, instants):
    """The same dates in V8, in both directions."""
    ms = sorted({us // 1000 for us in instants})
    for part in chunks(ms, max(1, len(ms) // 300)):
        (reply,) = nodejs.batch([{"op": "ser", "src": f"[{','.join(f'new Date({m})' for m in part)}]", "nodesc": True}])
        r.states += len(part)
        try:
            got = loads(bytes.fromhex(reply["hex"]), default_timezone=UTC)
            for m, d in zip(part, got.array if isinstance(got, JSArray) else got):
                r.transitions += 1
                if (d - EPOCH) // US != m * 1000 or d.microsecond % 1000:
                    r.violation(f"V8 writes Date({m})", f"gave {d!r}")
                else:
                    r.traces += 1
        except DecodeV8SerializeError as e:
            if not any(edge(m * 1000) for m in part):
                r.violation(f"V8 writes Dates {part[0]}...", f"raised {exc_summary(e)}")
        data = dumps([EPOCH + m * 1000 * US for m in part] + [EPOCH + (m * 1000 + us) * US for m in part for us in (1, 999) if m * 1000 + us <= HIGH])
        (reply,) = nodejs.batch([{"op": "eval", "src": f"v8.deserialize(Buffer.from('{data.hex()}', 'hex')).map((d) => d.getTime())"}])
        want = [*part, *(m for m in part for us in (1, 999) if m * 1000 + us <= HIGH)]
        for m, g, i in zip(want, reply["ok"], itertools.count()):
            r.transitions += 1
            # V8 drops the fraction, towards zero
            if g != m and not (i >= len(part) and m < 0 and g == m + 1):
                r.violation(f"V8 reads {m}", f"gave {g}")
            else:
                r.traces += 1
    (reply,) = nodejs.batch([{"op": "ser", "src": "[new Date(NaN), new Date(8.64e15), new Date(-8.64e15), new Date(253402300800000), new Date(-62135596800001)]", "nodesc": True}])
    raw = bytes.fromhex(reply["hex"])
    for i in range(5):
        one = b"\xff\x0f" + raw[2:][2 + 9 * i : 11 + 9 * i]
        r.states += 1
        try:
            got = loads(one)
        except DecodeV8SerializeError:
            r.traces += 1
        except Exception as e:
            r.violation(f"V8's Date {one!r}", f"raised {exc_summary(e)}")
        else:
            r.violation(f"V8's Date {one!r}", f"gave {got!r}")


# -- regular expressions -------------------------------------------------------

LETTERS = {"d": 7, "g": 0, "i": 1, "l": 6, "m": 2, "s": 5, "u": 4, "v": 8, "y": 3}
PY = {"d": 0, "g": 0, "i": re.I, "m": re.M, "s": re.S, "u": re.U, "v": re.U, "y": 0, "l": None}
NAMES = {"d": "HasIndices", "g": "Global", "i": "IgnoreCase", "l": "Linear", "m": "Multiline", "s": "DotAll", "u": "Unicode", "v": "UnicodeSets", "y": "Sticky"}


def flag_sets():
    for n in range(10):
        yield from ("".join(c) for c in itertools.combinations(LETTERS, n))


def flags_task(r):
    """All subsets of JavaScript's flags."""
    for fs in flag_sets():
        r.states += 1
        bits = sum(1 << LETTERS[c] for c in fs)
        flags = JSRegExpFlag(bits)

        def bad(what, fs=fs):
            r.violation(f"flags: {fs!r}", what)

        named = JSRegExpFlag.NoFlag
        for c in fs:
            named |= getattr(JSRegExpFlag, NAMES[c])
        if named != flags or int(flags) != bits or str(flags) != fs or [f.name for f in flags] != [NAMES[c] for c in sorted(fs, key=LETTERS.get)] and sorted(f.name for f in flags) != sorted(NAMES[c] for c in fs):
            bad(f"is {flags!r} {str(flags)!r}")
        if flags.canonical != flags or JSRegExpFlag(bits | 1 << 12).canonical != flags:
            bad("canonical differs")
        # as Python's
        want = None if "l" in fs else re.RegexFlag(0)
        for c in fs:
            want = None if want is None or PY[c] is None else want | PY[c]
        got = flags.as_python_flags(throw=False)
        if (got is None) != (want is None) or want is not None and int(got) != int(want):
            bad(f"as_python_flags is {got!r}, expected {want!r}")
        try:
            got = flags.as_python_flags()
        except JSRegExpV8SerializeError:
            if want is not None:
                bad("as_python_flags is refused")
        else:
            if want is None or int(got) != int(want):
                bad(f"as_python_flags gives {got!r}")
        both = "u" in fs and "v" in fs
        for source in ("a+b", "", "(?:)", "\\w", "[a-z]"):
            r.transitions += 1
            try:
                rx = JSRegExp(source, flags)
            except ValueError:
                if not both:
                    bad("isn't accepted by JSRegExp")
                continue
            if both:
                bad("u and v together are accepted by JSRegExp")
                continue
            if rx.source != (source or "(?:)") or rx.flags != flags:
                bad(f"JSRegExp is {rx!r}")
            # through the format
            data = dumps(rx)
            for back in (loads(data), loads(dumps([rx]))[0], loads(dumps(JSObject(a=rx)))["a"]):
                if back != rx or back.source != rx.source or int(back.flags) != bits or type(back.flags) is not JSRegExpFlag:
                    bad(f"reads back as {back!r}")
            stream = b"\xff\x0fR" + b'"' + bytes([len(rx.source)]) + rx.source.encode() + (bytes([bits]) if bits < 128 else bytes([bits & 127 | 128, bits >> 7]))
            back = loads(stream)
            if back != rx or int(back.flags) != bits:
                bad(f"the stream {stream!r} gives {back!r}")
            # to a Python pattern and back
            p = rx.as_python_pattern(throw=False)
            if (p is None) != (want is None):
                bad(f"as_python_pattern gives {p!r}")
            if want is None:
                try:
                    rx.as_python_pattern()
                    bad("as_python_pattern isn't refused")
                except JSRegExpV8SerializeError:
                    pass
            else:
                p2 = rx.as_python_pattern()
                if p.pattern != rx.source or p.flags != int(want) | re.U or (p2.pattern, p2.flags) != (p.pattern, p.flags):
                    bad(f"as_python_pattern gives {p!r}")
                again = JSRegExp.from_python_pattern(p)
                if again.source != rx.source or str(again.flags) != "".join(sorted({"v", *(c for c in fs if c in "ims")})):
                    bad(f"comes back from Python as {again!r}")
                r.traces += 1
        if both:
            stream = b'\xff\x0fR"\x01a' + bytes([bits & 127 | 128, bits >> 7])
            try:
                bad(f"u and v in a stream give {loads(stream)!r}")
            except DecodeV8SerializeError:
                r.traces += 1
        r.outcomes["flag set"] += 1


def v8_flags_task(r):
    """What V8 writes and reads for all flags it accepts."""
    sets = [fs for fs in flag_sets() if "l" not in fs and not ("u" in fs and "v" in fs)]
    replies = nodejs.batch([{"op": "ser", "src": f"[/a[b]/{fs}, new RegExp('', '{fs}'), 'z']", "nodesc": True} for fs in sets])
    for fs, reply in zip(sets, replies):
        r.states += 1
        got = loads(bytes.fromhex(reply["hex"]))
        if [(x.source, str(x.flags)) for x in list(got.array)[:2]] != [("a[b]", fs), ("(?:)", fs)] or got[2] != "z":
            r.violation(f"V8 writes /a[b]/{fs}", f"gave {got!r}")
        else:
            r.traces += 1
    srcs = []
    for fs in sets:
        data = dumps([JSRegExp("a[b]", JSRegExpFlag(sum(1 << LETTERS[c] for c in fs))), "z"])
        srcs.append({"op": "eval", "src": f"(([x, z]) => [x.source, x.flags, z])(v8.deserialize(Buffer.from('{data.hex()}', 'hex')))"})
    for fs, reply in zip(sets, nodejs.batch(srcs)):
        r.transitions += 1
        if reply.get("ok") != ["a[b]", fs, "z"]:
            r.violation(f"V8 reads {fs}", f"{reply}")
        else:
            r.traces += 1
            r.outcomes["V8"] += 1


def python_task(r):
    """All sets of Python's flags, for str and bytes patterns."""
    names = {"A": re.A, "D": re.DEBUG, "I": re.I, "L": re.L, "M": re.M, "S": re.S, "U": re.U, "X": re.X}
    for n in range(9):
        for c in itertools.combinations(names, n):
            flags = re.RegexFlag(0)
            for x in c:
                flags |= names[x]
            for source in ("a.b", "", b"a.b", b"", b"\xff", "\xe9", "(?i)a", "(?ms)a", b"(?i)a"):
                try:
                    with warnings.catch_warnings(), open(os.devnull, "w") as null:
                        warnings.simplefilter("ignore")
                        import contextlib

                        with contextlib.redirect_stdout(null):
                            re.purge()
                            p = re.compile(source, flags)
                except ValueError:
                    continue
                r.states += 1
                key = f"Python flags: {c} {source!r}"
                letters = {"v" for _ in "u" if p.flags & re.U} | {x for x, f in (("i", re.I), ("m", re.M), ("s", re.S)) if p.flags & f}
                text = source
                ok = not p.flags & re.X
                if isinstance(source, bytes):
                    try:
                        text = source.decode()
                    except UnicodeDecodeError:
                        ok = False
                results = []
                for f in (lambda: JSRegExp.from_python_pattern(p), lambda: JSRegExp.from_python_pattern(p, throw=False), lambda: loads(dumps(p)), lambda: loads(dumps([1, p, "z"]))[1]):
                    try:
                        results.append(f())
                    except (JSRegExpV8SerializeError, DecodeV8SerializeError):
                        results.append(None)
                    except Exception as e:
                        results.append(exc_summary(e))
                want = JSRegExp(text, JSRegExpFlag(sum(1 << LETTERS[x] for x in letters))) if ok else None
                if any(x != want for x in results):
                    r.violation(key, f"gave {results}, expected {want!r}")
                else:
                    r.traces += 1
                    r.outcomes["Python pattern" if ok else "refused"] += 1
                if ok:
                    back = want.as_python_pattern()
                    if back.pattern != (text or "(?:)") or (back.flags ^ p.flags) & (re.I | re.M | re.S):
                        r.violation(key, f"comes back as {back!r}")
            try:
                want = "".join(sorted({"A": "", "D": "", "L": "", "U": "v"}.get(x, x.lower()) for x in c)) if "X" not in c else None
                if c and "D" in c:
                    continue  # not one of the flags a RegexFlag of ours has
                got = JSRegExpFlag.from_python_flags(flags)
                if want is None or str(got) != want:
                    r.violation(f"from_python_flags {c}", f"gave {got!r}")
            except JSRegExpV8SerializeError:
                if want is not None:
                    r.violation(f"from_python_flags {c}", "is refused")


def sources_task(r, sources):
    """Sources go through unchanged; those Python can't compile are refused in the documented way."""
    for src in sources:
        for flags in ("", "u", "v", "im"):
            r.states += 1
            rx = JSRegExp(src, JSRegExpFlag(sum(1 << LETTERS[c] for c in flags)))
            key = f"source: {src!r} {flags}"
            try:
                back = loads(dumps(rx))
                if (back.source, str(back.flags)) != (src or "(?:)", flags):
                    r.violation(key, f"reads back as {back!r}")
            except Exception as e:
                r.violation(key, f"raised {exc_summary(e)}")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    re.compile(rx.source, re.U if flags in ("u", "v") else re.I | re.M if flags else 0)
                    ok = True
                except (re.error, ValueError, OverflowError):
                    ok = False
                try:
                    got = [rx.as_python_pattern(throw=False) is not None]
                    try:
                        got.append(rx.as_python_pattern().pattern == rx.source)
                    except JSRegExpV8SerializeError:
                        got.append(False)
                except Exception as e:
                    got = exc_summary(e)
            if got != [ok, ok]:
                r.violation(key, f"as_python_pattern: {got}, expected {ok}", f"{PRE}print(JSRegExp({src!r}, {rx.flags!r}).as_python_pattern())")
            else:
                r.traces += 1
                r.outcomes["compiles" if ok else "doesn't compile"] += 1


def primitives_task(r):
    """write_js_regexp and read_js_regexp at every alignment."""
    for fs in flag_sets():
        if "u" in fs and "v" in fs:
            continue
        for src in ("a", "\u20ac", "\ud800", "x" * 130):
            for at in range(2):
                w = WritableTagStream()
                w.data.extend(b"\0" * at)
                w.write_js_regexp(JSRegExp(src, JSRegExpFlag(sum(1 << LETTERS[c] for c in fs))))
                r.states += 1
                s = ReadableTagStream(w.data + b"T", pos=at)
                from v8serialize.decode import DefaultDecodeContext

                v = DefaultDecodeContext(stream=s).decode_object()
                if (v.source, str(v.flags), s.pos) != (src, fs, len(w.data)):
                    r.violation(f"primitive: {src[:5]!r} {fs} at {at}", f"gave {v!r} up to {s.pos} of {len(w.data)}")
                else:
                    r.traces += 1


def main(check):
    t = check.thorough
    check.bounds = {
        "dates": f"{'dense' if t else 'boundary'} lattice of instants and all offset changes 1850-2060 of {len(ZONES)} process time zones, naive with both folds, local times that don't exist, {len(ENCODE_ZONES)} zones; read in 5 zones",
        "regular expressions": "all 512 subsets of JavaScript's flags, all 256 of Python's, all sources to length 2 (3) over an alphabet of syntax",
    }
    check.assumptions = [
        "exact to the microsecond where a double of ms can tell microseconds apart (until 2248), otherwise in the right millisecond",
        "datetimes within two days of datetime.min and .max may be refused, as intermediate results don't fit",
        "re.ASCII corresponds to having neither u nor v; re.LOCALE and re.DEBUG are ignored",
    ]
    grid = lattice(t)
    tasks = [(write_task, ("UTC", c)) for c in chunks(grid, 64 if t else 8)]
    reads = []
    plain = lattice(False)
    for z in ZONES:
        ts = transitions(ZoneInfo(z), timedelta(days=5 if t else 20))
        near = around(ts if t else ts[::4])
        everywhere = sorted({*plain[:: 1 if t else 5], *near})
        tasks += [(write_task, (z, c)) for c in chunks(everywhere, 16 if t else 4)]
        values = doubles(everywhere if t else everywhere[::6])
        reads += [(read_task, (z, c)) for c in chunks(values, 8 if t else 2)]
    check.phase("dates written and back", tasks)
    check.phase("dates read", reads)
    check.phase("dates and V8", [(v8_task, (c,)) for c in chunks(grid, 16)])
    check.phase("flags", [(flags_task, ()), (v8_flags_task, ()), (python_task, ()), (primitives_task, ())])
    alphabet = ["a", "0", "9", "\\", "(", ")", "[", "]", "{", "}", "*", "?", "|", "^", "-", ",", "<", "P", "=", ":", "i", "L", "/", "\n", "\u20ac", "\ud800"]
    sources = ["".join(c) for n in range(4 if t else 3) for c in itertools.product(alphabet, repeat=n)]
    sources += ["(?%s)a" % "".join(c) for n in range(1, 3) for c in itertools.product("aiLmsux-", repeat=n)] + ["(?%s:a)" % "".join(c) for n in range(1, 3) for c in itertools.product("aiLmsux-", repeat=n)]
    sources += [f"a{{{n}}}" for n in (0, 1, 2**16, 2**31, 2**32 - 2, 2**32 - 1, 2**32, 10**20)] + [f"a{{1,{n}}}" for n in (0, 1, 2**32 - 1, 2**32, 10**20)]
    sources += ["(?<n>a)\\k<n>", "\\p{L}", "\\u{1f600}", "(?<=a+)b", "a**", "(?P<n>a)(?P<n>b)", "\\8", "\\N{DIGIT ONE}", "\\N{x}", "\\u12", "\\x1", "(" * 101 + ")" * 101, "(?P<1>a)", "(?(1)a|b)", "[z-a]", "\\c", "\\1", "(?#", "(?P=n)", "\0", "\\\0"]
    check.phase("sources", [(sources_task, (c,)) for c in chunks(sources, 64)])
