"""Reading bytes: the library against the wire model."""

from __future__ import annotations

from v8serialize import DecodeV8SerializeError, loads

from . import wire
from .core import CaseTimeout, exc_summary, time_limit
from .graph import describe_py, match


def code_for(data: bytes) -> str:
    return f"from v8serialize import loads\nprint(loads(bytes.fromhex({data.hex()!r})))"


def verdict(data: bytes):
    """What the wire model says of the data: (kind, Graph or reason)."""
    try:
        g, end, features = wire.parse(data)
    except wire.Incomplete:
        return "incomplete", None
    except wire.Reject as e:
        return "reject", str(e)
    except wire.Free as e:
        return "free", str(e)
    except RecursionError:
        return "free", "too deep"
    return "value", (g, end, features)


def against_wire(r, key, data: bytes, v=None, limit=20, load=loads):
    """Check loads(data) against the model's verdict; True when it agrees."""
    kind, info = v or verdict(data)
    r.states += 1
    try:
        with time_limit(limit):
            got = load(data)
    except CaseTimeout:
        r.violation(key, f"loads did not terminate: {data[:200].hex()}", code_for(data))
        return False
    except DecodeV8SerializeError as e:
        r.transitions += 1
        if kind == "value":
            r.violation(key, f"valid data refused: {exc_summary(e)} {data[:200].hex()}", code_for(data))
            return False
        r.outcomes[f"{kind}: refused: {str(info)[:40]}"] += 1
        return True
    except RecursionError as e:
        if info == "too deep":
            return True
        r.violation(key, f"raised {exc_summary(e)} {data[:200].hex()}", code_for(data))
        return False
    except Exception as e:
        r.violation(key, f"raised {exc_summary(e)} {data[:200].hex()}", code_for(data))
        return False
    r.transitions += 1
    if kind == "free":
        r.outcomes["free: value"] += 1
        return True
    if kind != "value":
        r.violation(
            key, f"malformed data ({kind} {info}) read as {short(got)}: {data[:200].hex()}", code_for(data)
        )
        return False
    m = match(info[0].to_py(), describe_py(got))
    if m:
        r.violation(key, f"read as a different value {m}: {data[:200].hex()}", code_for(data))
        return False
    r.traces += 1
    r.outcomes[f"value {data[2:3]!r}"] += 1
    return True


def short(v) -> str:
    try:
        return repr(v)[:100]
    except Exception:
        return f"<{type(v).__name__}>"
