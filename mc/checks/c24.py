"""C24: failures say what failed, and pass through unchanged."""

from __future__ import annotations

import itertools
import struct
import traceback

from v8serialize import (
    DecodeV8SerializeError,
    Encoder,
    EncodeV8SerializeError,
    FeatureNotEnabledEncodeV8SerializeError,
    IllegalCyclicReferenceV8SerializeError,
    SerializationFeature,
    UnhandledTagDecodeV8SerializeError,
    UnhandledValueEncodeV8SerializeError,
    V8SerializeError,
    default_decode_steps,
    default_encode_steps,
    dumps,
    loads,
)
from v8serialize._errors import NormalizedKeyError
from v8serialize.constants import ArrayBufferViewTag, SerializationTag
from v8serialize.decode import TagReader
from v8serialize.encode import TagWriter, serialize_object_references
from v8serialize.jstypes import (
    BoundsJSArrayBufferError,
    ByteLengthJSArrayBufferError,
    ItemSizeJSArrayBufferError,
    JSArray,
    JSArrayBuffer,
    JSArrayBufferError,
    JSErrorData,
    JSMap,
    JSObject,
    JSRegExp,
    JSSet,
    create_view,
)
from v8serialize.jstypes.jsbuffers import DataViewBuffer

from .. import gen, wire
from ..core import CaseTimeout, chunks, exc_summary, time_limit
from ..graph import VIEW_ITEMSIZE, Graph, build, py_source
from . import c06, c07

# -- decode errors: where ------------------------------------------------------------


def blame(data: bytes):
    """(verdict, first, last): what is wrong and the positions of the field at fault."""
    p = wire.Parser(data)
    try:
        p.header()
        p.g.root = p.value()
    except wire.Incomplete:
        return "incomplete", p.mark, len(data)
    except wire.Reject as e:
        return f"reject {e}", p.mark, len(data) if "two-byte" in str(e) or "maximum" in str(e) else p.p
    except wire.Free as e:
        return f"free {e}", 0, len(data)
    except RecursionError:
        return "free deep", 0, len(data)
    return "value", 0, len(data)


def code_for(data):
    return (
        "from v8serialize import *\n"
        f"try: loads(bytes.fromhex({data.hex()!r}))\nexcept DecodeV8SerializeError as e: print(e.position, e)"
    )


def readable(e) -> str | None:
    """What is wrong with how the error presents itself."""
    text = str(e)
    if not isinstance(e.message, str) or not e.message or e.message not in text:
        return f"its message {e.message!r} is not in its text {text!r}"
    if not repr(e).startswith(type(e).__name__):
        return f"repr is {repr(e)!r}"
    if text not in "".join(traceback.format_exception_only(type(e), e)):
        return "the formatted traceback does not have its text"
    return None


def position(r, key, data):
    r.states += 1
    kind, first, last = blame(data)
    try:
        with time_limit(20):
            loads(data)
    except CaseTimeout:
        r.violation(key, "did not terminate", code_for(data))
        return
    except DecodeV8SerializeError as e:
        r.transitions += 1
        if e.data != data:
            r.violation(key, f"the error is about other data: {e.data!r:.100}", code_for(data))
            return
        if not isinstance(e.position, int) or not first <= e.position <= last:
            r.violation(
                key, f"{kind} at {first}..{last}, but the error is at {e.position}: {e.message} {data.hex()[:200]}",
                code_for(data),
            )  # fmt: skip
            return
        if isinstance(e, UnhandledTagDecodeV8SerializeError) and e.tag not in data[max(0, e.position - 1) : e.position + 1]:
            r.violation(key, f"there is no {e.tag!r} at {e.position}", code_for(data))
            return
        if len(data) < 64:
            bad = readable(e)
            if bad:
                r.violation(key, bad, code_for(data))
                return
            if f"position={e.position}" not in str(e):
                r.violation(key, f"the text has no position: {e}", code_for(data))
        r.traces += kind != "value" and not kind.startswith("free")
        r.outcomes[f"{kind[:40]}: {e.message[:30]}"] += 1
    except RecursionError:
        pass
    else:
        r.outcomes["read"] += 1


def tree_task(r, starts, alphabet, depth):
    stack = list(starts)
    while stack:
        body = stack.pop()
        data = c06.HEADER + body
        position(r, f"bytes {data.hex()}", data)
        if blame(data)[0] == "incomplete" and len(body) < depth:
            stack += [body + bytes([b]) for b in alphabet]


def mutate_task(r, cases, substitutes):
    for key, data in cases:
        if len(data) > 160:
            continue
        for n in range(len(data)):
            position(r, f"truncated {key} {n}", data[:n])
            for b in (*substitutes, (data[n] + 1) % 256, (data[n] - 1) % 256):
                mutant = data[:n] + bytes([b]) + data[n + 1 :]
                position(r, f"substituted {key} {mutant.hex()}", mutant)
            mutant = data[:n] + data[n + 1 :]
            position(r, f"deleted {key} {mutant.hex()}", mutant)
            mutant = data[:n] + data[n : n + 1] + data[n:]
            position(r, f"repeated {key} {mutant.hex()}", mutant)
        r.sample(key, 1)


def numbers_task(r, cases):
    for key, data in cases:
        position(r, f"number {key}", data)


# -- decode errors: which tag ----------------------------------------------------------

READ = {
    "_": "_", "0": "0", "T": "T", "F": "F", "I": "I\x02", "U": "U\x02", "N": "N" + "\0" * 8, "Z": "Z\x02\x01", '"': '"\x01a',
    "c": "c\x02a\0", "S": "S\x01a", "^": "^\0", "o": "o{\0", "a": "a\0@\0\0", "A": "A\0$\0\0", "D": "D" + "\0" * 8, "y": "y",
    "x": "x", "n": "n" + "\0" * 8, "z": "z\x02\x01", "s": 's"\x01a', "R": 'R"\x01a\0', ";": ";:\0", "'": "',\0", "B": "B\x01a",
    "~": "~\x01\x02a", "t": "t\x01", "u": "u\x01", "p": "p\x01", "r": "r.", "\\": "\\\x01\x01a",
}  # fmt: skip
# tag -> the tags a reader of it reads itself
PLACES = {
    "top": ("", ""), "array": ("A\x01", "$\0\x01"), "object": ('o"\x01k', "{\x01"), "map key": (";", "0:\x02"),
    "map value": (";0", ":\x02"), "set": ("'", ",\x01"), "cause": ("rc", "."), "padded": ("A\x02_\0\0", "$\0\x02"),
}  # fmt: skip


class Only:
    """A decode step that leaves one tag to the next step."""

    def __init__(self, tag):
        self.tag = tag
        self.reader = TagReader()

    def decode(self, tag, /, ctx, next):
        if tag is self.tag:
            self.position = ctx.stream.pos
            return next(tag)
        return self.reader.decode(tag, ctx=ctx, next=next)


def unhandled_tag_task(r):
    for tag, body in READ.items():
        t = SerializationTag(ord(tag))
        for place, (before, after) in PLACES.items():
            if tag in before or tag == "A" and place == "padded":
                continue
            for pad in (0, 1, 2):
                data = b"\xff\x0f" + before.encode("latin1") + b"\0" * pad + (body + after).encode("latin1")
                key = f"unhandled tag {tag} {place} {pad}"
                r.states += 1
                step = Only(t)
                try:
                    v = loads(data, decode_steps=[step])
                except UnhandledTagDecodeV8SerializeError as e:
                    r.transitions += 1
                    at = 2 + len(before) + pad
                    if e.tag is not t or e.data != data or not at <= e.position <= at + 1:
                        r.violation(key, f"tag at {at}, the error says {e.tag!r} at {e.position} of {e.data!r}", key)
                    elif readable(e) or "kUnhandled" in str(e) or t.name not in str(e):
                        r.violation(key, f"text: {e}", key)
                    r.traces += 1
                except Exception as e:
                    r.violation(key, f"raised {exc_summary(e)}", key)
                else:
                    r.violation(key, f"read as {v!r}", key)


# -- encode errors -----------------------------------------------------------------------


def unhandled_value_task(r, names):
    """The error has the very object no step could write."""
    for n in names:
        for p in [*gen.POSITIONS, "tuple in map", "deep", "key"]:
            x = c07.UNSUPPORTED[n]()
            r.states += 1
            key = f"unhandled value {n} {p}"
            try:
                v = put(p, x)
            except TypeError:
                r.outcomes["not a possible position"] += 1
                continue
            failing(r, key, v, x)


def failing(r, key, v, x):
    for how, call in {
        "dumps": lambda: dumps(v), "Encoder": lambda: Encoder().encode(v),
        "no references": lambda: dumps(v, encode_steps=[TagWriter()]),
    }.items():  # fmt: skip
        try:
            call()
        except UnhandledValueEncodeV8SerializeError as e:
            r.transitions += 1
            if e.value is not x:
                r.violation(key, f"{how}: error.value is {e.value!r}", key)
                return
            bad = readable(e)
            if bad:
                r.violation(key, bad, key)
                return
            r.traces += 1
        except Exception as e:
            r.violation(key, f"{how}: raised {exc_summary(e)}", key)
            return
        else:
            r.violation(key, f"{how}: written", key)
            return


def put(position, x):
    if position == "tuple in map":
        return JSMap([(1, (1, x))])
    if position == "deep":
        v = x
        for i in range(20):
            v = [v] if i % 2 else JSObject(k=v)
        return v
    if position == "key":
        return {(1, x): 1}
    g = Graph()
    # a stand-in is replaced after building
    stand_in = g.arr(fl="list")
    g.root = gen.POSITIONS[position](g, stand_in)
    scope = dict(c07_env(), it=x)
    source = py_source(g).replace(f"n{stand_in[1]} = []", f"n{stand_in[1]} = it")
    exec(source, scope)
    return scope["v"]


def c07_env():
    from ..graph import env

    return env()


FEATURE_CASES = {
    "rab": lambda: JSArrayBuffer(b"abcd", max_byte_length=16),
    "rab view": lambda: create_view(JSArrayBuffer(b"abcd", max_byte_length=16), ArrayBufferViewTag.kUint8Array),
    "f16": lambda: create_view(JSArrayBuffer(b"abcd"), ArrayBufferViewTag.kFloat16Array),
    "self cause": lambda: cyclic_error(1),
    "two errors": lambda: cyclic_error(2),
    "cause list": lambda: cyclic_error(0),
    "rab and f16": lambda: create_view(JSArrayBuffer(b"abcd", max_byte_length=16), ArrayBufferViewTag.kFloat16Array),
    "all": lambda: [JSArrayBuffer(b"abcd", max_byte_length=16), cyclic_error(1),
                    create_view(JSArrayBuffer(b"abcd"), ArrayBufferViewTag.kFloat16Array)],
}  # fmt: skip


def cyclic_error(n):
    es = [JSErrorData(message=f"e{i}") for i in range(n or 1)]
    for a, b in zip(es, [*es[1:], es[0]]):
        a.cause = b if n else [b]
    return es[0]


def strict_step(value, /, ctx, next):
    """Writes buffers and views as they are, whatever is enabled."""
    if isinstance(value, JSArrayBuffer):
        if value.resizable:
            ctx.stream.write_js_array_buffer(value)
        else:
            next(value)
    elif hasattr(value, "view_tag"):
        ctx.encode_object(value.backing_buffer)
        ctx.stream.objects.record_reference(value)
        ctx.stream.write_js_array_buffer_view(value)
    else:
        next(value)


def features_task(r):
    every = list(SerializationFeature)
    for name, make in FEATURE_CASES.items():
        for n in range(len(every) + 1):
            for on in itertools.combinations(every, n):
                features = SerializationFeature(0)
                for f in on:
                    features |= f
                for steps in ([*default_encode_steps], [serialize_object_references, strict_step, TagWriter()]):
                    feature_case(r, f"feature {name} {features!r} {len(steps)}", make, features, steps)


def feature_case(r, key, make, features, steps):
    r.states += 1
    seen = set()
    while True:
        v = make()
        try:
            dumps(v, features=features, encode_steps=steps)
        except FeatureNotEnabledEncodeV8SerializeError as e:
            r.transitions += 1
            need = e.feature_required
            if need in features or not isinstance(need, SerializationFeature) or need in seen:
                r.violation(key, f"error about {need!r} with {features!r} enabled", key)
                return
            bad = readable(e)
            if bad or need.name not in str(e):
                r.violation(key, f"text of the error: {e}", key)
                return
            seen.add(need)
            features |= need
            continue
        except UnhandledValueEncodeV8SerializeError as e:
            if "f16" not in key and "all" not in key or SerializationFeature.Float16Array in features:
                r.violation(key, f"unhandled: {exc_summary(e)}", key)
                return
            notes = getattr(e, "__notes__", [])
            if getattr(e.value, "view_tag", None) is not ArrayBufferViewTag.kFloat16Array or not any(
                "Float16Array" in n for n in notes
            ):
                r.violation(key, f"error about {e.value!r}, notes {notes}", key)
                return
            features |= SerializationFeature.Float16Array
            continue
        except IllegalCyclicReferenceV8SerializeError as e:
            if SerializationFeature.CircularErrorCause in features:
                r.violation(key, f"raised with the feature: {exc_summary(e)}", key)
                return
            if not isinstance(e.obj, JSErrorData) or not e.obj.message.startswith("e") or readable(e):
                r.violation(key, f"error about {e.obj!r}", key)
                return
            features |= SerializationFeature.CircularErrorCause
            continue
        except Exception as e:
            r.violation(key, f"raised {exc_summary(e)}", key)
            return
        r.traces += 1
        return


def cycles_task(r, n):
    """Which of a chain of errors is in its own cause, and its id."""
    for length in range(1, n + 1):
        for back in range(length):
            for before in range(3):
                for through in ("direct", "list", "object", "map key"):
                    r.states += 1
                    key = f"cycle {length} {back} {before} {through}"
                    es = [JSErrorData(message=f"e{i}") for i in range(length)]
                    per = 1 if through == "direct" else 2
                    wrap = {
                        "direct": lambda x: x, "list": lambda x: [x], "object": lambda x: JSObject(k=x),
                        "map key": lambda x: JSMap([(x, 1)]),
                    }[through]  # fmt: skip
                    for a, b in itertools.pairwise(es):
                        a.cause = wrap(b)
                    es[-1].cause = wrap(es[back])
                    v = [*([i] for i in range(before)), es[0]]
                    try:
                        dumps(v)
                    except IllegalCyclicReferenceV8SerializeError as e:
                        r.transitions += 1
                        want = 1 + before + per * back
                        if e.obj is not es[back] or e.serialized_id != want or readable(e):
                            r.violation(key, f"error about {e.obj!r} {e.serialized_id}, not e{back} {want}", key)
                        if not isinstance(e, KeyError):
                            r.violation(key, "not a KeyError", key)
                        r.traces += 1
                    except Exception as e:
                        r.violation(key, f"raised {exc_summary(e)}", key)
                    else:
                        r.violation(key, "written", key)


# -- errors raised by what the library calls --------------------------------------------


class OwnError(Exception):
    pass


class OwnV8Error(V8SerializeError):
    pass


RAISED = {
    "OwnError": lambda: OwnError("own"), "ValueError": lambda: ValueError("own"), "KeyError": lambda: KeyError("own"),
    "TypeError": lambda: TypeError("own"), "IndexError": lambda: IndexError("own"), "AttributeError": lambda: AttributeError("own"),
    "LookupError": lambda: LookupError("own"), "OverflowError": lambda: OverflowError("own"), "OSError": lambda: OSError("own"),
    "UnicodeDecodeError": lambda: UnicodeDecodeError("utf-8", b"x", 0, 1, "own"), "AssertionError": lambda: AssertionError("own"),
    "RuntimeError": lambda: RuntimeError("own"), "NotImplementedError": lambda: NotImplementedError("own"),
    "MemoryError": lambda: MemoryError("own"), "BufferError": lambda: BufferError("own"), "EOFError": lambda: EOFError("own"),
    "StopAsyncIteration": lambda: StopAsyncIteration("own"), "KeyboardInterrupt": lambda: KeyboardInterrupt("own"),
    "SystemExit": lambda: SystemExit(3), "BaseException": lambda: BaseException("own"), "V8": lambda: OwnV8Error("own"),
    "Encode": lambda: EncodeV8SerializeError("own"), "Unhandled": lambda: UnhandledValueEncodeV8SerializeError("own", value=7),
    "Decode": lambda: DecodeV8SerializeError("own", position=77, data=b"own"),
    "UnhandledTag": lambda: UnhandledTagDecodeV8SerializeError("own", tag=SerializationTag.kNull, position=77, data=b"own"),
    "Feature": lambda: FeatureNotEnabledEncodeV8SerializeError("own", feature_required=SerializationFeature.Float16Array),
    "group": lambda: ExceptionGroup("own", [ValueError("own")]),
}  # fmt: skip


class Boom:
    """Raises when iterated, sized or asked for an item, after some items."""

    def __init__(self, error, after, where):
        self.error, self.after, self.where = error, after, where

    def hit(self, where):
        if where == self.where:
            raise self.error

    def __len__(self):
        self.hit("len")
        return 3


class BoomMapping(Boom):
    def __iter__(self):
        for i in range(3):
            if i == self.after:
                self.hit("iter")
            yield i

    def keys(self):
        return list(self)

    def items(self):
        for k in self:
            yield k, self[k]

    def values(self):
        return [self[k] for k in self]

    def get(self, k, default=None):
        return self[k]

    def __getitem__(self, k):
        if k == self.after:
            self.hit("item")
        return k

    def __contains__(self, k):
        return True


class BoomItems(Boom):
    def __iter__(self):
        for i in range(3):
            if i == self.after:
                self.hit("iter")
            yield i

    def __contains__(self, x):
        return True


from collections.abc import Collection, Mapping, Set  # noqa: E402

Mapping.register(BoomMapping)


class BoomSet(BoomItems):
    pass


class BoomCollection(BoomItems):
    pass


Set.register(BoomSet)
Collection.register(BoomCollection)


class BoomStr(Exception):
    """An exception whose text can't be had."""

    def __init__(self, error):
        self.error = error


def raising_step(error, when):
    def step(value, /, ctx, next):
        if value == "trigger" and when == "before":
            raise error
        next(value)
        if value == "trigger" and when == "after":
            raise error

    return step


ENCODE_HOOKS = {
    "step before": lambda e: ("trigger", {"encode_steps": [raising_step(e, "before"), *default_encode_steps]}),
    "step after": lambda e: ("trigger", {"encode_steps": [raising_step(e, "after"), *default_encode_steps]}),
    "last step": lambda e: ("trigger", {"encode_steps": [serialize_object_references, raising_step(e, "before"), TagWriter()]}),
    "mapping iter": lambda e: (BoomMapping(e, 1, "iter"), {}),
    "mapping item": lambda e: (BoomMapping(e, 2, "item"), {}),
    "set iter": lambda e: (BoomSet(e, 1, "iter"), {}),
    "collection iter": lambda e: (BoomCollection(e, 0, "iter"), {}),
    "collection len": lambda e: (BoomCollection(e, 0, "len"), {}),
}  # fmt: skip


def wraps(p, x):
    """x in a position; without building a hash of it."""
    return put(p, x)


ENCODE_PLACES = [p for p in gen.POSITIONS]


def encode_hooks_task(r, hooks, raised):
    for h in hooks:
        for name in raised:
            for p in ENCODE_PLACES:
                error = RAISED[name]()
                x, options = ENCODE_HOOKS[h](error)
                v = put(p, x)
                key = f"raised: {h} {name} {p}"
                r.states += 1
                unchanged(r, key, error, lambda: dumps(v, **options))


def unchanged(r, key, error, call):
    """The exception arrives as it was raised: itself, with its cause, context, args and state."""
    had = (error.args, dict(vars(error)), error.__cause__, error.__suppress_context__)
    try:
        with time_limit(20):
            call()
    except CaseTimeout:
        r.violation(key, "did not terminate", key)
    except BaseException as e:
        r.transitions += 1
        if e is not error:
            r.violation(key, f"arrived as {exc_summary(e)}", key)
        elif (e.args, dict(vars(e)), e.__cause__, e.__suppress_context__) != had:
            r.violation(key, f"arrived changed: {e.args} {vars(e)} {e.__cause__!r}", key)
        else:
            r.traces += 1
            r.outcomes["arrived"] += 1
    else:
        r.violation(key, "got lost", key)


def decode_step(error, when, which):
    def step(tag, /, ctx, next):
        if tag is which and when == "before":
            raise error
        v = next(tag)
        if tag is which and when == "after":
            raise error
        return v

    return step


def raising(error, *_):
    def f(*a, **k):
        raise error

    return f


class LateMap(dict):
    """A map that refuses items, one way or another."""

    def __init__(self, error=None):
        self.error = error

    def update(self, *a, **k):
        raise self.error

    def __setitem__(self, k, v):
        raise self.error

    add = extend = append = update


class LateSet(LateMap):
    def update(self, items):
        for _ in items:
            raise self.error

    def add(self, x):
        raise self.error


# hook -> function of (error): (stream of a value, options)
def decode_hooks():
    h = {}
    for t in ("_", '"', "I", "o", "A", "r", "B", "R", "D", ";"):
        tag = SerializationTag(ord(t))
        body = READ[t]
        for when in ("before", "after"):
            h[f"step {when} {t}"] = lambda e, tag=tag, body=body, when=when: (
                body, {"decode_steps": [decode_step(e, when, tag), *default_decode_steps]},
            )  # fmt: skip
    h["jsmap_type"] = lambda e: (READ[";"], {"jsmap_type": raising(e)})
    h["jsset_type"] = lambda e: (READ["'"], {"jsset_type": raising(e)})
    h["js_object_type"] = lambda e: (READ["o"], {"js_object_type": raising(e)})
    h["js_array_type"] = lambda e: (READ["A"], {"js_array_type": raising(e)})
    h["js_array_type sparse"] = lambda e: (READ["a"], {"js_array_type": raising(e)})
    h["js_error_builder"] = lambda e: (READ["r"], {"js_error_builder": raising(e)})
    h["host_object_deserializer"] = lambda e: (READ["\\"], {"host_object_deserializer": raising(e)})
    h["jsmap update"] = lambda e: (";00:\x02", {"jsmap_type": lambda: LateMap(e)})
    h["jsset update"] = lambda e: ("'0,\x01", {"jsset_type": lambda: LateSet(e)})
    h["js_object update"] = lambda e: ('o"\x01k0{\x01', {"js_object_type": lambda: LateMap(e)})
    return h


def decode_hooks_task(r, names, raised):
    hooks = decode_hooks()
    for h in names:
        for name in raised:
            for place, (before, after) in PLACES.items():
                error = RAISED[name]()
                body, options = hooks[h](error)
                data = b"\xff\x0f" + (before + body + after).encode("latin1")
                key = f"raised: {h} {name} {place}"
                r.states += 1
                unchanged(r, key, error, lambda: loads(data, **options))


def host_write_task(r, raised):
    """write_host_object() serializers and file-like inputs."""
    for name in raised:
        for p in ("top", "list[1]", "jsmap key", "error cause"):
            error = RAISED[name]()

            class Host:
                pass

            def step(value, /, ctx, next, error=error):
                if isinstance(value, Host):
                    ctx.stream.write_host_object(value, serializer=raising(error))
                else:
                    next(value)

            r.states += 1
            v = put(p, Host())
            unchanged(
                r, f"raised by: host serializer {name} {p}", error,
                lambda: dumps(v, encode_steps=[step, *default_encode_steps]),
            )  # fmt: skip


# -- errors of the JavaScript types -------------------------------------------------------


def buffers_task(r, sizes):
    tags = [t for t in ArrayBufferViewTag]
    for size in sizes:
        for m in (None, *(x for x in range(0, 10))):
            r.states += 1
            key = f"buffer {size} max {m}"
            try:
                b = JSArrayBuffer(bytes(size)) if m is None else JSArrayBuffer(bytes(size), max_byte_length=m)
            except ByteLengthJSArrayBufferError as e:
                fields(r, key, e, byte_length=size, max_byte_length=m)
                if m is None or m >= size:
                    r.violation(key, "refused", key)
                continue
            if m is not None and m < size:
                r.violation(key, "accepted", key)
            for to in (-1, 0, 3, 9, 100):
                try:
                    b.resize(to)
                except ByteLengthJSArrayBufferError as e:
                    fields(r, f"{key} resize {to}", e, byte_length=to, max_byte_length=size if m is None else m)
                    if m is not None and 0 <= to <= m:
                        r.violation(key, f"resize to {to} refused", key)
                else:
                    if m is None or not 0 <= to <= m:
                        r.violation(key, f"resize to {to} accepted", key)
            if m is not None:
                b.resize(size)
            for t in tags:
                for off in range(0, 10):
                    for length in (None, *range(0, 10)):
                        view_case(r, b, t, off, length, size, m)


def view_case(r, b, t, off, length, size, m):
    r.states += 1
    key = f"view {t.name} {off} {length} of {size} {m}"
    w = VIEW_ITEMSIZE.get(t.name[1:], 1)
    ok_items = off % w == 0 and (length or 0) % w == 0
    try:
        create_view(b, t, byte_offset=off, byte_length=length)
    except ItemSizeJSArrayBufferError as e:
        fields(r, key, e, itemsize=w, byte_offset=off, byte_length=length)
        if ok_items:
            r.violation(key, "whole items refused as partial", key)
    except BoundsJSArrayBufferError as e:
        fields(r, key, e, byte_offset=off, byte_length=length, buffer_byte_length=size)
        if not ok_items or (off + (length or 0) <= size and (length is not None or m is not None or size % w == 0)):
            r.violation(key, "refused as out of bounds", key)
    except Exception as e:
        r.violation(key, f"raised {exc_summary(e)}", key)
    else:
        r.outcomes["view made"] += 1
        if not ok_items or off + (length or 0) > size:
            r.violation(key, "accepted", key)


def dataview_task(r, sizes):
    names = [n for n in dir(DataViewBuffer) if n.startswith(("set_", "get_"))]
    calls = {}
    for n in names:
        w = {"8": 1, "16": 2, "32": 4, "64": 8}["".join(c for c in n if c.isdigit())]
        calls[n] = w, (lambda v, at, n=n: getattr(v, n)(at, *((1,) if n[0] == "s" else ())))
        if w > 1:
            calls[f"{n} le"] = w, (lambda v, at, n=n: getattr(v, n)(at, *((1,) if n[0] == "s" else ()), little_endian=True))
    for f in ("<B", ">HH", "<q", "4s", "0s"):
        w = struct.calcsize(f)
        calls[f"read {f}"] = w, lambda v, at, f=f: v.read(f, at)
        calls[f"write {f}"] = w, lambda v, at, f=f: v.write(f, at, *struct.unpack(f, bytes(struct.calcsize(f))))
    for size in sizes:
        for off in range(0, size + 1):
            view = create_view(bytearray(size), ArrayBufferViewTag.kDataView, byte_offset=off)
            for at in (*range(-2, size + 3), 2**40):
                for n, (w, call) in calls.items():
                    r.states += 1
                    key = f"dataview {size} {off} {n} {at}"
                    try:
                        with view.get_buffer() as v:
                            call(v, at)
                    except BoundsJSArrayBufferError as e:
                        fields(r, key, e, byte_offset=at, byte_length=w, buffer_byte_length=size - off)
                        if 0 <= at <= size - off - w:
                            r.violation(key, "refused", key)
                    except Exception as e:
                        r.violation(key, f"raised {exc_summary(e)}", key)
                    else:
                        r.transitions += 1
                        if not 0 <= at <= size - off - w:
                            r.violation(key, "accepted", key)


def fields(r, key, e, **want):
    r.transitions += 1
    got = {k: getattr(e, k) for k in want}
    if got != want:
        r.violation(key, f"error says {got}, not {want}", key)
    elif not isinstance(e, JSArrayBufferError) or not isinstance(e, ValueError):
        r.violation(key, f"{type(e).__name__} is not a JSArrayBufferError and a ValueError", key)
    else:
        bad = readable(e)
        text = str(e)
        if bad or any(f"{k}={v!r}" not in text for k, v in want.items()):
            r.violation(key, bad or f"text: {text}", key)
        r.traces += 1


KEYS = [
    0, 1, -1, 7, 2**32 - 2, 2**32 - 1, 2**53, -0.0, 1.0, 1.5, -1.0, 3e9, 5e9, "", "0", "00", "01", "-0", "7", "a", "1.5", "4294967294",
    "4294967295", "\ud800", "λ", " 1", "1 ", "+1", "1e3", "None",
]  # fmt: skip


def normal(k):
    """The canonical form of these keys."""
    if isinstance(k, str):
        return int(k) if k.isdigit() and k.isascii() and str(int(k)) == k and int(k) < 2**32 - 1 else k
    if k == int(k):
        return int(k) if 0 <= k < 2**32 - 1 else str(int(k))
    return repr(k)


def keys_task(r):
    for k in KEYS:
        for cls in (JSObject, JSArray):
            for how, call in {
                "[]": lambda o: o[k], "del": lambda o: o.__delitem__(k), "pop": lambda o: o.pop(k),
                "after del": lambda o: (o.__setitem__(k, 1), o.__delitem__(k), o[k]),
            }.items():  # fmt: skip
                if cls is JSArray and how == "after del" and isinstance(normal(k), int) and normal(k) > 10**6:
                    pass
                r.states += 1
                key = f"missing {cls.__name__} {how} {k!r}"
                o = cls()
                try:
                    call(o)
                except KeyError as e:
                    r.transitions += 1
                    if how == "after del" and not isinstance(e, NormalizedKeyError):
                        r.violation(key, f"raised {exc_summary(e)}", key)
                        continue
                    if isinstance(e, NormalizedKeyError):
                        n = normal(k)
                        if e.raw_key is not k or e.normalized_key != n or type(e.normalized_key) is not type(n):
                            r.violation(key, f"error says {e.raw_key!r} -> {e.normalized_key!r}, not {n!r}", key)
                        elif repr(k) not in e.args[0] or repr(n) not in e.args[0]:
                            r.violation(key, f"text: {e}", key)
                        r.traces += 1
                    elif e.args[0] != k:
                        r.violation(key, f"error says {e.args}", key)
                except Exception as e:
                    r.violation(key, f"raised {exc_summary(e)}", key)
                else:
                    r.violation(key, "did not raise", key)
    # maps and sets
    for k in [*KEYS, None, True, [], JSObject()]:
        for name, o, call in (
            ("JSMap []", JSMap(), lambda o: o[k]), ("JSMap del", JSMap(), lambda o: o.__delitem__(k)),
            ("JSMap pop", JSMap(), lambda o: o.pop(k)), ("JSSet remove", JSSet(), lambda o: o.remove(k)),
        ):  # fmt: skip
            r.states += 1
            try:
                call(o)
            except KeyError as e:
                r.transitions += 1
                r.traces += 1
                if e.args[0] is not k:
                    r.violation(f"missing {name} {k!r}", f"error says {e.args}", f"# {name}")
            else:
                r.violation(f"missing {name} {k!r}", "did not raise", f"# {name}")


def main(check):
    t = check.thorough
    firsts = [bytes([b]) for b in range(256)]
    check.phase("where: short streams", [(tree_task, (c, c06.ALPHABET, 3 if t else 2)) for c in chunks(firsts, 64)])
    two = [bytes(p) for p in itertools.product(c06.MEDIUM, repeat=2)]
    check.phase("where: longer streams", [(tree_task, (c, c06.MEDIUM, 4 if t else 3)) for c in chunks(two, 96)])
    two = [bytes(p) for p in itertools.product(c06.SMALL, repeat=2)]
    check.phase("where: small alphabet", [(tree_task, (c, c06.SMALL, 5 if t else 4)) for c in chunks(two, 96)])
    check.phase("where: numbers at limits", [(numbers_task, (c,)) for c in chunks(list(c06.number_cases()), 32)])
    names = [*gen.OBJECTS, *gen.HOST_ONLY, *gen.RESIZABLE, "int:256", "float:1.5", "str:'abc'"]
    names = [n for n in names if n not in ("buffer:127", "buffer:128")]
    positions = list(gen.POSITIONS) if t else ["list[1]", "sparse prop", "error cause"]
    cases = list(c06.corpus(names, positions))
    subs = c06.SUBSTITUTES if t else list(b"\0\x01\xff^o{V-")
    check.phase("where: mutated streams", [(mutate_task, (c, subs)) for c in chunks(cases, 128)])
    check.phase("which tag", [(unhandled_tag_task, ())])
    check.phase("which value", [(unhandled_value_task, ([n],)) for n in c07.UNSUPPORTED if n != "f16 view"])
    check.phase("which feature", [(features_task, ()), (cycles_task, (6 if t else 4,))])
    raised = list(RAISED)
    check.phase("raised by encode hooks", [(encode_hooks_task, ([h], raised)) for h in ENCODE_HOOKS] + [(host_write_task, (raised,))])
    check.phase("raised by decode hooks", [(decode_hooks_task, ([h], raised)) for h in decode_hooks()])
    check.phase("buffers", [(buffers_task, ([s],)) for s in (range(0, 10) if t else (0, 1, 4, 8, 9))] + [(dataview_task, ([s],)) for s in (0, 1, 3, 8, 9)])
    check.phase("missing keys", [(keys_task, ())])
    check.bounds = {
        "corpus": len(cases), "exceptions raised by hooks": len(raised), "hooks": len(ENCODE_HOOKS) + len(decode_hooks()) + 1,
    }  # fmt: skip
    check.assumptions = [
        "a decode error is at the field at fault when its position is within it: tag, number, length-prefixed data, "
        "or the group of numbers describing a view, buffer, host object or header",
        "StopIteration raised inside the library's generators becomes RuntimeError by Python's rules and is left out",
    ]
