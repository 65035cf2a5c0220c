"""C06: malformed input is always rejected, cleanly."""

from __future__ import annotations

import itertools

from .. import gen, wire
from ..core import chunks
from ..reading import against_wire, verdict

HEADER = b"\xff\x0f"
TAGS = b"_0TF-IUNZ\"cS^oaAD{@$yxnzsR;:',B~tupr\\V?m\x00"
# tags, small counts, view types, error tags and bytes that start longer varints
ALPHABET = sorted(set(TAGS) | set(b"\x00\x01\x02\x03\x04\x08\x0e\x7f\x80\x81\xff.ERFSTUmscbBCwWdDhfFqQ?"))
# the same, thinned out for longer strings
MEDIUM = sorted(set(b"_-IZ\"c^oaA{@$;:',B~Vrm.s\\R\x00\x01\x02\x80"))
SMALL = sorted(set(b"IA$o{;:'\"B~V^r.m\x00\x01\x02"))
SUBSTITUTES = sorted(set(b"_-IUNZ\"cS^oaA{@$sR;:',B~tuprV?\\.mcE\x00\x01\x02\x04\x7f\x80\xff"))


def tree_task(r, starts, alphabet, depth, header=HEADER):
    """All continuations of data that might be the start of a value."""
    stack = [bytes(s) for s in starts]
    while stack:
        body = stack.pop()
        data = header + body
        v = verdict(data)
        against_wire(r, f"bytes {data.hex()}", data, v)
        more = v[0] == "incomplete" or (v[0] == "value" and v[1][1] < 0)
        if more and len(body) < depth:
            for b in alphabet:
                stack.append(body + bytes([b]))


def versions_task(r, firsts):
    for a in firsts:
        for b in range(256):
            for rest in (b"", b"0", b"\x01" + b"0", b"\x80\x000"):
                data = bytes([a, b]) + rest
                v = verdict(data)
                against_wire(r, f"header {data.hex()}", data, v)
    for n in range(0, 3):
        if 0 in firsts:
            data = bytes(n)
            against_wire(r, f"header {data.hex()}", data)


def corpus(names, positions):
    """Valid streams: the default and one more spelling of values."""
    for n in names:
        for p in positions:
            g = gen.place(p, n)
            d = wire.derivations(g, 0)
            yield f"{p}<{n}>", next(iter(d))


def seq_corpus(pairs):
    for a, b in pairs:
        yield f"seq {a},{b}", next(iter(wire.derivations(gen.sequence_case([a, b]), 0)))


def mutate_task(r, cases, substitutes, ends=b"\0"):
    for key, data in cases:
        if len(data) > 160:
            continue
        v = verdict(data)
        if v[0] != "value":
            r.outcomes[f"corpus {v[0]} {v[1]}"] += 1
        against_wire(r, f"corpus {key}", data, v)
        for n in range(len(data)):
            against_wire(r, f"truncated {key} {n}", data[:n])
        for n in range(len(data)):
            for b in substitutes:
                if b == data[n]:
                    continue
                mutant = data[:n] + bytes([b]) + data[n + 1 :]
                against_wire(r, f"substituted {key} {mutant.hex()}", mutant)
            for delta in (1, -1):
                mutant = data[:n] + bytes([(data[n] + delta) % 256]) + data[n + 1 :]
                against_wire(r, f"substituted {key} {mutant.hex()}", mutant)
            mutant = data[:n] + data[n + 1 :]
            against_wire(r, f"deleted {key} {mutant.hex()}", mutant)
            mutant = data[:n] + data[n : n + 1] + data[n:]
            against_wire(r, f"repeated {key} {mutant.hex()}", mutant)
        r.sample(key, 2)


def pairs_of_mutations_task(r, cases, substitutes):
    """Two bytes substituted at once, in short streams."""
    for key, data in cases:
        if len(data) > 24:
            continue
        for i, j in itertools.combinations(range(2, len(data)), 2):
            for a, b in itertools.product(substitutes, repeat=2):
                m = bytearray(data)
                m[i], m[j] = a, b
                against_wire(r, f"substituted2 {key} {m.hex()}", bytes(m))


def numbers_task(r, items):
    """Counts, lengths, offsets and ids at their limits, in every field of a construct."""
    for key, data in items:
        against_wire(r, key, data)


def var(n):
    out = bytearray()
    while True:
        out.append(n & 0x7F | (0x80 if n > 0x7F else 0))
        n >>= 7
        if not n:
            return bytes(out)


LIMITS = [0, 1, 2, 3, 4, 5, 127, 128, 2**14, 2**20, 2**30, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]
# larger than V8 ever writes, up to more than Python likes to print
LIMITS += [2**32, 2**32 + 1, 2**35, 2**53, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**128, 2**1000, 2**8191, 2**8192, 2**14285, 2**14300, 2**40000]


def number_cases():
    h = HEADER
    for n in LIMITS:
        v = var(n)
        for k, body in {
            "dense": b"A" + v + b"$\0" + v, "dense els": b"A" + v + b"00$\0\x02", "dense end": b"A\x0200$\0" + v,
            "dense props": b"A\0$" + v + b"\0", "sparse": b"a" + v + b"@\0" + v, "sparse end": b"a\x02@\0" + v,
            "sparse count": b"aI\x02@" + v + b"I", "sparse count1": b'aII\x020@' + v + b"I",
            "object": b"o{" + v, "object1": b'o"\x01a0{' + v, "map": b";:" + v, "map1": b";00:" + v,
            "set": b"'," + v, "set1": b"'0," + v, "string": b'"' + v + b"ab", "two": b"c" + v + b"abcd",
            "utf8": b"S" + v + b"ab", "ref": b"^" + v, "ref1": b"A\x01^" + v + b"$\0\x01",
            "bigint": b"Z" + v + b"ab", "buffer": b"B" + v + b"abcd", "rab": b"~" + v + var(4) + b"abcd",
            "rab max": b"~\x04" + v + b"abcd", "host": b"\\\x01" + v + b"abcd", "host kind": b"\\" + v + b"\x04abcd",
            "view kind": b"B\x04abcdV" + v + b"\0\x04\0", "view off": b"B\x04abcdVB" + v + b"\x01\0",
            "view len": b"B\x04abcdVB\x01" + v + b"\0", "view flags": b"B\x04abcdVB\x01\x01" + v,
            "rview len": b"~\x04\x08abcdVB\x01" + v + b"\x02", "rview off": b"~\x04\x08abcdVB" + v + b"\x01\x02",
            "rview flags": b"~\x04\x08abcdVB\x01\0" + v, "shared": b"u" + v, "transfer": b"t" + v,
            "shared view": b"u\x01VB" + v + b"\x01\0", "regexp": b'R"\x01a' + v, "sharedref": b"p" + v,
            "key": b"aI" + v + b"0@\x01I", "i16 off": b"B\x08abcdefghVw" + v + b"\x02\0",
            "i16 len": b"B\x08abcdefghVw\x02" + v + b"\0", "error": b"r" + v, "error cause": b"rc" + v, "date": b"D" + v, "version": b"\xff" + v + b"0",
            "message": b'rm"' + v + b"a.", "stack": b'rs"' + v + b"a.", "source": b'R"' + v + b"a\0", "int": b"I" + v, "uint": b"U" + v,
            "boxed bigint": b"z" + v + b"ab", "boxed str": b's"' + v + b"ab", "bigint key": b"oZ" + v + b"0{\x01", "str key": b'o"' + v + b"a0{\x01",
            "padding": b"\0" + v, "trusted": b"w" + v, "wasm": b"m" + v, "padded two": b"\0c" + v + b"abcd", "host none": b"\\" + v, "int key": b"oU" + v + b"0{\x01",
        }.items():  # fmt: skip
            n = n if isinstance(n, str) or n < 2**70 else f"2**{n.bit_length() - 1}"
            yield f"{k} {n}", h + body
            # in a list, something follows
            yield f"in list {k} {n}", h + b"A\x02" + body + b"0$\0\x02"
            yield f"in map {k} {n}", h + b";0" + body + b":\x02"
            yield f"as version {k} {n}", b"\xff" + v + body


def main(check):
    t = check.thorough
    every = range(256)
    check.phase("headers", [(versions_task, (c,)) for c in chunks(every, 8)])
    starts2 = [bytes([b]) for b in every]
    check.phase("all bytes", [(tree_task, (c, every, 2 if not t else 3)) for c in chunks(starts2, 64)] + [(tree_task, ([b""], [], 0))])
    for v in (b"\xff\x0e", b"\xff\x0d"):
        check.phase(
            f"version {v[1]}", [(tree_task, (c, ALPHABET, 3 if t else 2, v)) for c in chunks([bytes([b]) for b in ALPHABET], 32)]
        )
    check.phase("3 bytes of the alphabet", [(tree_task, (c, ALPHABET, 4 if t else 3)) for c in chunks([bytes([b]) for b in ALPHABET], 64)])
    two = [bytes(p) for p in itertools.product(MEDIUM, repeat=2)]
    check.phase("medium alphabet", [(tree_task, (c, MEDIUM, 5 if t else 4)) for c in chunks(two, 128)])
    two = [bytes(p) for p in itertools.product(SMALL, repeat=2)]
    check.phase("small alphabet", [(tree_task, (c, SMALL, 6 if t else 5)) for c in chunks(two, 128)])
    numbers = list(number_cases())
    check.phase("numbers at limits", [(numbers_task, (c,)) for c in chunks(numbers, 32)])
    prims = ["undef", "int:256", "int:-1", "float:1.5", "int:18446744073709551615", "str:'abc'", "str:'\\u03bb\\u03bc'"]
    names = [*prims, *gen.OBJECTS, *gen.HOST_ONLY, *gen.RESIZABLE]
    names = [n for n in names if n not in ("buffer:127", "buffer:128")]
    positions = list(gen.POSITIONS) if t else ["list[1]", "jsmap key", "error cause", "sparse prop"]
    cases = list(corpus(names, positions))
    short = [b for b in SUBSTITUTES] if not t else list(every)
    check.phase("mutated corpus", [(mutate_task, (c, short)) for c in chunks(cases, 128)])
    kinds = ["date:ms", "regexp", "buffer:3", "view:i16", "error:type", "obj", "arr", "arr:sparse", "map", "jsset", "boxed:str"]
    seqs = list(seq_corpus(itertools.product(kinds, repeat=2)))
    check.phase("mutated sequences", [(mutate_task, (c, short if t else list(b"^\0\x01\x02\x03\x04\x05\x06\x07"))) for c in chunks(seqs, 64)])
    brief = [c for c in corpus(names, ["top"]) if len(c[1]) <= (24 if t else 14)]
    subs = list(b"\0\x01\x02\x7f\x80\xff^A$o{V-") if t else list(b"\0\x01\x02\xff^A$")
    check.phase("two mutations", [(pairs_of_mutations_task, (c, subs)) for c in chunks(brief, 64)])
    check.bounds = {
        "full bytes": 3 if t else 2, "alphabet": len(ALPHABET), "alphabet bytes": 4 if t else 3,
        "medium alphabet": f"{len(MEDIUM)}^{5 if t else 4}", "small alphabet": f"{len(SMALL)}^{6 if t else 5}",
        "corpus": len(cases) + len(seqs),
    }  # fmt: skip
    check.assumptions = [
        "the wire model (mc/wire.py) says which data is malformed; where it says nothing (class free: over-long "
        "varints, duplicate keys, unusual field orders, unknown flag bits...) only clean failure is required"
    ]
