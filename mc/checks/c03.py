"""C03: filler bytes and signature look-alikes."""
from itertools import product

from mc import blf, layout, objs
from mc.blf import container, file_header
from mc.layout import SPECS, width

PROP = "C03"
LEVEL = "model_checking"
RULE = ("A case is one log with filler bytes in one or all gaps of its object stream or of the file, or with signatures inside object "
        "payloads, and a container cut; the real BlfReader must return the objects byte for byte. Non-trivial = distinct file contents.")
BOUNDS = {
    "quick": "all filler strings of length 0..5 over {0, L, O, B, J, 255} without 'LOBJ' in every gap (before, between, after; in the stream and in "
             "the file) and in all gaps at once; length 0..3 with every container cut; all one- and two-byte fillers; 32 long fillers; fillers of every length "
             "around 256..65536 (less what precedes them), 7 of up to 2 MiB; 9 look-alike "
             "payloads at every payload offset with every container cut; the same look-alikes in every variable part and byte-string field of every type and in opaque "
             "objects of 8 type codes",
    "thorough": "as quick with fillers of up to 16 MiB, length 0..7 and, with every cut, 0..5; every pair of container cuts for look-alike payloads",
}
ASSUMPTIONS = ["a filler string does not itself contain the four-byte object signature"]
ALPHA = (0, 0x4C, 0x4F, 0x42, 0x4A, 0xFF)  # \0 L O B J \xff

A, B_, C = objs.opaque_bytes(16), objs.opaque_bytes(21, b"JBOL"), None


def raws():
    return [A, B_, objs.sample_bytes("CanErrorFrame")]


def stream_of(gap, f):
    """Objects with filler f in gap number `gap` (4 = all gaps)."""
    out = b""
    r = raws()
    for i in range(4):
        out += (f if gap in (i, 4) else b"") + (r[i] if i < 3 else b"")
    return out


def case_stream(gap, f, level):
    data = file_header(level) + container(stream_of(gap, f), level)
    blf.same_objects(blf.read_all(data), raws())
    return hash(data)


def case_cut(gap, f, cut, level):
    s = stream_of(gap, f)
    data = file_header(level) + container(s[:cut], level) + container(s[cut:], level)
    blf.same_objects(blf.read_all(data), raws())
    return hash(data)


def case_file(gap, f, level):
    """The gaps are in the file itself: a container, a bare object, a container; a stream cut in between."""
    r = raws()
    items = [container(r[0] + r[1][:7], level), r[2], container(r[1][7:], level)]
    data = file_header(level)
    for i in range(4):
        data += (f if gap in (i, 4) else b"") + (items[i] if i < 3 else b"")
    blf.same_objects(blf.read_all(data), [r[0], r[2], r[1]])
    return hash(data)


def looks():
    base = objs.opaque_bytes(16)
    return [b"LOBJ", b"LOGG", base, container(base), container(b""), b"LOBJ\x10\0\1\0\0\0\0\0\x17\0\0\0", b"LOBJ\x10\0\1\0\xff\xff\xff\x7f\x0a\0\0\0",
            file_header(0)[:32], objs.sample_bytes("CanErrorFrame")[:20]]


def case_look(i, off, total, cuts, level, bare):
    """An object whose payload contains look-alike i at offset off, between two plain objects."""
    look = looks()[i]
    body = (b"\x33" * off + look + b"LOB" * 40)[:total]
    x = objs.opaque_bytes(16 + total, body)
    want = [A, x, B_]
    s = A + x + bytes(-len(x) % 8) + B_
    data = file_header(level)
    if bare:
        data += s
    else:
        b = (0,) + tuple(cuts) + (len(s),)
        for p, q in zip(b, b[1:]):
            data += container(s[p:q], level)
    blf.same_objects(blf.read_all(data), want)
    return hash(data)


CODES = (0, 12, 115, 129, 4711, 0x10017, 0x80000000, 0xFFFFFFFF)  # type codes of objects that are kept opaque
CARRIERS = [c for c in CODES] + [n for n, s in SPECS.items() if s.parts or any(width(f) >= 8 and f[-1] == "s" for _, f, _ in s.fields)]


def carrier(c, i, off):
    """An object of type c with look-alike i at offset off of its variable part (or byte-string field)."""
    look = looks()[i]
    if isinstance(c, int):
        return objs.opaque_bytes(16 + off + len(look) + 5, b"\x33" * off + look + b"LOBJ\0", c)
    spec = SPECS[c]
    raw = b"\x33" * off + look
    out = []
    for n, (a, lf, kind) in enumerate(spec.parts):
        parts = {x: b"LO" for x, _, _ in spec.parts}
        parts[a] = (raw + b"BJ\0")[:255]
        out.append(layout.encode(spec, None, parts))
    for o, f, p in spec.fields:
        if f[-1] == "s" and width(f) >= 8:
            out.append(layout.encode(spec, {p: (raw + b"LOBJ" * 20)[:width(f)]}, {x: b"LO" for x, _, _ in spec.parts}))
    return b"".join(blf.pad(x, 8) for x in out), out


def case_carrier(c, i, off, cut, level, bare):
    s, want = (lambda x: x if isinstance(x, tuple) else (blf.pad(x, 8), [x]))(carrier(c, i, off))
    s = A + s + blf.pad(B_, 8) + s
    want = [A] + want + [B_] + want
    data = file_header(level)
    if bare:
        data += s
    else:
        k = cut % (len(s) + 1)
        data += container(s[:k], level) + container(s[k:], level)
    blf.same_objects(blf.read_all(data), want)
    return hash(data)


def fillers(n, first=None):
    for t in product(ALPHA, repeat=n):
        if first is not None and (t[:1] != (first,)):
            continue
        f = bytes(t)
        if b"LOBJ" not in f:
            yield f


def units(tier):
    th = tier == "thorough"
    u = []
    top = 7 if th else 5
    for n in range(top + 1):
        for first in (ALPHA if n else (None,)):
            for gap in range(5):
                u.append(("str", n, first, gap))
    for n in range((5 if th else 3) + 1):
        for gap in range(5):
            u.append(("cut", n, gap))
    for h in range(16):
        u.append(("bytes", h))
    u.append(("long",))
    u += [("edge", p, th) for p in (8, 9, 10, 11, 12, 13, 14, 15, 16)]
    for i in range(9):
        for level in (0, 6):
            u.append(("look", i, level, th))
    u += [("carrier", c, th) for c in CARRIERS]
    u += [("far", n, i % 2) for i, n in enumerate((100_003, 131_083, 262_147, 524_309, 1_000_003, 1_048_583, 2_097_169) + (4_194_319, 16_777_259) * th)]
    return u[::-1]


LONG = [bytes([c]) * n for c in (0, 0x4C, 0xFF, 0x4A) for n in (100, 1000, 4099, 70001)] + [
    (p * n)[:n] for p in (b"LOB", b"LOBLO", b"OBJ", b"LOBLOGG") for n in (64, 999, 5000, 40001)]


def case_edge(n, kind, where, level):
    """A long filler of n bytes whose end imitates the start of a signature."""
    f = bytes([0x20]) * (n - len(kind)) + kind
    r = raws()
    data = file_header(level)
    if where == "file":
        data += container(r[0], level) + f + container(r[1] + r[2], level)
    else:
        data += container(r[0] + f + r[1] + r[2], level)
    blf.same_objects(blf.read_all(data), r)
    return hash(data)


def run_unit(u, ctx):
    def note(kind, gap, f):
        """State: what the search for the next signature has seen; transition: one more filler byte."""
        for k in range(len(f)):
            ctx.state(kind, gap, f[:k + 1])
            ctx.trans(kind, gap, f[:k], f[k])

    if u[0] == "str":
        _, n, first, gap = u
        for f in fillers(n, first):
            ctx.do(case_stream, gap, f, 0)
            ctx.do(case_file, gap, f, 0)
            if n <= 4:
                ctx.do(case_stream, gap, f, 6)
                ctx.do(case_file, gap, f, 1)
            note("str", gap, f)
    elif u[0] == "cut":
        _, n, gap = u
        for f in fillers(n):
            for c in range(len(stream_of(gap, f)) + 1):
                ctx.do(case_cut, gap, f, c, 0)
                if c % 4 == 0:
                    ctx.do(case_cut, gap, f, c, 6)
            note("cut", gap, f)
    elif u[0] == "bytes":
        for a in range(u[1], 256, 16):
            for f in [bytes([a]) * n for n in (1, 2, 3, 4, 5, 8)] + [bytes([a, b]) for b in range(256)]:
                for gap in (1, 4):
                    ctx.do(case_stream, gap, f, 0)
                    ctx.do(case_file, gap, f, 0)
                note("byte", 1, f)
    elif u[0] == "long":
        for f in LONG:
            for gap in range(5):
                ctx.do(case_stream, gap, f, 0)
                ctx.do(case_file, gap, f, 6)
    elif u[0] == "far":
        ctx.cpu_seconds = 200
        for where in ("file", "stream"):
            ctx.do(case_edge, u[1], b"LOB", where, u[2])
    elif u[0] == "edge":
        for m in (0, 16, 32, 48, 144, 176) if u[1] < 16 or u[2] else (0, 144):
            for n in range((1 << u[1]) - m - 24, (1 << u[1]) - m + 25):
                for kind in (b"", b"L", b"LOB") if u[1] < 15 or u[2] else (b"",):
                    if n >= len(kind):
                        for where in ("file", "stream"):
                            ctx.do(case_edge, n, kind, where, 0)
    elif u[0] == "carrier":
        for i in range(9):
            for off in range(0, 9):
                ctx.do(case_carrier, u[1], i, off, 0, 0, True)
                for cut in range(0, 160, 1 if u[2] else 7):
                    ctx.do(case_carrier, u[1], i, off, cut + off % 7, 6 * (cut % 2), False)
                    ctx.state("carrier", u[1], i, off, cut)
    else:
        _, i, level, th = u
        n = len(looks()[i])
        for off in range(0, 18):
            for total in (off + n, off + n + 1, off + n + 6):
                ctx.do(case_look, i, off, total, (), level, True)
                length = 16 + 16 + total + 8
                for c in range(length):
                    if total != off + n and c % 5:
                        continue
                    ctx.do(case_look, i, off, total, (c,), level, False)
                    ctx.state("look", i, off, total, c)
                    if th and n < 60:
                        for d in range(c, length, 3):
                            ctx.do(case_look, i, off, total, (c, d), level, False)
    ctx.count("traces_validated_against_impl", ctx.n)
