"""C22: copying logs."""
import io
import itertools
from itertools import product

from mc import blf, env, fields, hist, layout, objs
from mc.core import require
from mc.fields import background, patch
from mc.layout import SPECS

PROP = "C22"
LEVEL = "exploration"
RULE = ("A case is one source log copied object by object (streaming: each object is written before the next is read), with other writer parameters, once or "
        "twice in a row; the serialised objects extracted from the copy by an independent parser are compared with the source's. Non-trivial = distinct copies.")
BOUNDS = {
    "quick": "all sequences up to length 3 over 2 alphabets (5 and 5 objects) and all ordered pairs of 28 types x 2 samples, source cut into containers of 17/40/1000 "
             "bytes (stored, compressed, mixed, bare objects), copied with buffer sizes 1/24/100/131072 and levels 0/6; source buffer x copy buffer sizes "
             "16..80 completely for 3 logs; every type x 2 backgrounds with every single field varied as in C10; opaque objects with every value of every base header byte; logs of 3,000 to 70,000 objects, objects to 16 MiB",
    "thorough": "sequences up to length 4, all levels 0-9, buffer sizes 1..120 completely",
}
ASSUMPTIONS = ["objects are well-formed"]


def source(raws, cut, style):
    """style: 0 stored, 1 compressed, 2 mixed, 3 bare objects, 4 legacy containers, 5 padded to 4 bytes."""
    s = b"".join(blf.pad(r, 4 if style == 5 else 8) for r in raws)
    if style == 3:
        return blf.file_header(0) + s
    level = 6 if style in (1, 2) else 0
    out = blf.file_header(level)
    for i, p in enumerate(range(0, len(s), cut)):
        c = level if style == 1 or style == 2 and i % 2 else 0
        out += blf.pad(blf.container(s[p:p + cut], c, "legacy" if style == 4 else "vector"), 4)
    return out


def payloads(data):
    """The object stream, by the container fields alone."""
    import zlib
    cs, left = blf.parse_containers(data)
    require(not left, "incomplete container")
    return b"".join(zlib.decompress(c.raw) if c.method == 2 else c.raw for c in cs)


def copy(data, B, level, size=0):
    sink = blf.Sink(limit=200000 + size)
    r = env.BlfReader(io.BytesIO(data))
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    while True:
        o = r.read_object()
        if o is None:
            break
        w.write(o)
    w.close()
    return sink.final


def check(raws, cut, style, B, level, again):
    data = source(raws, cut, style)
    size = sum(map(len, raws))
    out = copy(data, B, level, size)
    got, left = blf.split_objects(payloads(out))
    require(not left and got == raws, "the copy holds", [g[:20].hex() for g in got], "instead of", [r[:20].hex() for r in raws])
    if again:
        out2 = copy(out, 33 + B % 50 if size < 200000 else 3333 + B % 50, 6 - level if level in (0, 6) else 0, size)
        got, left = blf.split_objects(payloads(out2))
        require(not left and got == raws, "the copy of the copy differs")
    require(layout.peek(out, 32, "I") == len(raws), "object count")
    return hash((data, B, level))


def case_seq(aname, h, cut, style, B, level):
    raws = [hist.alpha(aname)[0][i] for i in h]
    return check(raws, cut, style, B, level, True)


def case_pair(a, b, cut, style, B, level):
    raws = [objs.sample_bytes(a), objs.sample_bytes(b, 1), objs.sample_bytes(a, 1), objs.sample_bytes(b)]
    return check(raws, cut, style, B, level, False)


def case_sizes(aname, cut, B, level):
    return check(hist.alpha(aname)[0], cut, level and 1, B, 6 - level, True)


def case_fields(name, bg, lo, hi, cut, style, B, level):
    """One log of many objects of one type that differ in one field each."""
    spec = SPECS[name]
    raw = background(name, bg)
    raws = [patch(raw, f[0], b) for f, b in itertools.islice(fields.singles(name, False), lo, hi)]
    return raws and check(raws, cut, style, B, level, False) or None


def case_base(otype, byte, cut, style, B, level):
    """Opaque objects with every value of one byte of the base header behind the signature."""
    raws = []
    for v in range(256):
        r = bytearray(objs.opaque_bytes(16 + v % 40, b"LOBJ", otype))
        if byte is None:
            r[16:] = bytes((v + i) & 0xFF for i in range(len(r) - 16))
        else:
            r[byte] = v
        if layout.peek(r, 12, "I") not in layout.BY_TYPE and layout.peek(r, 12, "I") != 10:
            raws.append(bytes(r))
    return check(raws, cut, style, B, level, True)


def case_long(n, kind, cut, style, B, level, again):
    """Many objects; `kind` is what the objects are."""
    if kind == "types":
        a = hist.alpha("all")[0]
        raws = [a[i % len(a)] for i in range(n)]
    elif kind == "growing":
        raws = [objs.opaque_bytes(16 + i, b"%d" % i) for i in range(n)]
    else:
        raws = [objs.opaque_bytes(17 + i % 9, b"%d" % i) for i in range(n)]
    return check(raws, cut, style, B, level, again)


def case_big(size, cut, style, B, level):
    raws = [objs.opaque_bytes(21, b"a"), objs.opaque_bytes(size, bytes(range(251)) + b"LOBJ"), objs.opaque_bytes(24, b"b")]
    return check(raws, cut, style, B, level, True)


def units(tier):
    th = tier == "thorough"
    u = [("seq", a, 4 if th else 3, p) for a in ("tiny", "typed") for p in range(8)]
    u += [("pairs", a) for a in objs.SPECS]
    u += [("fields", a, bg) for a in objs.SPECS for bg in (fields.BACKGROUNDS if th else ("s0", "ones"))] + [("base",)]
    u += [("long", n, kind, cut, style, B, lv) for n, kind in ((5000, "types"), (3000, "growing"), (9000, "small")) for cut, style in ((1000, 0), (131072, 1), (4000, 2), (1, 3))
          for B, lv in ((100, 0), (131072, 6), (5000, 1))]
    u += [("long", 140000 if th else 70000, "small", c, s, B, lv) for c, s, B, lv in ((131072, 1, 131072, 6), (131072, 0, 5000, 0))]
    u += [("big", n, lv) for n in (1 << 16, (1 << 20) + 3, (1 << 24) - 1, (1 << 24) + 9) for lv in (0, 1)]
    u += [("sizes", a, 1 if th else 16, 121 if th else 81) for a in ("tiny", "typed", "large")]
    if th:
        u += [("levels", a) for a in ("wide", "all", "big")]
    return sorted(u, key=lambda x: x[0] not in ("long", "big"))


def run_unit(u, ctx):
    if u[0] == "seq":
        i = 0
        for h in hist.sequences(5, u[2]):
            for style, cut in [(s, c) for s in (0, 1, 2) for c in (17, 40, 1000)] + [(3, 1), (4, 40), (5, 33)]:
                for B, level in product((1, 24, 100, 131072), (0, 6)):
                    i += 1
                    if i % 8 == u[3]:
                        ctx.do(case_seq, u[1], h, cut, style, B, level)
    elif u[0] == "pairs":
        for b in objs.SPECS:
            for k, (cut, style) in enumerate(((1000, 0), (40, 1), (64, 2), (1, 3))):
                ctx.do(case_pair, u[1], b, cut, style, (24, 131072, 100, 64)[k], (0, 6)[k % 2])
    elif u[0] == "long":
        ctx.do(case_long, *u[1:], u[1] <= 5000)
    elif u[0] == "big":
        for cut, style in ((131072, 0), (1 << 20, 1), (1 << 25, 1), (1 << 25, 3)):
            for B in (131072, 1 << 24, 1 << 26) if u[1] > 1 << 20 else (5000, 131072):
                ctx.do(case_big, u[1], cut, style, B, u[2])
    elif u[0] == "fields":
        for k, lo in enumerate(range(0, 20000, 250)):
            if ctx.do(case_fields, u[1], u[2], lo, lo + 250, (1000, 64, 4096)[k % 3], k % 4, (131072, 100, 24)[k % 3], (0, 6)[k % 2]) is None:
                break
    elif u[0] == "base":
        for otype in (0, 12, 23, 115, 129, 4711, 0xFFFFFF00):
            for byte in (None, 4, 5, 6, 7, 12, 13, 14, 15):
                for k in range(4):
                    ctx.do(case_base, otype, byte, (17, 40, 1000, 64)[k], k, (24, 131072, 100, 33)[k], 6 * (k % 2))
    elif u[0] == "sizes":
        for cut in range(max(u[2], 4), u[3]):
            for B in range(u[2], u[3]):
                ctx.do(case_sizes, u[1], cut, B, (cut + B) % 2 * 6)
    else:
        for level in range(10):
            for B in (40, 1000, 131072):
                ctx.do(case_seq, u[1], tuple(range(len(hist.alpha(u[1])[0]))), 1000, level % 3, B, level)
