"""C24: containers are self-describing."""
import zlib
from itertools import product

from mc import blf, hist, layout, objs
from mc.core import require
from mc.hist import Run, alpha, closure, sequences

PROP = "C24"
LEVEL = "model_checking"
RULE = ("A case is one history written by the real writer, then decoded from the container fields alone by an independent parser, compared with the accepted objects; "
        "or one file of stored and compressed containers read by the real reader. Non-trivial = distinct files. A state is (held back bytes, incomplete object, "
        "alignment) observed from the files; the search over histories goes on until no new state appears.")
BOUNDS = {
    "quick": "closure of the writer's state space for 11 (alphabet, buffer size, level) systems; all histories up to length 4 over 5 alphabets x 5 buffer sizes x levels "
             "0,1,6,9; buffer sizes 1..140 and 65535..65537, 131071..131073 x 10 levels for 6 long histories; containers to 32 MiB; files of 70,000 objects in up to 66,000 containers; reading: all 2^n stored/compressed patterns of up to 8 "
             "containers x 4 announced levels x 3 container flavours",
    "thorough": "closure for 30 systems; histories up to length 5; buffer sizes 1..600",
}
ASSUMPTIONS = ["method 0 = stored, 2 = zlib (BLF)"]


def check_file(data, raws, level, B):
    cs, left = blf.parse_containers(data)
    require(not left, "incomplete container", left[:40])
    stream = b""
    kinds = []
    for c in cs:
        require(c.method in (0, 2), "container at", c.off, "declares method", c.method)
        hs, hv = layout.peek(data, c.off + 4, "H"), layout.peek(data, c.off + 6, "H")
        require(hs in (16, 32) and hv == 1, "container at", c.off, "has header size", hs, "version", hv)
        if c.method == 2:
            d = zlib.decompressobj()
            payload = d.decompress(c.raw) + d.flush()
            require(d.eof and not d.unused_data, "container at", c.off, "of", c.size, "bytes: the compressed content ends", len(d.unused_data), "bytes earlier")
        else:
            payload = c.raw
        require(c.declared == len(payload), "container at", c.off, "declares", c.declared, "uncompressed bytes, has", len(payload))
        stream += payload
        kinds.append((c.method, len(payload)))
    got, tail = blf.split_objects(stream)
    require(not tail and got == raws, "from the container fields:", [g[:20].hex() for g in got[:5]], "instead of", [r[:20].hex() for r in raws[:5]])
    # filler: zero bytes (split_objects and parse_containers accept no others), fewer than eight
    end = 144
    for c in cs:
        require(c.off - end < 8, c.off - end, "filler bytes before the container at", c.off)
        end = c.off + c.size
    require(len(data) - end < 8, len(data) - end, "bytes after the last container")
    pos = 0
    for r in raws:
        at = stream.index(b"LOBJ", pos)
        require(at - pos < 8, at - pos, "filler bytes before an object at", at, "of the stream")
        pos = at + len(r)
    require(len(stream) - pos < 8, len(stream) - pos, "filler bytes after the last object")
    return tuple(kinds)


def case_state(aname, B, level, h):
    r = Run(aname, B, level, h)
    check_file(r.data, r.raws, level, B)
    return r.state()


def case_write(aname, B, level, h):
    r = Run(aname, B, level, h)
    return hash((B, level, h, aname, check_file(r.data, r.raws, level, B)))


def case_read(level, pattern, cuts, flavour, aname):
    """Container i is stored or compressed as pattern says."""
    raws, _ = alpha(aname)
    s = b"".join(blf.pad(r, 8) for r in raws)
    bounds = [0] + sorted(cuts) + [len(s)]
    data = blf.file_header(level)
    for (a, b), packed in zip(zip(bounds, bounds[1:]), pattern):
        c = bytearray(blf.container(s[a:b], level if packed else 0))
        if flavour == "long" :  # header size 32 instead of 16
            layout.put(c, 4, "H", 32)
        elif flavour == "dirty":  # reserved words in use
            layout.put(c, 18, "H", 0xBEEF)
            layout.put(c, 28, "I", 0xDEADBEEF)
        data += blf.pad(bytes(c), 4)
    blf.same_objects(blf.read_all(data), raws, "pattern %s" % (pattern,))
    return (level, pattern, cuts, flavour, aname)


def case_big(size, fill, B, level):
    """Containers of many megabytes."""
    raws = [objs.opaque_bytes(24, b"a"), objs.opaque_bytes(size, objs.noise(99991) if fill == "noise" else b"\0"), objs.opaque_bytes(33, b"b")]
    sink = blf.write_log([objs.from_bytes(r) for r in raws], B, level)
    check_file(sink.final, raws, level, B)
    return (size, fill, B, level)


def case_many(n, B, level):
    raws = [objs.opaque_bytes(16 + i % 7, b"%d" % i) for i in range(n)]
    sink = blf.write_log([objs.from_bytes(r) for r in raws], B, level, blf.Sink(limit=10 * n + 1000))
    check_file(sink.final, raws, level, B)
    return (n, B, level)


def units(tier):
    th = tier == "thorough"
    systems = [("pair", 24, 0), ("pair", 24, 6), ("trio", 33, 0), ("pair", 17, 0), ("pair", 40, 9), ("pair", 64, 1), ("trio", 48, 6), ("zeros", 32, 0), ("zeros", 40, 6), ("dense", 24, 6), ("dense", 40, 9)]
    if th:
        systems += [(a, B, lv) for a in ("pair", "trio", "tiny") for B in (16, 19, 24, 32, 40, 57, 80) for lv in (0, 6)]
    u = [("closure",) + s for s in systems]
    u += [("hist", a, B, lv, 5 if th else 4) for a in ("tiny", "typed", "trio", "zeros", "dense") for B in (16, 24, 37, 100, 131072) for lv in (0, 1, 6, 9)]
    u += [("sizes", a, p, 600 if th else 140) for a in ("wide", "all", "big", "large", "zeros", "dense") for p in range(8)]
    u += [("big", n, f, lv) for n in ((1 << 24) + 100, (1 << 26) + 100 if th else (1 << 25) + 100) for f in ("zero", "noise") for lv in (0, 1, 9 if f == "zero" else 2)]
    u += [("many", n, B, lv) for n, B in ((20000, 16), (66000, 24), (70000, 131072)) for lv in (0, 6)]
    u += [("read", lv, fl) for lv in (1, 5, 6, 9) for fl in ("vector", "long", "dirty")]
    return sorted(u, key=lambda x: x[0] not in ("big", "many"))


def run_unit(u, ctx):
    if u[0] == "closure":
        closure(ctx, case_state, *u[1:])
        ctx.count("traces_validated_against_impl", ctx.n)
    elif u[0] == "hist":
        k = len(alpha(u[1])[0])
        for h in sequences(k, u[4]):
            ctx.do(case_write, u[1], u[2], u[3], h)
    elif u[0] == "sizes":
        k = len(alpha(u[1])[0])
        h = tuple(range(k)) if u[1] != "large" else (0, 1, 2, 1, 1, 0, 2)
        for i, B in enumerate(list(range(40 if u[1] == "big" else 1, u[3])) + [65535, 65536, 65537, 131071, 131072, 131073]):
            if i % 8 == u[2]:
                if u[1] == "big" and B < 1000:
                    continue
                for level in range(10) if B % 16 < 2 or B > 600 else (0, 6):
                    ctx.do(case_write, u[1], B, level, h)
    elif u[0] == "big":
        for B in (65536, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 25) + 5, 1 << 28):
            ctx.do(case_big, u[1], u[2], B, u[3])
    elif u[0] == "many":
        ctx.do(case_many, *u[1:])
    else:
        for aname in ("tiny", "typed"):
            total = sum(len(blf.pad(r, 8)) for r in alpha(aname)[0])
            for n in range(1, 9):
                for v in range(2):
                    cuts = tuple(total * (i + 1) // n + v * (i % 3) - v for i in range(n - 1))
                    for pattern in product((0, 1), repeat=n):
                        ctx.do(case_read, u[1], pattern, cuts, u[2], aname)


_ = objs
