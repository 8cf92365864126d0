"""C07: bounded buffering, bounded and aligned containers."""
from mc import blf, env, hist, objs
from mc.core import require

PROP = "C07"
LEVEL = "model_checking"
RULE = ("A case is one write history, buffer size and level; after its last write the file is inspected before close: less than one buffer "
        "is held back, every container holds at most one buffer and is 8-byte aligned. Non-trivial = distinct writer state or file.")
BOUNDS = {
    "quick": "closure over all writer states (all history lengths): pair, trio, large, typed x buffers 1..96; tiny 1..64; wide 1..48; all types 1..17; "
             "all histories of length <=3 over 8 objects x 12 buffers x levels 0,1,6,9; objects up to 1 MB x 11 buffers; objects of up to 20,000 buffers; "
             "buffers up to 16 MiB (thorough 64 MiB) filled in 3, 8 or 9 steps; 20,000-object logs; settings left out (64 pairs of sizes)",
    "thorough": "buffers 1..160 (tiny 1..96, wide 1..72, all types 1..48), all levels, histories of length <=4",
}
ASSUMPTIONS = ["merging states by (pending, carry, alignment), see mc/hist.py"]


def inspect(pre, data, level, B):
    """Checks the file as it is after the last write (pre) against the closed file (data)."""
    cs, left = blf.parse_containers(data)
    require(not left, "incomplete container in a closed file")
    total = flushed = 0
    stream = b""
    for c in cs:
        p = blf.inflate(c, level)
        require(c.off % 8 == 0, "container at offset", c.off)
        require(len(p) <= B, "a container holds", len(p), "bytes with a buffer of", B)
        total += len(p)
        stream += p
        if c.off + c.size <= len(pre):
            flushed = total
    return flushed, stream


def held(flushed, stream, B):
    """The last object's last byte is the last accepted byte; the stream behind it can only be padding."""
    objects, _ = blf.split_objects(stream)
    pos = 0
    for o in objects:
        pos = stream.index(o, pos) + len(o)
    require(pos - flushed < B, pos - flushed, "bytes are held back with a buffer of", B)


def case(aname, B, level, h):
    run = hist.Run(aname, B, level, h)
    flushed, stream = inspect(run.pre, run.data, level, B)
    if h:
        held(flushed, stream, B)
    return run.state()


def case_flat(aname, B, level, h):
    case(aname, B, level, h)
    return (aname, B, level, h)


def case_huge(sizes, B, level):
    """Objects of the given sizes, inspected after every write."""
    sink = blf.Sink(limit=200 + 40 * sum(sizes) // B)
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    marks = []
    for i, n in enumerate(sizes):
        w.write(objs.opaque(n, bytes([i + 1])))
        marks.append(len(sink.getvalue()))
    w.close()
    cs, _ = blf.parse_containers(sink.final)
    ends = []
    t = 0
    for c in cs:
        p = len(blf.inflate(c, level))
        require(p <= B, "a container holds", p, "bytes with a buffer of", B)
        require(c.off % 8 == 0, "container at offset", c.off)
        t += p
        ends.append((c.off + c.size, t))
    for i, length in enumerate(marks):
        flushed = max([0] + [t for e, t in ends if e <= length])
        lower = sum(sizes[:i + 1])  # without any padding
        require(lower - flushed < B, lower - flushed, "bytes are held back with a buffer of", B, "after write", i)
    return (sizes, B, level)


def case_many(n, B, level):
    raws, obs = hist.alpha("trio")
    sink = blf.Sink(limit=60 * n)
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    top = 0
    for i in range(n):
        w.write(obs[i % 3])
        top += len(raws[i % 3])
        if i % 97 == 0:
            # level 0: everything the file has beyond headers is payload; padding only adds to it
            have = sum(len(b) for p, b in sink.ops if p)
            require(level or top - have < B, "held back", top - have, "with a buffer of", B)
    w.close()
    inspect(sink.final, sink.final, level, B)
    return (n, B, level)


def case_default(sizes, given):
    """A writer without settings behaves as one with a buffer of 128 KiB and no compression, write by write."""
    sinks = []
    for kw in ({k: v for k, v in (("buffer_size", 131072), ("compression_level", 0)) if k in given}, {"buffer_size": 131072, "compression_level": 0}):
        sink = blf.Sink()
        w = env.BlfWriter(sink, **kw)
        marks = []
        for i, n in enumerate(sizes):
            w.write(objs.opaque(n, bytes([i + 1])))
            marks.append(len(sink.getvalue()))
        w.close()
        cs, _ = blf.parse_containers(sink.final)
        sinks.append((marks, sink.final[13], [(c.off, c.declared) for c in cs]))
    require(sinks[0] == sinks[1], "without settings the file grows to", sinks[0], "instead of", sinks[1])
    return sizes, given


def units(tier):
    th = tier == "thorough"
    u = []
    for aname, a, b in (("pair", 96, 160), ("trio", 96, 160), ("large", 96, 160), ("typed", 96, 160), ("tiny", 64, 96), ("wide", 48, 72), ("all", 17, 48)):
        for B in range(1, (b if th else a) + 1):
            for lv in (0, 6):
                if th or not lv or B % 8 < 2:
                    u.append(("closure", aname, B, lv))
    for B in (1, 7, 8, 16, 17, 24, 40, 64, 65, 100, 129, 1000):
        for lv in (range(10) if th else (0, 1, 6, 9)):
            u.append(("flat", "wide", B, lv, 4 if th else 3))
    for B in (100, 1000, 4096, 65536, 131071, 131072, 131073, 262144, 1 << 20, (1 << 20) + 8, 3 << 20):
        for lv in (0, 1, 6):
            u.append(("huge", B, lv))
    u += [("ratio", B, lv) for B in (1, 2, 3, 7, 8, 9, 16, 17, 40) for lv in (0, 6)]
    u += [("steps", n, part, lv) for n in ((1 << 20) + 8, 4 << 20, (1 << 24) + 8) + ((1 << 26) + 8,) * th for part in (3, 8, 9) for lv in (0, 1)]
    u += [("default",)]
    u += [("many", 20000, 64, 0), ("many", 20000, 50, 6), ("many", 20000, 131072, 0)]
    return sorted(u, key=lambda x: {"many": 0, "default": 0, "huge": 1, "ratio": 1, "steps": 1, "flat": 2, "closure": 3}[x[0]])


def run_unit(u, ctx):
    if u[0] == "closure":
        hist.closure(ctx, case, *u[1:])
    elif u[0] == "flat":
        for h in hist.sequences(8, u[4]):
            ctx.do(case_flat, u[1], u[2], u[3], h)
            ctx.count("unmerged_histories")
    elif u[0] == "huge":
        B = u[1]
        S = (16, B - 1 if B > 17 else 17, B, B + 1, 2 * B, 3 * B + 5)
        for a in S:
            ctx.do(case_huge, (a,), B, u[2])
            for b in S:
                ctx.do(case_huge, (a, b), B, u[2])
        if B <= 65536:
            ctx.do(case_huge, (1000000, 16, 16, 999999), B, u[2])
    elif u[0] == "ratio":
        ctx.do(case_huge, (16, 20001, 17, 16), u[1], u[2])
        ctx.do(case_huge, (9000, 9001), u[1], u[2])
    elif u[0] == "default":
        S = (16, 1000, 65536, 131056, 131071, 131072, 131073, 262144)
        for given in ((), ("buffer_size",), ("compression_level",)):
            for a in S:
                for b in S:
                    ctx.do(case_default, (a, b), given)
                    ctx.do(case_default, (a, b, a), given)
    elif u[0] == "steps":
        ctx.cpu_seconds = 120
        ctx.do(case_huge, (u[1] // u[2],) * (2 * u[2] + 3), u[1], u[3])
    else:
        ctx.do(case_many, *u[1:])
    ctx.count("traces_validated_against_impl", ctx.n)
