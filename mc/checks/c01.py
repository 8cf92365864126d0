"""C01: file round trip over write histories x buffer sizes x compression levels."""
from mc import blf, env, hist, objs
from mc.core import require

PROP = "C01"
LEVEL = "model_checking"
RULE = ("A case is one write history (objects of a fixed alphabet), buffer size and compression level, written by the real "
        "BlfWriter into a file and read back by the real BlfReader; non-trivial = distinct (pending bytes, carry-over, alignment) "
        "state or distinct file reached.")
BOUNDS = {
    "quick": "closure over all history lengths for alphabets pair, trio, typed x buffers 1..112; tiny x buffers 1..72; wide x 1..56; zeros x 1..48; dense x 1..32; "
             "all types x 1..17 (level 0, and level 6 for buffers 0 and 1 mod 8); all un-merged histories of length <=3 over 8 objects x 14 buffers x 10 levels; all objects of all types in all "
             "ordered pairs; big objects around the 128 KiB default; logs of up to 70,000 objects and 60,000 containers; "
             "objects and containers up to 128 MiB (thorough 256 MiB); objects of up to 20,000 buffers",
    "thorough": "closure with pair/trio/typed x buffers 1..160, tiny, zeros 1..112, wide, dense 1..96, all types 1..65, levels 0, 6; un-merged histories of "
                "length <=4 (wide) and <=6 (tiny); all types in all ordered triples; all levels for the big objects",
}
ASSUMPTIONS = ["object content outside the alphabets behaves like the alphabets' content (decided per field by C10-C12)",
               "merging states by (pending, carry, alignment), see mc/hist.py"]


def check_read(data, raws, objs_):
    r = env.BlfReader(blf.io.BytesIO(data))
    got = []
    while True:
        o = r.read_object()
        if o is None:
            break
        got.append(o)
        if len(got) > len(raws) + 5:
            break
    blf.same_objects(got, raws)
    for a, b in zip(got, objs_):
        require(type(a) is type(b) and a == b, "read object not equal to the written one:", a, b)
    require(r.read_object() is None, "object after the end")


def case(aname, B, level, h):
    run = hist.Run(aname, B, level, h)
    check_read(run.data, run.raws, run.objs)
    return run.state()


def case_flat(aname, B, level, h):
    run = hist.Run(aname, B, level, h)
    check_read(run.data, run.raws, run.objs)
    return hash(run.data)


def case_long(B, level, n):
    """n small objects whose content is their index."""
    sink = blf.Sink(limit=10 * n + 100 * n // B + 1000)
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    raws = []
    for i in range(n):
        raw = objs.opaque_bytes(20 + i % 9, i.to_bytes(4, "little"))
        raws.append(raw)
        w.write(env.general.NotImplementedObject.unpack(raw))
    w.close()
    blf.same_objects(blf.read_all(sink.final), raws)
    return (B, level, len(sink.final))


def case_huge(sizes, B, level):
    sink = blf.Sink(limit=200 + 40 * sum(sizes) // B)
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    for i, n in enumerate(sizes):
        w.write(objs.opaque(n, bytes([i + 1])))
    w.close()
    k = 0
    for k, o in enumerate(blf.iter_read(sink.final, len(sizes)), 1):
        require(o.pack() == objs.opaque_bytes(sizes[k - 1], bytes([k])), "object", k, "of", len(sizes), "differs, sizes", sizes)
    require(k == len(sizes), k, "objects instead of", len(sizes), "of sizes", sizes)
    return (sizes, B, level)


HUGE = (((1 << 23) + 24, (1 << 23) + 48, 24, 17), ((1 << 24) + 24, 24, 17, (1 << 24) - 8), (30, (1 << 25) + 1000, 40), (24, (1 << 27) + 24, 24))
FLAT_B = (1, 5, 8, 15, 16, 17, 24, 31, 33, 48, 64, 100, 129, 131072)


def units(tier):
    u = []
    th = tier == "thorough"
    for aname, q, t in (("pair", 112, 160), ("trio", 112, 160), ("typed", 112, 160), ("tiny", 72, 112), ("wide", 56, 96), ("zeros", 48, 112), ("dense", 32, 96), ("all", 17, 65)):
        for B in range(1, (t if th else q) + 1):
            for lv in (0, 6):
                if th or not lv or B % 8 < 2:
                    u.append(("closure", aname, B, lv))
    for B in FLAT_B:
        for lv in range(10):
            u.append(("flat", "wide", B, lv, 4 if th else 3))
        if th:
            u.append(("flat", "tiny", B, 0, 6))
    for B in (16, 50, 131072):
        for lv in (0, 1):
            u.append(("flat", "all", B, lv, 2))
        if th:
            u += [("below", "all", B, 1, 3, i) for i in range(58)]
    for B in (131072, 65536, 100000, 4096, 200000):
        for lv in (range(10) if th else (0, 1, 6, 9)):
            u.append(("flat", "big", B, lv, 2))
    for B, lv, n in ((131072, 0, 70000), (131072, 6, 70000), (64, 0, 70000), (20, 0, 30000), (1000, 9, 30000), (1, 0, 3000), (16, 9, 40000)):
        u.append(("long", B, lv, n))
    for i, sizes in enumerate(HUGE + ((24, (1 << 28) + 24, 24),) * th):
        for B, lv in ((1 << 17, 0), (1 << 24, 1), (1 << 26, 0), (1 << 29, 1)) if i < 2 or th else ((1 << 20, 0), (1 << 29, 1)):
            u.append(("huge", B, lv, sizes))
    for B in list(range(1, 10)) + [16, 24, 33]:
        for lv in (0, 6):
            u.append(("huge", B, lv, (16, 70001 if B > 4 else 20001, 16, 17)))
    return sorted(u, key=lambda x: ({"huge": 0, "long": 0, "flat": 1, "below": 1, "closure": 2}[x[0]], -x[2]))


def run_unit(u, ctx):
    if u[0] == "closure":
        hist.closure(ctx, case, u[1], u[2], u[3])
    elif u[0] == "flat":
        k = len(hist.alpha(u[1])[0])
        for h in hist.sequences(k, u[4]):
            ctx.do(case_flat, u[1], u[2], u[3], h)
            ctx.count("unmerged_histories")
    elif u[0] == "below":
        for h in hist.sequences_below(len(hist.alpha(u[1])[0]), u[4], u[5]):
            ctx.do(case_flat, u[1], u[2], u[3], h)
            ctx.count("unmerged_histories")
    elif u[0] == "huge":
        ctx.cpu_seconds = 120
        ctx.do(case_huge, u[3], u[1], u[2])
    else:
        ctx.do(case_long, *u[1:])
    ctx.count("traces_validated_against_impl", ctx.n)
