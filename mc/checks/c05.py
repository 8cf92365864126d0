"""C05: header statistics of the closed file."""
import io
import os
import time
from datetime import timedelta, timezone

from mc import blf, env, hist, layout, objs
from mc.core import Violation, require
from mc.env import CLOCK

PROP = "C05"
LEVEL = "model_checking"
RULE = ("A case is one write history with a clock reading per call, buffer size, level and local time zone; the file header and the "
        "reader's view of it must equal the reference computed from the history. Non-trivial = distinct file headers.")
BOUNDS = {
    "quick": "closure over all writer states for 3 alphabets x buffers 1..64; all histories of length <=3 over 8 objects x 12 buffers x 10 levels; all "
             "sequences of <=4 clock steps out of 10 (two of them backwards) x 3 time zones; 24 start times around calendar boundaries; every object type; 70,000 objects; more than 4 GiB of objects, stored and compressed",
    "thorough": "as quick with buffers to 128, histories of length <=4, <=5 clock steps",
}
ASSUMPTIONS = ["a time is stored with millisecond resolution: an error below 1 ms is accepted (rounding is decided by C19)",
               "the time of the last object is only constrained to lie in the session if no object was written"]
VERSION = [int(x) for x in env.vblf.__version__.split(".")[:2]]
STEPS = (0.0, 0.0004, 0.25, 0.8746, 59.0, 86400.0, 31 * 86400.0, 366 * 86400.0, -0.25, -40 * 86400.0)
ZONES = ("UTC", "XXX-05:30", "YYY+11")
STARTS = [946684799.9996, 951782399.5, 951868800.0, 1709164799.999, 1709251199.0, 1e9, 2145916799.25, 4102444799.75, 0.0, 1.0, 86399.9994,
          1711846799.1, 1711850400.0, 1729990800.5, 1729994400.5, 1735689599.9999, 1700000000.0, 1700000000.123456, 1700000000.999499,
          1700000000.9995, 250000000000.5, 1e10, 1262304000.001, 1330473600.0625]


def zone(z):
    if os.environ.get("TZ") != z:
        os.environ["TZ"] = z
        time.tzset()


def when(stats, p):
    v = [stats[p + "." + n] for n in ("year", "month", "day", "hour", "minute", "second", "milliseconds")]
    require(v[6] <= 999, p, "milliseconds", v[6])
    return env.real_datetime(*v[:6], v[6] * 1000, tzinfo=timezone.utc)


def near(got, wall, what):
    want = env.real_datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=wall)
    require(abs(got - want) < timedelta(milliseconds=1), what, "is", got, "instead of", want)


def header_of(data):
    return {p: layout.peek(data, off, fmt) for off, fmt, p in layout.FILE_HEADER}


def check(data, raws, level, t0, tlast, tend):
    h = header_of(data)
    require(data[:4] == b"LOGG" and h["statistics_size"] == 144, "the header begins with", data[:8])
    require([h["application_major"], h["application_minor"]] == VERSION and h["application_id"] == 0, "written by", h["application_id"], h["application_major"], h["application_minor"])
    require(not any(data[72:144]), "reserved parts of the header", data[72:144])
    require(h["object_count"] == len(raws), "object_count", h["object_count"], "after", len(raws), "writes")
    require(h["file_size"] == len(data), "file_size", h["file_size"], "of", len(data))
    want = layout.FILE_HEADER_SIZE + sum(len(r) for r in raws)
    require(h["uncompressed_file_size"] == want, "uncompressed_file_size", h["uncompressed_file_size"], "of", want)
    require(h["compression_level"] == level, "compression_level", h["compression_level"])
    near(when(h, "measurement_start_time"), t0, "measurement_start_time")
    last = when(h, "last_object_time")
    if raws:
        near(last, tlast, "last_object_time")
    else:
        epoch = env.real_datetime(1970, 1, 1, tzinfo=timezone.utc)
        s = (last - epoch).total_seconds()
        require(min(t0, tend) - 0.001 <= s <= max(t0, tend) + 0.001, "last_object_time of an empty log", last)
    for p in ("measurement_start_time", "last_object_time"):
        d = when(h, p)
        require(h[p + ".day_of_week"] == d.isoweekday() % 7, p, "day of week")
    with env.BlfReader(blf.io.BytesIO(data)) as r:
        for p, v in h.items():
            if p == "application_id":
                continue
            got = layout.attr(r.file_statistics, p)
            require(got == v, "file_statistics", p, "is", got, "instead of", v)
    return hash(bytes(data[:144]))


def case(aname, B, level, hist_, start, steps, z):
    zone(z)
    raws, obs = hist.alpha(aname)
    CLOCK.reset(start)
    sink = blf.Sink()
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    t0 = tlast = CLOCK.wall
    for i, e in enumerate(hist_):
        CLOCK.step(steps[i] if i < len(steps) else 0)
        w.write(obs[e])
        tlast = CLOCK.wall
    CLOCK.step(steps[-1] if steps else 0)
    w.close()
    check(sink.final, [raws[e] for e in hist_], level, t0, tlast, CLOCK.wall)
    return hash(sink.final[:144])


def case_state(aname, B, level, h):
    run = hist.Run(aname, B, level, h)
    check(run.data, run.raws, level, env.T0, env.T0, env.T0)
    return run.state()


def case_many(n, B, level):
    raws, obs = hist.alpha("pair")
    CLOCK.reset()
    sink = blf.Sink(limit=10 * n + 1000)
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    for i in range(n):
        w.write(obs[i & 1])
    w.close()
    check(sink.final, [raws[i & 1] for i in range(n)], level, env.T0, env.T0, env.T0)
    return (n, B, level)


class Counter(io.RawIOBase):
    """A file of any length of which only the file header is kept."""

    def __init__(self):
        super().__init__()
        self.head = bytearray(144)
        self.pos = self.size = 0

    def writable(self):
        return True

    def seekable(self):
        return True

    def write(self, b):
        n = len(b)
        if self.pos < 144:
            self.head[self.pos:min(144, self.pos + n)] = bytes(b[:144 - self.pos])
        self.pos += n
        self.size = max(self.size, self.pos)
        return n

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, self.size)[whence]
        return self.pos

    def tell(self):
        return self.pos


def case_huge(size, n, B, level):
    """More than 4 GiB of objects."""
    CLOCK.reset()
    f = Counter()
    o = objs.from_bytes(objs.opaque_bytes(size, b"\0"))
    w = env.BlfWriter(f, compression_level=level, buffer_size=B)
    for _ in range(n):
        w.write(o)
    w.close()
    h = header_of(f.head)
    want = {"object_count": n, "file_size": f.size, "uncompressed_file_size": 144 + n * size, "compression_level": level}
    for p, v in want.items():
        require(h[p] == v, p, "is", h[p], "instead of", v)
    require(env.general.FileStatistics.unpack(bytes(f.head)).pack() == bytes(f.head), "file header decoded and encoded")
    return (size, n, B, level)


def case_enum(member, h):
    """Compression given as the library's own constants, or left at its default."""
    raws, obs = hist.alpha("trio")
    CLOCK.reset()
    sink = blf.Sink()
    c = getattr(env.constants.Compression, member) if member else None
    w = env.BlfWriter(sink) if c is None else env.BlfWriter(sink, c)
    for e in h:
        w.write(obs[e])
    w.close()
    level = {"NONE": 0, "SPEED": 1, "DEFAULT": 6, "MAX": 9, "": 0}[member]
    return check(sink.final, [raws[e] for e in h], level, env.T0, env.T0, env.T0)


def units(tier):
    th = tier == "thorough"
    u = []
    for aname in ("pair", "trio", "typed"):
        for B in range(1, (128 if th else 64) + 1):
            u.append(("closure", aname, B, 6 if B % 8 == 2 else 0))
    for B in (1, 8, 16, 17, 24, 33, 48, 64, 65, 100, 129, 131072):
        for lv in range(10):
            u.append(("flat", "wide", B, lv, 4 if th else 3))
    for z in ZONES:
        for B in (1, 40, 131072):
            u.append(("clock", B, z, 5 if th else 4))
        u.append(("starts", z))
    for B in (16, 100, 131072):
        u.append(("types", B))
    u += [("many", 70000, 131072, 0), ("many", 66000, 64, 0), ("many", 66000, 5000, 6), ("enum",)]
    u += [("huge", (1 << 25) + 5, 130, 1 << 25, 0), ("huge", (1 << 26) + 2, 65, 1 << 26, 1)]
    return sorted(u, key=lambda x: x[0] not in ("many", "huge"))


def run_unit(u, ctx):
    if u[0] == "closure":
        hist.closure(ctx, case_state, *u[1:])
    elif u[0] == "flat":
        for h in hist.sequences(8, u[4]):
            ctx.do(case, u[1], u[2], u[3], h, env.T0, (), "UTC")
            ctx.trans("flat", h, *u[1:4])
    elif u[0] == "clock":
        _, B, z, depth = u
        for st in hist.sequences(len(STEPS), depth):
            steps = tuple(STEPS[i] for i in st)
            ctx.do(case, "trio", B, 0, tuple(i % 3 for i in range(max(0, len(st) - 1))), env.T0, steps, z)
            ctx.trans("clock", *st)
    elif u[0] == "starts":
        for s in STARTS:
            for n in range(3):
                for st in STEPS:
                    ctx.do(case, "trio", 64, 0, tuple(range(n)), s, (st, st, st), u[1])
                    ctx.trans("start", s, n, st)
    elif u[0] == "types":
        n = len(hist.alpha("all")[0])
        for h in hist.sequences(n, 2):
            ctx.do(case, "all", u[1], 0, h, env.T0, (0.5,), "UTC")
            ctx.trans("types", *h)
    elif u[0] == "huge":
        ctx.cpu_seconds = 300
        ctx.do(case_huge, *u[1:])
    elif u[0] == "many":
        ctx.do(case_many, *u[1:])
    else:
        for m in ("", "NONE", "SPEED", "DEFAULT", "MAX"):
            for h in hist.sequences(3, 3):
                ctx.do(case_enum, m, h)
    ctx.count("traces_validated_against_impl", ctx.n)


_ = Violation
