"""C34: interrupts (exceptions of signal handlers) at every point of the library's execution."""
import gc
import io
import os
from itertools import combinations

from mc import blf, env, layout, objs
from mc.checks import c33
from mc.core import Violation, require, scratch
from mc.env import CLOCK
from mc.interrupt import Interrupter

PROP = "C34"
LEVEL = "fault_enumeration"
RULE = ("A case is one history of calls and a set of points of the library's execution (function starts, backward jumps, ends of calls: where the interpreter delivers signals) at which an exception is raised; it must "
        "reach the caller, and the finished log (or what is read, encoded or decoded afterwards) is compared with the history. Non-trivial = distinct (history, points, results) in which an interrupt was delivered.")
BOUNDS = {
    "quick": "18 write histories (buffers 8 to 1000, levels 0 and 6, objects of all kinds) x every point x 4 ways to go on (close at once, x 5 kinds of exception; write on, repeat, leave the with-block, x 2 kinds); all pairs of points in 3 histories; 22 logs x every point of reading and of leaving the with-block x 4 ways to "
             "consume (2 kinds); encoding (unchanged, and with texts, data and lists shorter, longer or of other types than declared), decoding, comparing of all 28 types and headers x every point; opening by path and file x every point",
    "thorough": "all pairs of points in 10 histories and all ways, all triples in a short one",
}
ASSUMPTIONS = ["exceptions arrive where CPython 3.12 delivers them: when a function starts or a generator continues, on backward jumps, after calls; file operations that fail at any time are decided by C08 and C33",
               "close is repeated until it returns; what an interrupted write counts in the header is left open"]


class Alarm(Exception):
    """What a signal handler of a program may raise."""


class Base(BaseException):
    pass


KINDS = {"ctrl": KeyboardInterrupt, "timeout": TimeoutError, "exit": SystemExit, "alarm": Alarm, "base": Base}


def big(n, f=b"\x01"):
    return objs.opaque_bytes(n, f)


def histories():
    ob, sm = objs.opaque_bytes, objs.sample_bytes
    small = [ob(16), ob(21, b"LOBJ"), ob(40, b"x"), sm("CanMessage"), sm("AppText", 0, (5,)), sm("GlobalMarker", 0, (3, 0, 4))]
    return {
        "one": ([ob(16)], 1000), "none": ([], 64), "split": ([ob(90, b"q"), ob(17)], 32), "exact": ([ob(32, b"1"), ob(32, b"2"), ob(16)], 32),
        "small": (small, 64), "late": (small, 1000), "tiny": ([ob(24), ob(19)], 8), "all": ([sm(n) for n in list(objs.SPECS)[:14]], 256),
        "rest": ([sm(n) for n in list(objs.SPECS)[14:]], 256),
    }


def calls(way, w, done, tries, obs):
    """One call after the other: yields (function, what it means)."""
    i = 0
    while i < len(obs):
        before = tries.get(i, 0)
        tries[i] = before + 1
        yield (lambda o=obs[i]: w.write(o)), i
        if done.get(i) or way == "on":
            i += 1
        elif way in ("close", "leave"):
            break
    n = 0
    while not done.get("close"):
        n += 1
        require(n <= 50, "close() never returns")
        # leaving the with-block closes as well, after an exception of the block, too
        yield (w.close if way != "leave" else (lambda: w.__exit__(None, None, None)) if n % 2 else (lambda: w.__exit__(KeyError, KeyError(), None))), "close"


def run(name, level, way, plan):
    """(file, completed writes, attempts, interrupts, points). Every interrupt must come out of the call it is delivered in."""
    raws, B = histories()[name]
    obs = [objs.from_bytes(r) for r in raws]
    CLOCK.reset()
    sink = blf.Sink()
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    it = Interrupter(plan)
    done, tries, hits = {}, {}, 0
    for f, what in calls(way, w, done, tries, obs):
        _, e, raised = it.run(f)
        hits += raised is not None
        if e is not raised:
            raise Violation("%s: %r was delivered, the caller got %r" % (what, raised, e))
        done[what] = e is None
    for o, r in zip(obs, raws):
        require(o.pack() == r, "an interrupted write changes the object", r[:40])
    require(sink.closed, "the file is open after close()")
    return sink.final, [i for i in range(len(raws)) if done.get(i)], tries, hits, it.n


def judge(name, level, data, done, tries, hits):
    raws, _ = histories()[name]
    got = [o.pack() for o in blf.iter_read(data, 1000)]
    cs, left = blf.parse_containers(data)
    require(not left, "an incomplete container", left[:40])
    flat, left = blf.split_objects(b"".join(blf.inflate(c, level) for c in cs))
    require(not left and flat == got, "the containers hold", [x[:20] for x in flat], "the reader returns", [x[:20] for x in got])
    k = extra = 0
    for i, r in enumerate(raws):
        n = 0
        while k < len(got) and got[k] == r and n < tries.get(i, 0):
            k += 1
            n += 1
        require(n >= (i in done), "object", i, "was written but is not in the log", [x[:20] for x in got])
        extra += n
    require(k == len(got), "the log holds an object that was not written then", got[k][:40] if k < len(got) else b"")
    h = {p: layout.peek(data, off, fmt) for off, fmt, p in layout.FILE_HEADER}
    require(h["file_size"] == len(data), "file_size", h["file_size"], "of", len(data))
    require(abs(h["object_count"] - len(got)) <= hits, "object_count", h["object_count"], "for", len(got), "objects and", hits, "interrupts")
    largest = max([len(r) for r in raws], default=0)
    require(abs(h["uncompressed_file_size"] - 144 - sum(map(len, got))) <= hits * largest, "uncompressed_file_size", h["uncompressed_file_size"])
    require(h["compression_level"] == level, "compression_level", h["compression_level"])
    return hash(data), extra


def case_write(name, level, way, points, kind):
    plan = {p: KINDS[kind] for p in points}
    data, done, tries, hits, n = run(name, level, way, plan)
    return (name, level, way, points, kind, judge(name, level, data, done, tries, hits)) if hits else None


def write_points(name, level, way="close"):
    return run(name, level, way, {})[4]


class Src(io.BytesIO):
    pass


def fetch_calls(how, r):
    """A function for one fetch; None: the end."""
    if how == "fetch":
        return r.read_object
    if how == "next":
        return lambda: next(r.__iter__(), None)
    if how == "for":
        def f():
            for o in r:
                return o
            return None
        return f
    it = []

    def g():
        if not it:
            it.append(iter(r))
        return next(it[0], None)
    return g


def read(data, how, plan):
    """(objects, points of interrupts among them, points)"""
    it = Interrupter(plan)
    got, hits = [], 0
    r = None
    while r is None:
        src = Src(data)
        r, e, raised = it.run(env.BlfReader, src)
        hits += raised is not None
        if e is not raised:
            raise Violation("opening: %r was delivered, the caller got %r" % (raised, e))
    f = fetch_calls(how, r)
    for _ in range(2000):
        o, e, raised = it.run(f)
        if e is not raised:
            raise Violation("%r was delivered, the caller got %r" % (raised, e))
        if raised is not None:
            hits += 1
            got.append(None)
        elif o is None:
            break
        else:
            got.append(o)
    else:
        raise Violation("the log does not end")
    while (o := r.read_object()) is not None:
        # an iteration (a generator, say) may be over after an interrupt, the reader need not be
        require(how == "iter" and hits, "an object after the end")
        got.append(o)
    left = False
    for _ in range(20):
        if left:
            break
        _, e, raised = it.run(r.__exit__, None, None, None)
        if e is not raised:
            raise Violation("leaving: %r was delivered, the caller got %r" % (raised, e))
        left = raised is None
        hits += not left
    require(left and src.closed, "the file is open after the with-block")
    return got, hits, it.n


def case_read(k, how, point, kind):
    data, raws = c33.logs()[k]
    plan = {point: KINDS[kind]}
    other = env.BlfReader(io.BytesIO(data))
    half = [other.read_object() for _ in range(len(raws) // 2)]
    got, hits, _ = read(data, how, plan)
    if not hits:
        return None
    at, hit = 0, False
    for o in got:
        if o is None:
            hit = True
            continue
        b = o.pack()
        while at < len(raws) and raws[at] != b:
            require(hit, "object", at, "is missing although no interrupt came before")
            at += 1
        require(at < len(raws), "an object that is not in the log (or out of order)", b[:40])
        at += 1
    blf.same_objects(half + list(iter(other.read_object, None)), raws, "another reader:")
    blf.same_objects(blf.read_all(data), raws, "a new reader:")
    return (k, how, point, kind, len(got))


def samples():
    out = [objs.sample_bytes(n, k) for n in objs.SPECS for k in range(2)]
    return out + [objs.opaque_bytes(40)]


def edit(o, how):
    """Texts, data and lists that are shorter or longer than the object declares, numbers of other types."""
    for k, v in list(vars(o).items()):
        if k == "header":
            continue
        if isinstance(v, (str, bytes)):
            setattr(o, k, {"short": v[:-1], "empty": v[:0], "long": v + v[:1], "array": bytearray(v) if isinstance(v, bytes) else v + "\0"}[how])
        elif isinstance(v, list):
            setattr(o, k, tuple(v))
        elif isinstance(v, int) and how == "array":
            setattr(o, k, int(v))


def code(raw, what, plan):
    it = Interrupter(plan)
    o = objs.from_bytes(raw)
    if what.startswith("edit"):
        edit(o, what[4:])
        try:
            raw = o.pack()
        except Exception:  # noqa: BLE001 - such an object cannot be written: C06 decides what happens
            return 0, False
        seen = repr(o)
    if what == "pack" or what.startswith("edit"):
        f, want = o.pack, raw
    elif what == "unpack":
        def f():
            return type(o).unpack(raw).pack()
        want = raw
    elif what == "header":
        h = o.header

        def f():
            if not hasattr(type(h), "_FORMAT"):
                return h.base.pack()
            b = bytearray(64)
            h.pack_into(b, 5)
            return type(h).unpack_from(b, 5).pack()
        want = f()
    else:
        def f():
            return o == type(o).unpack(raw) and repr(o)
        want = repr(o)
    r, e, raised = it.run(f)
    if e is not raised:
        raise Violation("%r was delivered, the caller got %r" % (raised, e))
    require(raised is not None or r == want, "without an interrupt", r, "instead of", want)
    require(f() == want, what, "after an interrupt:", f(), "instead of", want)
    require(o.pack() == raw and (not what.startswith("edit") or repr(o) == seen), "the object has changed", o)
    return it.n, raised is not None


def case_code(j, what, point, kind):
    raw = samples()[j]
    n, hit = code(raw, what, {point: KINDS[kind]})
    return (raw, what, point, kind) if hit else None


def fds():
    return set(os.listdir("/proc/self/fd"))


def opening(how, plan):
    path = os.path.join(scratch(), "c34.blf")
    data = blf.file_header(0) + blf.container(big(24))
    with open(path, "wb") as f:
        f.write(data)
    before = fds()
    it = Interrupter(plan)
    arg = {"rpath": path, "wpath": path, "rfile": io.BytesIO(data), "wfile": blf.Sink()}[how]
    x, e, raised = it.run(env.BlfReader if how[0] == "r" else env.BlfWriter, arg)
    if e is not raised:
        raise Violation("%r was delivered, the caller got %r" % (raised, e))
    if raised is not None:
        raised.__traceback__ = None
        it.raised = e = None
        gc.collect()
        if how.endswith("path"):
            require(fds() == before, "an interrupted opening keeps a file open")
        else:
            require(not arg.closed, "an interrupted opening closes the file it was given")
        if how[0] == "r":
            if how == "rpath":
                with open(path, "rb") as f:
                    require(f.read() == data, "an interrupted opening changes the file")
            else:
                arg.seek(0)
                require(arg.read() == data, "an interrupted opening changes the file")
    else:
        x.__exit__(None, None, None)
    # everything works as before
    with env.BlfWriter(path) as w:
        w.write(objs.from_bytes(big(24)))
    with env.BlfReader(path) as r:
        blf.same_objects(list(r), [big(24)])
    return it.n, raised is not None


def case_open(how, point, kind):
    _, hit = opening(how, {point: KINDS[kind]})
    return (how, point, kind) if hit else None


WAYS = ("close", "on", "again", "leave")


def units(tier):
    th = tier == "thorough"
    u = [("write", name, level, way) for name in histories() for level in (0, 6) for way in WAYS]
    u += [("pairs", name, level, ways, h) for name, ways in (("one", 3), ("exact", 3 if th else 1), ("split", 3 if th else 1), ("tiny", 3 if th else 0), ("none", 3 if th else 0)) if ways
          for level in ((0, 6) if th else (0,)) for h in range(16)]
    u += [("triples", "one", h) for h in range(16)] if th else []
    u += [("read", k, how) for k in range(len(c33.logs())) for how in ("fetch", "next", "for", "iter")]
    u += [("code", what, h) for what in ("pack", "editshort", "editempty", "editlong", "editarray", "unpack", "header", "values") for h in range(4)]
    return u + [("open", how) for how in ("rpath", "wpath", "rfile", "wfile")]


def run_unit(u, ctx):
    if u[0] == "write":
        n = write_points(*u[1:])
        for p in range(n + 1):
            for kind in KINDS if u[3] == "close" else ("ctrl", "timeout"):
                ctx.do(case_write, u[1], u[2], u[3], (p,), kind)
    elif u[0] == "pairs":
        n = write_points(u[1], u[2], "on") + 60  # what is repeated after an interrupt has points, too
        for way in ("on", "close", "again")[:u[3]]:
            for a in range(u[4], n, 16):
                for b in range(a + 1, n):
                    if ctx.do(case_write, u[1], u[2], way, (a, b), "ctrl") is None:
                        break
    elif u[0] == "triples":
        n = write_points(u[1], 0, "on") + 60
        for a, b, c in combinations(range(n), 3):
            if a % 16 == u[2]:
                ctx.do(case_write, u[1], 0, "on", (a, b, c), "ctrl")
    elif u[0] == "read":
        data, _ = c33.logs()[u[1]]
        n = read(data, u[2], {})[2]
        for p in range(n):
            for kind in ("ctrl", "timeout") if u[2] == "fetch" else ("ctrl",):
                ctx.do(case_read, u[1], u[2], p, kind)
    elif u[0] == "code":
        for j, raw in enumerate(samples()):
            if j % 4 == u[2]:
                n = code(raw, u[1], {})[0]
                for p in range(n):
                    for kind in KINDS:
                        ctx.do(case_code, j, u[1], p, kind)
    else:
        n = opening(u[1], {})[0]
        for p in range(n):
            for kind in KINDS:
                ctx.do(case_open, u[1], p, kind)
