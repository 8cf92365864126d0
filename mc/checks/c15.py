"""C15: isolation under all interleavings (threads under a controlled scheduler; interleaved operations; aliasing)."""
import io
import struct
from itertools import combinations, product

from mc import blf, env, hist, layout, objs
from mc.checks.c28 import NAMES, decode, different, get, leaves, put, raw_of
from mc.core import Violation, require
from mc.env import CLOCK
from mc.layout import SPECS, attr
from mc.sched import Run

PROP = "C15"
LEVEL = "model_checking"
RULE = ("A case is one schedule of 2-3 real threads running library code (context switches at the given scheduling points), one interleaving of "
        "whole operations of several readers/writers/objects, or one change of an attribute at one point; all results are compared with the "
        "reference codec and the sequential run. Non-trivial = distinct (scenario, schedule) or (object, attribute). A state is the vector of "
        "the threads' program positions (or operation counts), a transition a step of one of them.")
BOUNDS = {
    "quick": "threads, source-line points: decode+compare+encode of two different objects of each of 28 classes, of every pair of classes, encode/encode and "
             "encode/read of one shared object, headers and sub-records, constructors, calendar conversion, enum members - all schedules "
             "with up to 2 preemptions (class pairs: 1); two writers, two readers, reader+writer - up to 2 preemptions; the single-object scenarios at bytecode "
             "granularity with 1 preemption; all 34,650 operation interleavings of 2 writers and a reader and of 3 readers; every attribute of every "
             "class changed after write / after being returned, objects of 16 to 140,001 bytes changed after write; equal objects from 8 sources, every attribute of one of them changed; byte strings of every length up to the field's before and after "
             "encoding, writing, comparing",
    "thorough": "bytecode granularity with 2 preemptions for single-object scenarios, 1 for readers/writers; 3 threads with 2 preemptions; line granularity "
                "with 3 preemptions for single objects",
}
ASSUMPTIONS = ["threads switch only between bytecode instructions (CPython with the GIL)", "one reader/writer instance is used by one thread only"]


# ---------------------------------------------------------------- threads
def check_obj(spec, o, raw, packed):
    want = layout.expected(spec, raw)
    for p in layout.paths(spec):
        v = attr(o, p)
        require(v == want[p] or (v != v and want[p] != want[p]), spec.name, p, "is", repr(v)[:80], "instead of", repr(want[p])[:80])
    require(packed == raw, spec.name, "encodes", packed[:200].hex(), "instead of", raw[:200].hex())


LOG_OBJS = ("tiny", "typed", "trio")


def body(desc, shared):
    """A thread's function for a description; it returns a function that judges its result."""
    kind = desc[0]
    if kind == "obj":
        spec = SPECS[desc[1]]
        raw = objs.sample_bytes(desc[1], desc[2])
        cls = objs.cls_of(spec)

        def f():
            o = cls.unpack(raw)
            return o, o.pack()
        return f, lambda r: check_obj(spec, r[0], raw, r[1])
    if kind in ("pack", "read", "eq"):
        spec = SPECS[desc[1]]
        raw = objs.sample_bytes(desc[1], 0)
        key = ("o", desc[1])
        if key not in shared:
            shared[key] = objs.cls_of(spec).unpack(raw)
        o = shared[key]
        if kind == "pack":
            return o.pack, lambda r: check_obj(spec, o, raw, r)
        if kind == "read":
            ps = layout.paths(spec)

            def f():
                repr(o)
                return {p: attr(o, p) for p in ps}

            def judge(r):
                want = layout.expected(spec, raw)
                for p in ps:
                    require(r[p] == want[p], spec.name, p, "is", repr(r[p])[:80], "instead of", repr(want[p])[:80])
            return f, judge
        other = objs.cls_of(spec).unpack(raw)
        return (lambda: o == other), lambda r: require(r is True, "equality is", r)
    if kind == "writer":
        aname, B, level = desc[1:]
        raws, obs = hist.alpha(aname)
        sink = blf.Sink()

        def f():
            w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
            for o in obs:
                w.write(o)
            w.close()
            return sink.final

        def judge(r):
            require(r == sequential(desc), "file differs from the sequential run's")
            blf.same_objects(blf.read_all(r), raws)
        return f, judge
    if kind == "reader":
        aname, B, level = desc[1:]
        raws, _ = hist.alpha(aname)
        data = sequential(("writer",) + tuple(desc[1:]))

        def f():
            with env.BlfReader(io.BytesIO(data)) as r:
                return list(r), r.file_statistics
        def judge(r):
            blf.same_objects(r[0], raws)
            require(r[1].object_count == len(raws) and r[1].pack() == data[:144], "file header")
        return f, judge
    if kind == "new":
        return new_body(desc[1], desc[2])
    if kind == "header":
        cls = getattr(env.general, desc[1])
        raw = objs.sample_bytes("FunctionBus", desc[2])[:cls.SIZE]

        def f():
            h = cls.unpack(raw)
            g = cls.unpack_from(b"\xaa" * 7 + raw, 7)
            buf = bytearray(cls.SIZE + 3)
            g.pack_into(buf, 2)
            return h.pack(), bytes(buf), h == g
        return f, lambda r: require(r == (raw, b"\0\0" + raw + b"\0", True), desc, r)
    if kind == "time":
        d = env.real_datetime(2024, 2, 29, 1 + desc[1], 2, 3, 456000 + desc[1] * 1000)

        def f():
            s = env.general.SystemTime.from_datetime(d)
            return s.to_datetime(), s.pack(), env.general.SystemTime.unpack(s.pack()) == s

        def judge(r):
            want = struct.pack("<8H", 2024, 2, (d.weekday() + 1) % 7, 29, 1 + desc[1], 2, 3, 456 + desc[1])
            require(r[0].replace(tzinfo=None) == d and r[1] == want and r[2], desc, r)
        return f, judge
    if kind == "flags":
        v = shared.setdefault("flag", next_flag())
        K = env.constants

        def f():
            return K.ObjFlags(v), K.CanFdFlags(v), K.ObjFlags(v) | 1
        return f, lambda r: require([int(x) for x in r] == [v, v, v | 1] and isinstance(r[0], K.ObjFlags), desc, r)
    raise KeyError(kind)


_FLAG = [0x40000]


def next_flag():
    _FLAG[0] += 2
    return _FLAG[0]


def new_body(name, k):
    K = env.constants
    cls = getattr(env.can, name)
    data = bytes([k + 1] * 7)
    kw = dict(object_flags=K.ObjFlags.TIME_ONE_NANS, object_time_stamp=1000 + k, channel=1 + k, flags=k, dlc=8, frame_id=0x100 + k, data=data)
    if name == "CanMessage2":
        kw.update(frame_length=7 + k, bit_count=9 + k)
    if name == "CanFdMessage":
        kw.update(frame_length=7 + k, arb_bit_count=9 + k, canfd_flags=K.CanFdFlags(1))
    spec = SPECS[name]
    vals = {p: v for p, v in kw.items() if p not in ("object_flags", "object_time_stamp")}
    n = {"data": layout.width(spec.fmt["data"])}["data"]
    vals.update({"header.object_flags": 2, "header.object_time_stamp": 1000 + k, "data": data.ljust(n, b"\0")})
    if name == "CanFdMessage":
        vals["valid_data_bytes"] = 7
    raw = layout.encode(spec, vals)

    def f():
        o = cls.new(**kw)
        return o.pack(), o
    return f, lambda r: require(r[0] == raw and r[1].pack() == raw, name, k, r[0].hex(), raw.hex())


_SEQ = {}


def sequential(desc):
    if desc not in _SEQ:
        CLOCK.reset()
        _, aname, B, level = desc
        _SEQ[desc] = blf.write_log(hist.alpha(aname)[1], B, level).final
    return _SEQ[desc]


def case_threads(bodies, plan, mode):
    return run_plan(bodies, plan, mode)[0]


def run_plan(bodies, plan, mode):
    shared = {}
    CLOCK.reset()
    made = [body(d, shared) for d in bodies]
    r = Run([f for f, _ in made], plan, mode)
    for res, (_, judge) in zip(r.run(), made):
        judge(res)
    return hash((bodies, plan, mode)), tuple(r.steps), r.blocked


def explore(ctx, bodies, bound, mode, part=0, parts=1):
    """All schedules with at most `bound` preemptions (segments of any length, alternating)."""
    n = len(bodies)
    for b in range(2):  # warm caches that live for the whole process
        steps = run_plan(bodies, (), mode)[1]
    lens = [s + 1 for s in steps]  # the last value: the thread runs to its end
    blocked = 0

    def plans(prefix, last, left):
        yield prefix
        if left == 0:
            return
        for t in range(n):
            if t == last:
                continue
            used = sum(s for i, s in prefix if i == t)
            for k in range(1, lens[t] - used):
                yield from plans(prefix + ((t, k),), t, left - 1)

    for i, plan in enumerate(plans((), None, bound)):
        if i % parts != part:
            continue
        ctx.do(case_threads, bodies, plan, mode)
        pos = [0] * n
        for t, k in plan:
            frm = tuple(pos)
            pos[t] += k
            ctx.trans(bodies, mode, frm, t, k)
            ctx.state(bodies, mode, tuple(pos))
        ctx.count("schedules")
    _ = blocked


# ---------------------------------------------------------------- whole operations
class Agent:
    def __init__(self, kind, aname, B, level):
        self.raws, self.objs = hist.alpha(aname)
        self.kind, self.desc = kind, (aname, B, level)
        self.i = 0
        if kind == "w":
            self.sink = blf.Sink()
            self.w = env.BlfWriter(self.sink, compression_level=level, buffer_size=B)
        else:
            self.r = env.BlfReader(io.BytesIO(sequential(("writer", aname, B, level))))
            self.got = []

    def steps(self):
        return len(self.raws) + 1

    def step(self):
        if self.kind == "w":
            if self.i < len(self.objs):
                self.w.write(self.objs[self.i])
            else:
                self.w.close()
        else:
            o = self.r.read_object()
            if self.i < len(self.raws):
                require(o is not None and o.pack() == self.raws[self.i], "object", self.i)
                self.got.append(o)
            else:
                require(o is None, "object after the end")
        self.i += 1

    def finish(self):
        if self.kind == "w":
            require(self.sink.final == sequential(("writer",) + self.desc), "interleaved writer's file differs")
        else:
            blf.same_objects(self.got, self.raws, "kept")


def case_ops(agents, order):
    CLOCK.reset()
    ags = [Agent(*a) for a in agents]
    for t in order:
        ags[t].step()
    for a in ags:
        a.finish()
    return hash((agents, order))


def orders(counts):
    """All interleavings."""
    if not any(counts):
        yield ()
        return
    for t, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[t] -= 1
            for o in orders(rest):
                yield (t,) + o


AGENTS = [
    (("w", "trio", 40, 0), ("w", "trio", 24, 6), ("r", "trio", 33, 0)),
    (("r", "trio", 40, 6), ("r", "trio", 40, 6), ("w", "trio", 1000, 0)),
    (("r", "trio", 33, 0), ("r", "trio", 24, 0), ("r", "trio", 24, 9)),
]


# ---------------------------------------------------------------- aliasing
def set_attr(o, path, value):
    """Changes an attribute (path as in layout); False if the object does not allow that."""
    holder = o
    parts = path.split(".")
    for p in parts[:-1]:
        holder = getattr(holder, p)
    name = parts[-1]
    if name.endswith("]"):
        name, _, i = name[:-1].rpartition("[")
        seq = list(getattr(holder, name))
        seq[int(i)] = value
        value = tuple(seq)
    try:
        setattr(holder, name, value)
    except AttributeError:
        return False
    return True


def other_value(v):
    if isinstance(v, (bytes, bytearray)):
        return bytes(b ^ 0xFF for b in v) or b"x"
    if isinstance(v, str):
        return v[::-1] + "!"
    if isinstance(v, float):
        return v + 1
    return int(v) ^ 1


def case_change_after_write(name, path, B, level, when, n=None):
    """Writes a, o, b; changes an attribute of o after the write, after the next write or after close.
    n: the length of the object's (first) variable part, or the size of an opaque object."""
    if name in SPECS:
        raw = objs.sample_bytes(name, 0, None if n is None else (n,) + (3,) * (len(SPECS[name].parts) - 1))
    else:
        raw = objs.opaque_bytes(n, b"x\x01")
    o = objs.from_bytes(raw)
    a, b = objs.opaque_bytes(17), objs.sample_bytes("CanErrorFrame")
    sink = blf.Sink()
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    w.write(objs.from_bytes(a))
    w.write(o)
    if when == 0:
        set_attr(o, path, other_value(attr(o, path)))
    w.write(objs.from_bytes(b))
    if when == 1:
        set_attr(o, path, other_value(attr(o, path)))
    w.close()
    if when == 2:
        set_attr(o, path, other_value(attr(o, path)))
    blf.same_objects(blf.read_all(sink.final), [a, raw, b], "after changing %s" % path)
    return (name, path, B, level, when, n)


def snapshot(spec, o):
    return [repr(attr(o, p)) for p in layout.paths(spec)], repr(o)


def case_write_keeps(name, k, B, level):
    spec = SPECS[name]
    o = objs.sample(name, k)
    before = snapshot(spec, o)
    sink = blf.Sink()
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    for _ in range(3):
        w.write(o)
        require(snapshot(spec, o) == before, name, "was changed by writing it")
    w.close()
    require(snapshot(spec, o) == before, name, "was changed by close()")
    return (name, k, B, level)


def case_write_keeps_short(name, path, n, how, B):
    """A byte string shorter than its field: encoding and writing leave the attribute as it is."""
    spec = SPECS[name]
    o = objs.sample(name, 1)
    value = objs.pattern(n, 0x81, 5)
    if not set_attr(o, path, value):
        return None
    before = snapshot(spec, o)
    try:
        if how == "write":
            w = env.BlfWriter(blf.Sink(), buffer_size=B)
            w.write(o)
            require(snapshot(spec, o) == before, name, "was changed by writing it")
            w.close()
        elif how == "pack":
            require(o.pack() == o.pack(), name, "encodes differently the second time")
        else:
            require(o == o and repr(o) == repr(o), name, "equality, text form")
    except (ValueError, struct.error):
        pass  # need not be accepted
    require(snapshot(spec, o) == before and attr(o, path) == value, name, path, "was changed by", how)
    return (name, path, n, how, B)


def case_mutable_input(name, part, B):
    """The data of an object is a bytearray the caller reuses after the write."""
    spec = SPECS[name]
    raw = objs.sample_bytes(name)
    o = objs.cls_of(spec).unpack(raw)
    buf = bytearray(attr(o, part))
    if not set_attr(o, part, buf):
        return None
    try:
        sink = blf.Sink()
        w = env.BlfWriter(sink, buffer_size=B)
        w.write(o)
    except (TypeError, ValueError):
        return None  # mutable input need not be accepted
    for i in range(len(buf)):
        buf[i] ^= 0xFF
    w.close()
    blf.same_objects(blf.read_all(sink.final), [raw], "reused buffer")
    return (name, part, B)


def case_decode_mutable(name, k):
    """Decoding from a bytearray that is reused afterwards."""
    spec = SPECS[name]
    raw = objs.sample_bytes(name, k)
    buf = bytearray(raw)
    o = objs.cls_of(spec).unpack(bytes(buf))
    buf[:] = bytes(len(buf))
    check_obj(spec, o, raw, o.pack())
    return (name, k)


def case_returned(aname, B, level, upto):
    """Objects returned so far stay as they were while reading on; changing one changes no other."""
    raws, _ = hist.alpha(aname)
    data = sequential(("writer", aname, B, level))
    r = env.BlfReader(io.BytesIO(data))
    got = []
    reprs = []
    for i in range(len(raws)):
        o = r.read_object()
        got.append(o)
        reprs.append(repr(o))
        for j, g in enumerate(got):
            require(repr(g) == reprs[j] and g.pack() == raws[j], "object", j, "changed when object", i, "was read")
        if i == upto:
            spec = layout.BY_TYPE.get(layout.peek(raws[i], 12, "I"))
            paths = layout.paths(spec) if spec else ["header.base.object_type", "header.base.header_version"]
            for p in paths:
                try:
                    set_attr(o, p, other_value(attr(o, p)))
                except (TypeError, ValueError):
                    pass
            got[i] = env.general.NotImplementedObject.unpack(raws[i])
            reprs[i] = repr(got[i])
    require(r.read_object() is None, "end")
    again = blf.read_all(data)
    blf.same_objects(again, raws, "second reader")
    return (aname, B, level, upto)


def twins(name, k, source):
    """Two or more objects made from the same bytes, one at a time."""
    raw = raw_of(name, k)
    if source == "unpack":
        while True:
            yield decode(name, raw)
    if name == "FileStatistics":
        while True:
            yield env.BlfReader(io.BytesIO(raw)).file_statistics
    level = 6 if source.endswith("z") else 0
    if source[0] == "1":  # one container each
        body = b"".join(blf.pad(blf.container(blf.pad(raw, 8), level), 8) for _ in range(5))
    elif source[0] == "b":
        body = blf.pad(raw, 8) * 5
    else:
        body = blf.pad(blf.container(blf.pad(raw, 8) * 5, level), 8)
    data = blf.file_header(level) + body
    if source[0] == "n":  # several readers
        rs = [env.BlfReader(io.BytesIO(data)) for _ in range(3)]
        for i in range(15):
            yield rs[i % 3].read_object()
    else:
        yield from env.BlfReader(io.BytesIO(data))


def case_twins(name, k, source):
    """Equal objects are not one: what is done to one of them shows in no other, whether made before or after the change."""
    raw = raw_of(name, k)
    want = decode(name, raw)
    seq = twins(name, k, source)
    older = next(seq)
    o = next(seq)
    require(older is not o, "one object is returned twice")
    for p in reversed(list(leaves(o))):
        put(o, p, different(get(o, p)))
        require(older.pack() == raw and older == want, name, source, ": changing", ".".join(p), "of one object changes another")
    for newer in (next(seq), next(seq)):
        require(newer.pack() == raw and newer == want, name, source, ": the changes of one object show in the next")
    require(decode(name, raw).pack() == raw, name, ": the changes of one object show in the next decoded one")
    return (name, k, source)


LARGE = [("opaque", "buffer"), ("opaque", "header.base.object_type"), ("AppText", "text"), ("AppText", "header.object_time_stamp"), ("EventComment", "text"),
         ("SystemVariable", "name"), ("EnvironmentVariable", "name"), ("FunctionBus", "name"), ("GlobalMarker", "group_name"),
         ("EthernetFrameEx", "frame_data"), ("TriggerCondition", "trigger_condition"), ("FunctionBus", "data"), ("SystemVariable", "data")]
# ---------------------------------------------------------------- units
WR = [(("writer", "pair", 24, 0), ("writer", "trio", 40, 6)), (("reader", "pair", 24, 0), ("reader", "pair", 33, 6)),
      (("reader", "pair", 24, 6), ("writer", "pair", 24, 0)), (("reader", "pair", 1000, 6), ("reader", "pair", 24, 6)),
      (("reader", "pair", 24, 0), ("obj", "AppText", 0)), (("writer", "pair", 24, 6), ("pack", "CanMessage"))]
WR_LARGE = [(("writer", "trio", 40, 0), ("writer", "tiny", 24, 0)), (("reader", "trio", 40, 0), ("reader", "typed", 40, 6)),
            (("reader", "typed", 33, 0), ("writer", "trio", 33, 6)), (("reader", "trio", 24, 6), ("reader", "trio", 24, 6)),
            (("writer", "typed", 64, 9), ("writer", "typed", 64, 9))]
FLAGS = (("flags",), ("flags",))
MISC = [(("header", h, 0), ("header", h, 1)) for h in ("ObjectHeaderBase", "ObjectHeader", "VarObjectHeader")] + [
    (("header", "ObjectHeader", 0), ("header", "VarObjectHeader", 1)), (("time", 0), ("time", 1)),
] + [(("new", n, 0), ("new", n, 1)) for n in ("CanMessage", "CanMessage2", "CanFdMessage")] + [
    (("new", "CanMessage", 0), ("new", "CanFdMessage", 1))]


def single(name):
    out = [(("obj", name, 0), ("obj", name, 1))]
    for x in ("pack", "read", "eq", ):
        out.append((("pack", name), (x, name)))
    return out


def units(tier):
    th = tier == "thorough"
    u = []
    for b in WR:
        u += [("threads", b, 2, "stmt", p, 16) for p in range(16)]
        u += [("threads", b, 1, "opcode", p, 4) for p in range(4)]
    for b in WR_LARGE:
        u += [("threads", b, 2 if th else 1, "stmt", p, 32 if th else 1) for p in range(32 if th else 1)]
        u += [("threads", b, 1, "opcode", p, 8) for p in range(8 if th else 1)]
    u += [("threads", FLAGS, 2, "stmtx", 0, 1)] + [("threads", FLAGS, 2 if th else 1, "opcodex", 0, 1)]
    for name in SPECS:
        for b in single(name):
            u.append(("threads", b, 3 if th and name not in ("LinMessage2", "GlobalMarker") else 2, "stmt", 0, 1))
            if th:
                u += [("threads", b, 2, "opcode", p, 8) for p in range(8)]
            else:
                u.append(("threads", b, 1, "opcode", 0, 1))
    for b in MISC:
        u.append(("threads", b, 2, "stmt", 0, 1))
        u += [("threads", b, 2 if th else 1, "opcode", 0, 1)]
    names = sorted(SPECS)
    for i, a in enumerate(names):
        u.append(("pairs", a, names[i + 1:]))
        if th:
            u.append(("threads", (("obj", a, 0), ("obj", a, 1), ("obj", names[(i + 9) % len(names)], 0)), 2, "stmt", 0, 1))
    for k in range(len(AGENTS)):
        for first in product(range(3), repeat=2):
            u.append(("ops", k, first))
    for name in SPECS:
        u.append(("alias", name))
        u.append(("alias2", name))
    u += [("large", p) for p in range(8)]
    u += [("twins", name) for name in NAMES]
    u.append(("returned",))
    return u


def run_unit(u, ctx):
    if u[0] == "threads":
        explore(ctx, u[1], u[2], u[3], u[4], u[5])
    elif u[0] == "pairs":
        for other in u[2]:
            explore(ctx, (("obj", u[1], 0), ("obj", other, 0)), 1, "stmt")
    elif u[0] == "ops":
        agents = AGENTS[u[1]]
        raw_counts = [4, 4, 4]
        counts = list(raw_counts)
        for t in u[2]:
            counts[t] -= 1
        for rest in orders(counts):
            order = tuple(u[2]) + rest
            ctx.do(case_ops, agents, order)
            pos = [0, 0, 0]
            for t in order:
                frm = tuple(pos)
                pos[t] += 1
                ctx.trans(u[1], frm, t)
                ctx.state(u[1], tuple(pos))
    elif u[0] == "alias":
        name = u[1]
        spec = SPECS[name]
        for path in layout.paths(spec):
            for when in range(3):
                for B, level in ((1, 0), (48, 0), (131072, 6)):
                    ctx.do(case_change_after_write, name, path, B, level, when)
        for k in range(4):
            ctx.do(case_decode_mutable, name, k)
            for B, level in ((1, 0), (48, 6), (131072, 0)):
                ctx.do(case_write_keeps, name, k, B, level)
        for a, _, kind in spec.parts:
            if kind in ("bytes", "fd64"):
                for B in (1, 48, 131072):
                    ctx.do(case_mutable_input, name, a, B)
        for off, fmt, p in spec.fields:
            if fmt[-1] == "s":
                for B in (1, 48, 131072):
                    ctx.do(case_mutable_input, name, p, B)
    elif u[0] == "alias2":
        name = u[1]
        spec = SPECS[name]
        for path, full in [(a, 70) for a, _, kind in spec.parts if kind in ("bytes", "fd64")] + [
                (p, layout.width(fmt)) for _, fmt, p in spec.fields if fmt[-1] == "s"]:
            for n in range(full + 1):
                for how in ("write", "pack", "eq"):
                    for B in (1, 131072) if how == "write" else (0,):
                        ctx.do(case_write_keeps_short, name, path, n, how, B)
    elif u[0] == "twins":
        for k in range(3):
            for source in ("unpack", "container", "containerz", "1", "1z", "b", "n", "nz"):
                if u[1] != "LogContainer" or source == "unpack":
                    ctx.do(case_twins, u[1], k, source)
    elif u[0] == "large":
        i = 0
        for n in (16, 32, 64, 65, 200, 600, 1030, 5000, 70000, 140001):
            for name, path in LARGE:
                for when in range(3):
                    for B, level in ((1, 0), (48, 6), (1000, 0), (131072, 0), (131072, 6)):
                        i += 1
                        if i % 8 == u[1] and B * 5000 > n and not (name == "EthernetFrameEx" and n > 65535):
                            ctx.do(case_change_after_write, name, path, B, level, when, n)
    else:
        for aname in ("tiny", "typed", "wide", "trio", "all"):
            for B in (24, 33, 131072):
                for level in (0, 6):
                    for upto in range(len(hist.alpha(aname)[0]) if aname != "all" else 12):
                        ctx.do(case_returned, aname, B, level, upto)
    ctx.count("traces_validated_against_impl", ctx.n)


_ = (Violation, combinations)
