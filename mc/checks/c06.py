"""C06: refused writes leave no trace."""
from collections import deque
from itertools import product

from mc import blf, env, hist, layout, objs
from mc.core import Violation, require
from mc.env import CLOCK
from mc.layout import SPECS

PROP = "C06"
LEVEL = "model_checking"
RULE = ("A case is one write history in which some write calls pass an object that cannot be represented; these calls must raise and the "
        "closed log must equal, object for object and in its header counts, the log of the other calls. Non-trivial = distinct "
        "(refused object, writer state).")
BOUNDS = {
    "quick": "every numeric field of every supported type x 6 values outside its range x 5 buffer sizes x 2 surroundings; 10 values of other types in (or nothing for) every numeric field, 8 in every part; 56 things that are no log objects; objects that give any of 5 things each time they are encoded (all sequences of up to 4); every declared size from 0 to "
             "actual+20 and 6 large ones for every type; every length field +-1..3 against its content; every character outside the encoding (all of the first 65,536, 1 of 16 blocks above) in every text part; closure over all writer states with 3 "
             "accepted and 5 refused kinds of object x buffers 1..64",
    "thorough": "closure with buffers 1..112, levels 0 and 6; all histories of length <=5",
}
ASSUMPTIONS = ["whether a declared size contradicts the serialised length is judged with the object's own pack()"]
RANGE = {"B": (0, 255), "H": (0, 65535), "I": (0, 2**32 - 1), "Q": (0, 2**64 - 1), "h": (-32768, 32767)}


class Header:
    """Reads the closed log's header."""

    def __init__(self, data):
        self.count = layout.peek(data, 32, "I")
        self.size = layout.peek(data, 24, "Q")
        self.last = data[56:72]
        self.file_size = layout.peek(data, 16, "Q")


def play(events, B, level):
    """events: (object, raw or None if it must be refused). Returns (sink, file length before close)."""
    CLOCK.reset()
    sink = blf.Sink()
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    for o, raw in events:
        CLOCK.step(1.0)
        if raw is not None:
            w.write(o)
            last = CLOCK.wall
            continue
        try:
            w.write(o)
        except Exception:
            continue
        raise Violation("a write that cannot be represented was accepted: %r" % (o,))
    pre = sink.getvalue()
    w.close()
    data = sink.final
    raws = [r for _, r in events if r is not None]
    blf.same_objects(blf.read_all(data), raws)
    h = Header(data)
    require(h.count == len(raws), "object_count", h.count, "instead of", len(raws))
    require(h.size == 144 + sum(map(len, raws)), "uncompressed_file_size", h.size, "instead of", 144 + sum(map(len, raws)))
    require(h.file_size == len(data), "file_size", h.file_size, "instead of", len(data))
    if raws:
        t = env.real_datetime.fromtimestamp(last, env.datetime.timezone.utc)
        v = [layout.peek(h.last, 2 * i, "H") for i in range(8)]
        require(abs((v[4] * 60 + v[5]) * 60 + v[6] + v[7] / 1000 - ((t.hour * 60 + t.minute) * 60 + t.second + t.microsecond / 1e6)) < 0.002,
                "last_object_time moved by a refused write:", v)
    return sink, pre


def around(bad, B, where, level=0):
    """The refused object in a history: between, before or after accepted ones."""
    a, b = objs.opaque_bytes(21, b"x"), objs.sample_bytes("CanErrorFrame")
    ev = [(objs.from_bytes(a), a), (objs.from_bytes(b), b)]
    bad = (bad, None)
    play({0: [ev[0], bad, ev[1]], 1: [bad] + ev + [bad, bad]}[where], B, level)


def set_attr(o, path, v):
    *head, last = path.split(".")
    for p in head:
        o = getattr(o, p)
    if last.endswith("]"):
        name, i = last[:-1].split("[")
        seq = list(getattr(o, name))
        seq[int(i)] = v
        setattr(o, name, type(getattr(o, name))(seq))
    else:
        setattr(o, last, v)


def outside(fmt):
    lo, hi = RANGE[fmt]
    return (hi + 1, hi + 2, 2 * hi + 1, lo - 1, 2**64, -(2**63) - 1)


def case_field(name, path, fmt, i, B, where):
    o = objs.sample(name)
    set_attr(o, path, outside(fmt)[i])
    around(o, B, where)
    return (name, path, i, B, where)


def contradicts(o):
    try:
        return len(o.pack()) != o.header.base.object_size
    except Exception:
        return True


def case_size(name, size, B, where):
    o = objs.opaque(29, b"abc") if name == "opaque" else objs.sample(name)
    o.header.base.object_size = size
    if not contradicts(o):
        return None
    around(o, B, where)
    return (name, size, B, where)


def case_length(name, field, delta, B, where):
    """A length field that does not fit its content, the declared size unchanged."""
    o = objs.sample(name, 0, (4,) * len(SPECS[name].parts))
    set_attr(o, field, getattr(o, field) + delta)
    if not contradicts(o):
        return None
    around(o, B, where)
    return (name, field, delta, B, where)


def case_content(name, attr, n, B, where):
    """Content longer or shorter than declared."""
    o = objs.sample(name, 0, (6,) * len(SPECS[name].parts))
    v = getattr(o, attr)
    setattr(o, attr, (v * 20)[:n])
    if not contradicts(o):
        return None
    around(o, B, where)
    return (name, attr, n, B, where)


def expressible(c, kind):
    if 0xD800 <= c < 0xE000:
        return 0xDC80 <= c < 0xDD00  # stands for one undecodable byte
    if kind == "utf8":
        return True
    try:
        chr(c).encode("cp1252")
    except UnicodeEncodeError:
        return False
    return True


def case_text(name, attr, start, delta, B):
    """Texts with characters the encoding of the part does not have, in 256 objects; all lengths declared `delta` longer."""
    spec = SPECS[name]
    lf, kind = next((lf, k) for a, lf, k in spec.parts if a == attr)
    bad = []
    for c in range(start, start + 256):
        if not expressible(c, kind):
            o = objs.sample(name, 0, (6,) * len(spec.parts))
            text = getattr(o, attr)
            i = c % max(len(text), 1)
            setattr(o, attr, text[:i] + chr(c) + text[i + 1:])
            if lf:
                setattr(o, lf, getattr(o, lf) + delta)
            o.header.base.object_size += delta
            bad.append((o, None))
    if not bad:
        return None
    a, b = objs.opaque_bytes(21, b"x"), objs.sample_bytes(name)
    play([(objs.from_bytes(a), a), *bad, (objs.from_bytes(b), b)], B, 0)
    return (name, attr, start, delta, B)


NOT_NUMBERS = (None, "7", b"7", 7.5, [7], (7,), {}, Ellipsis, 7j, len)


def case_kind(name, attr, i, B, where):
    """A value of another type where a number belongs, or a part that is missing (i = -1)."""
    o = objs.sample(name)
    if i < 0:
        *head, last = attr.split(".")
        p = o
        for x in head:
            p = getattr(p, x)
        delattr(p, last)
    else:
        set_attr(o, attr, NOT_NUMBERS[i])
    around(o, B, where)
    return (name, attr, i, B, where)


def case_part_kind(name, attr, kind, i, B, where):
    o = objs.sample(name, 0, (1,) * len(SPECS[name].parts))
    wrong = [None, 7, 7.5, [None], object(), b"x" if kind in layout.TEXT_CODEC else "x", ["x"], True]
    setattr(o, attr, wrong[i])
    around(o, B, where)
    return (name, attr, i, B, where)


class Fake:
    """Something that looks like an object of 24 bytes until its bytes are looked at."""

    def __init__(self, result, size=24):
        self.header = env.general.HeaderWithBase(env.general.ObjectHeaderBase(b"LOBJ", 16, 1, size, env.constants.ObjType.UNKNOWN))
        self.result = result

    def pack(self):
        if isinstance(self.result, type) and issubclass(self.result, BaseException):
            raise self.result("not now")
        return self.result


class Unsized(Fake):
    def __init__(self):
        super().__init__(objs.opaque_bytes(24))
        del self.header


def foreign():
    cm = objs.sample("CanMessage")
    out = [None, 7, "LOBJ" * 4, objs.opaque_bytes(24), bytearray(24), object(), Ellipsis, {}, [], [cm], (cm, cm), type(cm), cm.pack, cm.header, cm.header.base, NotImplemented, len]
    out += [Fake(r) for r in ("x" * 24, [256] * 24, [None] * 24, ["x"] * 24, {i: i for i in range(300, 324)}, None, 24, range(240, 264), {"x": 1}, iter(b"x" * 24), (-1,) * 24)]
    out += [Fake(e) for e in (ValueError, TypeError, KeyError, StopIteration, RuntimeError, OSError, MemoryError, RecursionError, UnicodeError, AttributeError, ZeroDivisionError, EOFError, NotImplementedError)]
    out += [Fake(b"LOBJ", n) for n in (None, "4", 5, 4.5, b"LOBJ", -4)] + [Unsized()]
    for path in ("header", "header.base"):
        for v in (None, 7, b"LOBJ", cm):
            o = objs.sample("AppText")
            set_attr(o, path, v)
            out.append(o)
    return out


def case_foreign(i, B, level, where):
    around(foreign()[i], B, where, level)
    return (i, B, level, where)


class Fickle(Fake):
    """Gives something else every time it is encoded."""

    def __init__(self, results):
        super().__init__(None)
        self.results = list(results)

    def pack(self):
        self.result = self.results.pop(0) if len(self.results) > 1 else self.results[0]
        return super().pack()


ANSWERS = (objs.opaque_bytes(24, b"one"), objs.opaque_bytes(24, b"two"), objs.opaque_bytes(24)[:20], objs.opaque_bytes(24) + b"tail", ValueError)


def case_fickle(answers, B, level):
    """Whatever an object gives when it is encoded again: it is in the log with bytes it gave and the size it declares, or refused without a trace."""
    a, b = objs.opaque_bytes(21, b"x"), objs.sample_bytes("CanErrorFrame")
    CLOCK.reset()
    sink = blf.Sink()
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    w.write(objs.from_bytes(a))
    slots = [{a}]
    for _ in range(2):
        try:
            w.write(Fickle([ANSWERS[i] for i in answers]))
        except Exception:  # noqa: S112
            continue
        slots.append({ANSWERS[i] for i in answers if i < 2})
    w.write(objs.from_bytes(b))
    slots.append({b})
    w.close()
    got = [o.pack() for o in blf.read_all(sink.final)]
    require(len(got) == len(slots) and all(g in s for g, s in zip(got, slots)), "read back", [g[:40] for g in got], "for", len(slots), "accepted objects")
    h = Header(sink.final)
    require(h.count == len(got), "object_count", h.count, "for", len(got), "objects")
    require(h.size == 144 + sum(map(len, got)), "uncompressed_file_size", h.size)
    return (answers, B, level)


def refused(i):
    if i == 0:
        o = objs.sample("CanMessage")
        o.channel = 65536
    elif i == 1:
        o = objs.opaque(40)
        o.header.base.object_size = 39
    elif i == 2:
        o = objs.sample("AppText", 0, (6,))
        o.text += "longer text"
    elif i == 3:
        o = objs.sample("GlobalMarker", 0, (2, 3, 4))
        o.marker_name = ""
    else:
        o = objs.sample("EthernetStatistic")
        o.sqi = 40000
    return o


NREF = 5


def case_hist(aname, B, level, h):
    raws, obs = hist.alpha(aname)
    ev = [(obs[e], raws[e]) if e < len(raws) else (refused(e - len(raws)), None) for e in h]
    sink, pre = play(ev, B, level)
    cs, left = blf.parse_containers(sink.final)
    total, n = b"", 0
    for c in cs:
        total += blf.inflate(c, level)
        if c.off + c.size <= len(pre):
            n = len(total)
    return (total[n:], blf.split_objects(total[:n])[1], len(pre) % 8)


def units(tier):
    th = tier == "thorough"
    u = [("fields", n) for n in SPECS] + [("sizes", n) for n in list(SPECS) + ["opaque"]]
    u += [("kinds", n) for n in SPECS] + [("foreign", where) for where in (0, 1)] + [("fickle",)]
    u += [("text", n, a, part) for n, sp in SPECS.items() for a, _, k in sp.parts if k in layout.TEXT_CODEC for part in range(2)]
    for B in range(1, (112 if th else 64) + 1):
        for lv in (0, 6) if th else ((6,) if B % 8 == 5 else (0,)):
            u.append(("closure", "trio", B, lv))
    for B in (1, 16, 33, 60, 131072):
        u.append(("flat", "pair", B, 0, 5 if th else 4))
    return u[::-1]


def run_unit(u, ctx):
    kind = u[0]
    if kind == "fields":
        spec = SPECS[u[1]]
        for _, fmt, path in spec.header + spec.fields:
            if fmt not in RANGE or path == "header.base.object_size":
                continue
            for i in range(6):
                for B in (1, 16, 24, 48, 131072):
                    for where in (0, 1):
                        ctx.do(case_field, u[1], path, fmt, i, B, where)
                        ctx.trans(kind, u[1], path, i, where)
    elif kind == "kinds":
        spec = SPECS[u[1]]
        for _, fmt, path in spec.header + spec.fields:
            if fmt in RANGE:
                for i in range(-1, len(NOT_NUMBERS)):
                    if i < 0 and path.endswith("]"):
                        continue
                    for B in (1, 24, 131072):
                        for where in (0, 1):
                            ctx.do(case_kind, u[1], path, i, B, where)
                            ctx.trans(kind, u[1], path, i, where)
        for a, _lf, k in spec.parts:
            for i in range(8):
                for B in (1, 24, 131072):
                    for where in (0, 1):
                        ctx.do(case_part_kind, u[1], a, k, i, B, where)
    elif kind == "fickle":
        for n in (1, 2, 3, 4):
            for answers in product(range(len(ANSWERS)), repeat=n):
                for B in (1, 24, 25, 48, 131072):
                    for level in (0, 6):
                        ctx.do(case_fickle, answers, B, level)
    elif kind == "foreign":
        for i in range(len(foreign())):
            for B in (1, 16, 24, 25, 48, 131072):
                for level in (0, 6):
                    ctx.do(case_foreign, i, B, level, u[1])
                    ctx.trans(kind, i, B, level, u[1])
    elif kind == "sizes":
        n = 29 if u[1] == "opaque" else len(objs.sample_bytes(u[1]))
        for size in list(range(0, n + 21)) + [255, 256, 65535, 65536, 2**20, 2**20 + 1]:
            for B in (1, 24, 131072):
                ctx.do(case_size, u[1], size, B, size & 1)
        if u[1] in SPECS:
            for a, lf, _k in SPECS[u[1]].parts:
                for B in (1, 24, 131072):
                    for d in (-3, -2, -1, 1, 2, 3, 100):
                        if lf:
                            ctx.do(case_length, u[1], lf, d, B, 0)
                    for k in (0, 1, 3, 5, 7, 8, 30, 100):
                        ctx.do(case_content, u[1], a, k, B, 1)
                        ctx.trans(kind, u[1], a, k)
    elif kind == "text":
        _, name, a, part = u
        for start in range(part * 256, 0x110000, 512):
            if start < 0x10000 or start % 0x1000 == part * 256:
                for delta in (-1, 0, 1, 2, 3) if start < 0x600 or 0x1F00 <= start < 0x2200 or 0xD700 <= start < 0xE000 else (0,):
                    ctx.do(case_text, name, a, start, delta, 64)
                    ctx.trans(kind, name, a, start, delta)
    elif kind == "closure":
        _, aname, B, lv = u
        k = len(hist.alpha(aname)[0]) + NREF
        seen = {ctx.do(case_hist, aname, B, lv, ())}
        q = deque([()])
        while q:
            h = q.popleft()
            for e in range(k):
                s = ctx.do(case_hist, aname, B, lv, h + (e,))
                ctx.trans(kind, aname, B, lv, h, e)
                if s not in seen:
                    seen.add(s)
                    q.append(h + (e,))
            if len(seen) > 20000:
                ctx.capped.append("closure %s %d" % (aname, B))
                break
        for s in seen:
            ctx.state(aname, B, lv, s)
    else:
        _, aname, B, lv, depth = u
        for h in hist.sequences(len(hist.alpha(aname)[0]) + NREF, depth):
            ctx.do(case_hist, aname, B, lv, h)
            ctx.trans(kind, aname, B, h)
    ctx.count("traces_validated_against_impl", ctx.n)
