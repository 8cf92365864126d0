"""C18: every single-byte damage, every undersized declaration."""
import io
import struct
from itertools import product

from mc import blf, env, layout, objs
from mc.core import Hang, Violation, require

PROP = "C18"
LEVEL = "fault_enumeration"
RULE = ("A case is one log with one damage (a byte replaced, a size field replaced, two bytes replaced) read to its end: the objects before the damage "
        "must be returned unchanged first, reading must end, and no object may be decoded from another number of bytes than it declares. Non-trivial = "
        "distinct damaged logs.")
BOUNDS = {
    "quick": "every byte of 9 logs (stored, compressed, mixed, bare objects, cut into small containers, nested container, look-alikes; 3-7 objects) replaced by every "
             "other value; every declared size 0..200, 40 large ones and 9 near the true one at every object and container of every log and of two logs with objects of up to 200,000 bytes; every declared size 0..31 of objects of 8 types at 3 "
             "places with 1-3 objects after it; undersized objects of 12..24 bytes, in every cut",
    "thorough": "additionally all pairs of bytes at 9 values each within the headers of all objects and containers, all bytes of a log of all 28 types",
}
ASSUMPTIONS = ["the file ends: streams are finite", "memory: a declared size up to 4 GiB is read from an in-memory stream"]


class Log:
    def __init__(self, data, raws, ends, n_bare=0):
        self.data, self.raws, self.ends = data, raws, ends  # ends: file offset up to which a byte must be intact for object i


def build(raws, cuts, level, pad=8, flavour="vector"):
    """Containers cut at stream offsets. ends[i]: object i is safe from damage at offsets >= ends[i]."""
    stream = b""
    spans = []
    for r in raws:
        spans.append((len(stream), len(stream) + len(r)))
        stream += blf.pad(r, 8)
    data = blf.file_header(level)
    cuts = [0] + [c for c in cuts if c < len(stream)] + [len(stream)]
    ends = [None] * len(raws)
    for a, b in zip(cuts, cuts[1:]):
        while len(data) % pad:
            data += b"\0"
        start = len(data)
        data += blf.container(stream[a:b], level, flavour)
        for i, (s, e) in enumerate(spans):
            if a < e <= b:  # the object ends in this container
                ends[i] = len(data) if level else start + 32 + (e - a)
    return Log(data, raws, ends)


def logs():
    ob, sm = objs.opaque_bytes, objs.sample_bytes
    r1 = [sm("CanErrorFrame"), ob(19, b"LOBJ"), sm("AppText", 0, (5,)), ob(16)]
    r2 = [sm("EventComment", 0, (3,)), sm("SystemVariable", 0, (2, 3)), sm("CanMessage")]
    out = [build(r1, [], 0), build(r1, [40, 75], 0), build(r1, [40, 90], 6), build(r2, [30, 31, 90], 0), build(r2, [50, 100], 9, 4)]
    # objects outside of containers, then a container, then objects again
    d = blf.file_header(0)
    ends = []
    for r in r1[:2]:
        d += blf.pad(r, 4)
        ends.append(len(d) - (-len(r) % 4))
    d += blf.container(blf.pad(r1[2], 8) + r1[3])
    ends += [len(d) - 16 - (-len(r1[2]) % 8), len(d)]
    d += r2[2]
    out.append(Log(d, r1 + [r2[2]], ends + [len(d)]))
    # a container inside a container
    inner = blf.container(r1[0] + r1[3])
    d = blf.file_header(0) + blf.container(r1[3] + blf.pad(inner, 8) + r1[0])
    a = 144 + 32
    out.append(Log(d, [r1[3], r1[0], r1[3], r1[0]], [a + 16, a + 16 + 32 + len(r1[0]), a + 16 + len(inner), len(d)]))
    # look-alikes as payload
    out.append(build([ob(60, b"LOBJ\x10\0\1\0\x10\0\0\0\x17\0\0\0"), sm("GlobalMarker", 0, (1, 2, 3)), ob(17)], [30], 0))
    mixed = build(r1, [40], 0)
    d = bytearray(mixed.data)
    d[13] = 6
    out.append(Log(bytes(d), mixed.raws, mixed.ends))
    out.append(build([sm(n) for n in objs.SPECS], [500, 1500], 0))
    out.append(build([sm(n) for n in objs.SPECS], [500, 1500], 6))
    # objects of more than 64 KiB and more than 128 KiB, cut
    big = [ob(16), ob(70001, b"q"), ob(24, b"z"), ob(200000, b"y\0"), ob(17)]
    out.append(build(big, [50000, 120000, 240000], 0))
    out.append(build(big, [17, 69000, 200000, 270010], 6))
    return out


_L = []
_REC = {}


def the_logs():
    if not _L:
        _L.extend(logs())
        for name in list(objs.SPECS):
            record(objs.cls_of(objs.SPECS[name]))
        record(env.general.NotImplementedObject)
    return _L


def record(cls):
    """Notes from how many bytes each object was decoded (if the reader uses the class's unpack)."""
    orig = cls.unpack.__func__

    def unpack(c, buffer):
        o = orig(c, buffer)
        _REC[id(o)] = len(buffer)
        return o
    cls.unpack = classmethod(unpack)


def read_damaged(data, safe):
    """Reads everything; safe: serialised objects that must come first."""
    _REC.clear()
    got = []
    end = "end"
    try:
        r = env.BlfReader(io.BytesIO(data))
    except ValueError as e:
        require(not safe or data[:4] != b"LOGG", "open failed:", e)
        return "rejected", got
    try:
        for o in r:
            got.append(o)
            if len(got) > 100000:
                raise Hang("more than 100000 objects")
    except Hang:
        raise
    except Exception as e:  # noqa: BLE001
        end = type(e).__name__
    for i, raw in enumerate(safe):
        require(i < len(got), "only", len(got), "objects instead of at least", len(safe), "then", end)
        require(got[i].pack() == raw, "object", i, "before the damage changed")
    for i, o in enumerate(got):
        n = _REC.get(id(o), o.header.base.object_size)
        require(o.header.base.object_size == n, "object", i, "declares", o.header.base.object_size, "bytes, decoded from", n)
        if isinstance(o, env.general.NotImplementedObject):
            require(len(o.pack()) == o.header.base.object_size, "opaque object", i, "has", len(o.pack()), "bytes")
    return end, got


def case_undamaged(li):
    g = the_logs()[li]
    end, got = read_damaged(g.data, g.raws)
    require(end == "end", "the undamaged log ends with", end)
    blf.same_objects(got, g.raws, "undamaged")
    return (li,)


def case_bytes(li, patches):
    g = the_logs()[li]
    d = bytearray(g.data)
    for off, b in patches:
        d[off:off + len(b)] = b
    first = min(off for off, _ in patches)
    safe = [r for r, e in zip(g.raws, g.ends) if e <= first] if first >= 144 else []
    end, got = read_damaged(bytes(d), safe)
    return (li, patches, end, len(got))


def case_small(place, name, size, after, before, keep=None, cut=None):
    """An object declaring `size` bytes, less than its header, with objects before and after it."""
    raw = bytearray(objs.sample_bytes(name) if name in objs.SPECS else objs.opaque_bytes(24, b"\0"))
    if name == "container":
        raw = bytearray(blf.container(b"\0" * 8))
    layout.put(raw, 8, "I", size)
    del raw[keep:]
    raws = [objs.sample_bytes("CanErrorFrame"), objs.opaque_bytes(16), objs.sample_bytes("EventComment", 0, (4,))]
    stream = b"".join(raws[:before]) + bytes(raw) + b"".join(blf.pad(r, 8) for r in raws[:after])
    if place == "bare":
        data = blf.file_header(0) + stream
    elif place == "stored":
        data = blf.file_header(0) + blf.container(stream[:cut]) + (blf.container(stream[cut:]) if cut else b"")
    elif cut:
        data = blf.file_header(6) + blf.pad(blf.container(stream[:cut], 6), 8) + blf.container(stream[cut:], 6)
    else:
        data = blf.file_header(6) + blf.container(stream, 6)
    end, got = read_damaged(data, raws[:before])
    if end == "end":
        tail = [o.pack() for o in got[len(got) - after:]] if after else []
        require(tail == raws[:after], "an object declaring", size, "bytes swallowed objects after it:", [x[:20] for x in tail])
    return (place, name, size, after, before, keep, cut, end)


def offsets(li):
    """Offsets of all object headers in the file (containers, and objects of stored containers)."""
    g = the_logs()[li]
    out = []
    p = 144
    while True:
        p = g.data.find(b"LOBJ", p)
        if p < 0:
            return out
        out.append(p)
        p += 1


def units(tier):
    th = tier == "thorough"
    u = [("bytes", li, p, 8) for li in range(9) for p in range(8)]
    u += [("sizes", li) for li in range(13)] + [("small",)]
    if th:
        u += [("bytes", li, p, 32) for li in (9, 10) for p in range(32)]
        u += [("pairs", li, p, 16) for li in range(9) for p in range(16)]
    return u


def run_unit(u, ctx):
    if u[0] == "bytes":
        data = the_logs()[u[1]].data
        for off in range(u[2], len(data), u[3]):
            for b in range(256):
                if b != data[off]:
                    ctx.do(case_bytes, u[1], ((off, bytes([b])),))
    elif u[0] == "sizes":
        ctx.do(case_undamaged, u[1])
        g = the_logs()[u[1]]
        n = len(g.data)
        big = [n - 1, n, n + 1, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF] + [0xFFFFFFFF - k for k in range(1, 33)]
        for p in offsets(u[1]):
            if p + 12 <= n:
                k = layout.peek(g.data, p + 8, "I")
                near = [x for x in (k // 2, k - 9, k - 1, k + 1, k + 9, k * 3 // 2, 2 * k - 1, 2 * k, 3 * k) if x >= 0]
                for s in (list(range(201)) if u[1] < 11 else list(range(0, 49, 4))) + big + near:
                    ctx.do(case_bytes, u[1], ((p + 8, struct.pack("<I", s)),))
    elif u[0] == "small":
        for place, name, size, after, before in product(
                ("bare", "stored", "packed"), ("opaque", "container", "CanMessage", "AppText", "LinMessage2", "FunctionBus", "CanFdMessage64", "EthernetFrameEx"),
                range(32), (0, 1, 2, 3), (0, 1, 2)):
            if name != "opaque" or size <= 24:  # an opaque object has 16 bytes of header and 24 in all
                ctx.do(case_small, place, name, size, after, before)
        # the next object begins where the undersized one is over, possibly within what would be its header
        for place, name, size, keep, after, before in product(("bare", "stored", "packed"), ("opaque", "CanMessage"), range(16), range(12, 25), (1, 2, 3), (0, 1)):
            ctx.do(case_small, place, name, size, after, before, keep)
            if place != "bare" and after == 2:
                for cut in range(1, 60):
                    ctx.do(case_small, place, name, size, after, before, keep, cut)
    else:
        li = u[1]
        n = len(the_logs()[li].data)
        pos = sorted({p + k for p in offsets(li) for k in (0, 1, 4, 5, 8, 9, 11, 12, 13, 16, 32, 40) if p + k < n})
        vals = (0, 1, 9, 10, 16, 31, 32, 0x4C, 0xFF)
        i = 0
        for a in pos:
            for b in pos:
                if a < b:
                    i += 1
                    if i % u[3] == u[2]:
                        for x, y in product(vals, vals):
                            ctx.do(case_bytes, li, ((a, bytes([x])), (b, bytes([y]))))


_ = Violation
