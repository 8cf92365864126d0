"""C13: dispatch over all object type codes."""
from mc import blf, env, layout, objs
from mc.core import require
from mc.layout import BY_TYPE, SPECS

PROP = "C13"
LEVEL = "exploration"
RULE = ("A case is one log with objects of one or 64 type codes between supported objects; classes, bytes and the re-written log are compared. "
        "Non-trivial = distinct (codes, size).")
BOUNDS = {
    "quick": "all 65,535 type codes 0..65535 but 10, +-4 around every power of two and 32-bit bound; codes 0..140 x object sizes 16..90, 255..257, 65535..65537 "
             "x alone / among supported objects / stored / compressed / split; every supported code x 8 samples; every header "
             "field of every supported type at 0..299 and around every power of two; 6 kinds of user-defined object classes x codes 0..140 x 9 sizes x 3 surroundings",
    "thorough": "codes 0..255 x sizes 16..300; all type codes 0..1,048,575",
}
ASSUMPTIONS = ["type code 10 is the container itself"]


def code_bytes(code, size):
    return objs.opaque_bytes(size, b"LOBJ" + code.to_bytes(4, "little") + b"\x0a\0", code)


def check(raws, level, cut, B):
    """Reads a log of raws (cut at a position), re-writes it and reads again."""
    s = b"".join(blf.pad(r, 8) for r in raws)
    data = blf.file_header(level) + blf.container(s[:cut], level) + blf.pad(blf.container(s[cut:], level), 8)
    got = blf.read_all(data)
    for _ in range(2):
        blf.same_objects(got, raws)
        for o, r in zip(got, raws):
            spec = BY_TYPE.get(layout.peek(r, 12, "I"))
            want = objs.cls_of(spec) if spec else env.general.NotImplementedObject
            require(type(o) is want, "type code", layout.peek(r, 12, "I"), "is returned as", type(o).__name__, "instead of", want.__name__)
            require(o.header.base.object_size == len(r), "object_size")
        sink = blf.write_log(got, B, level)
        got = blf.read_all(sink.final)
    return hash(data)


def case_block(first, n, size, level):
    sup = list(SPECS)
    raws = []
    for c in range(first, first + n):
        if c == 10 or c > 0xFFFFFFFF or c < 0:
            continue
        if c in BY_TYPE:
            raws.append(objs.sample_bytes(BY_TYPE[c].name, BY_TYPE[c].types.index(c)))
        else:
            raws.append(code_bytes(c, size + c % 11))
        if c % 16 == 0:
            raws.append(objs.sample_bytes(sup[(c // 16) % len(sup)]))
    return check(raws, level, len(raws) * 20, 131072)


def case_code(code, size, level, cut, B, where):
    x = code_bytes(code, size)
    a = objs.sample_bytes("CanErrorFrame")
    raws = {0: [x], 1: [a, x, a], 2: [x, x, a], 3: [x, code_bytes(129 + code % 10, 17), a]}[where]
    return check(raws, level, cut, B)


def case_supported(name, code, k, level):
    raw = bytearray(objs.sample_bytes(name, k))
    layout.put(raw, 12, "I", code)
    return check([objs.opaque_bytes(18), bytes(raw), objs.opaque_bytes(16, b"", code + 129)], level, 30, 40)


def case_header(name, path, v, level):
    """A supported object with one header field at a given value, between others."""
    spec = SPECS[name]
    raw = bytearray(objs.sample_bytes(name))
    for off, f, p in spec.header:
        if p == path:
            layout.put(raw, off, f, v & ((1 << 8 * layout.width(f)) - 1))
    return check([objs.opaque_bytes(18), bytes(raw), objs.sample_bytes("CanErrorFrame"), bytes(raw)], level, 30, 40)


def own_classes():
    """Object classes a user may derive from the library's."""
    g = env.general

    class Plain(g.ObjectWithHeader):
        def __init__(self, raw):
            super().__init__(g.ObjectHeader.unpack_from(raw, 0) if len(raw) >= 32 else g.HeaderWithBase(g.ObjectHeaderBase.unpack_from(raw, 0)))
            self.raw = raw

        def pack(self):
            return self.raw

    class VarPlain(Plain):
        def __init__(self, raw):
            super().__init__(raw)
            if len(raw) >= 32:
                self.header = g.VarObjectHeader.unpack_from(raw, 0)

    class Header2(g.HeaderWithBase):
        """A header format the library does not have."""

        def pack(self):
            return self.base.pack() + bytes(24)

    class LongHeader(Plain):
        def __init__(self, raw):
            super().__init__(raw)
            self.header = Header2(g.ObjectHeaderBase.unpack_from(raw, 0))

    class Can(env.can.CanMessage):
        """Derived from an object class of the library."""

        def pack(self):
            return self.raw

    class Text(g.AppText):
        raw = b""

        def pack(self):
            return self.raw

    class Slots(Plain):
        __slots__ = ("other",)

        def __len__(self):
            return 0

        def __bool__(self):
            return False

        def __eq__(self, other):
            raise AssertionError("compared")

        __hash__ = None

    def derived(cls, name):
        def make(raw):
            o = cls.unpack(objs.sample_bytes(name))
            o.header.base.object_size = len(raw)
            o.raw = raw
            return o
        return make

    return {"plain": Plain, "var": VarPlain, "header2": LongHeader, "can": derived(Can, "CanMessage"), "text": derived(Text, "AppText"), "odd": Slots}


_OWN = {}


def case_own(kind, code, size, where, level, B):
    """An object of a class of the user's: written with exactly the bytes it serialises to, and read as its type code says."""
    if not _OWN:
        _OWN.update(own_classes())
    if code in BY_TYPE:
        raw = objs.sample_bytes(BY_TYPE[code].name, BY_TYPE[code].types.index(code))
    else:
        raw = code_bytes(code, size)
    other = [objs.sample_bytes("CanErrorFrame"), code_bytes(131, 21)]
    raws = {0: [raw], 1: [other[0], raw, other[1]], 2: [raw, raw, other[0]]}[where]
    obs = [_OWN[kind](r) if r is raw else env.general.NotImplementedObject.unpack(r) if r is other[1] else objs.from_bytes(r) for r in raws]
    sink = blf.write_log(obs, B, level)
    got = blf.read_all(sink.final)
    blf.same_objects(got, raws)
    for o, r in zip(got, raws):
        spec = BY_TYPE.get(layout.peek(r, 12, "I"))
        require(type(o) is (objs.cls_of(spec) if spec else env.general.NotImplementedObject), "type code", layout.peek(r, 12, "I"), "is returned as", type(o).__name__)
    return kind, code, len(raw), where, level, B


OWN = ("plain", "var", "header2", "can", "text", "odd")


def codes_32():
    c = {0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0xDEADBEEF, 0x4A424F4C}
    for i in range(8, 32):
        c |= {(1 << i) + d for d in range(-4, 5)} | {(1 << i) + t for t in BY_TYPE} | {(1 << i) + 10}
    return sorted(x for x in c if 255 < x < 2**32)


def units(tier):
    th = tier == "thorough"
    u = [("blocks", lo, min(lo + 4096, 1 << 20)) for lo in range(0, (1 << 20) if th else 65536, 4096)]
    u += [("codes", lo, 256 if th else 141, 300 if th else 90) for lo in range(0, 16)]
    u += [("own", k) for k in OWN] + [("wide",), ("supported",)] + [("header", n, th) for n in SPECS]
    return u[::-1]


def run_unit(u, ctx):
    if u[0] == "blocks":
        for f in range(u[1], u[2], 64):
            ctx.do(case_block, f, 64, 16, (f // 64) % 2 * 6)
        ctx.count("type_codes", u[2] - u[1])
    elif u[0] == "codes":
        for c in range(u[1], u[2], 16):
            if c in BY_TYPE or c == 10:
                continue
            for size in list(range(16, u[3] + 1)) + [255, 256, 257, 65535, 65536, 65537]:
                for where in range(4):
                    ctx.do(case_code, c, size, 6 * (size & 1), (size * 7 + c) % 40, (131072, 33)[size & 1] if size < 1000 else 131072, where)
    elif u[0] == "wide":
        for c in codes_32():
            ctx.do(case_block, c, 1, 16, 0)
            ctx.do(case_code, c, 33, 6, 20, 24, 1)
    elif u[0] == "own":
        for c in list(range(141)) + [255, 256, 65535, 65536 + 1, 0xFFFFFFFF]:
            if c != 10:
                for size in (16, 17, 24, 31, 32, 33, 48, 61, 300):
                    for where in range(3):
                        if c not in BY_TYPE or size == 16:
                            ctx.do(case_own, u[1], c, size, where, 6 * (size & 1), (16, 40, 131072)[(c + size + where) % 3])
    elif u[0] == "header":
        for off, f, p in SPECS[u[1]].header:
            if p in ("header.base.signature", "header.base.header_size", "header.base.object_size", "header.base.object_type"):
                continue
            w = 8 * layout.width(f)
            vals = set(range(4096 if u[2] else 300)) | {(1 << i) + d for i in range(w) for d in (-1, 0, 1)} | {(1 << w) - 1 - (1 << i) for i in range(w)}
            for v in sorted(vals):
                if 0 <= v < 1 << w:
                    ctx.do(case_header, u[1], p, v, 6 * (v & 1))
    else:
        for t, spec in BY_TYPE.items():
            for k in range(8):
                for level in (0, 6):
                    ctx.do(case_supported, spec.name, t, k, level)
