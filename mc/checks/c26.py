"""C26: optional sections."""
import struct
from itertools import product

from mc import blf, layout, objs
from mc.core import require
from mc.layout import SPECS, attr

PROP = "C26"
LEVEL = "exploration"
RULE = ("A case is one object with given data length, declared size, extension offset and section bytes: decoded, compared with the layout, encoded, and encoded again "
        "with section attributes set or with another declared size. Non-trivial = distinct serialised objects / edits.")
BOUNDS = {
    "quick": "CanFdMessage64, CanFdErrorFrame64: data lengths 0..120 x extension absent / present / declared behind the end x 0..12 bytes behind it; every byte of the "
             "section at every value; LinMessage2: declared sizes 164..220, every byte of the sections at every value, every pair (size decoded, size encoded); "
             "section attributes at corner values (each zero or not) while absent / present; through a log, followed by objects",
    "thorough": "all data lengths, section attributes at all corner pairs",
}
ASSUMPTIONS = ["the extension offset is zero or not before the end of the data", "bytes that belong to no section are zero"]
EXT = ("btr_ext_arb", "btr_ext_data")
LIN = ("resp_baudrate", "exact_header_baudrate", "early_stopbit_offset", "early_stopbit_offset_response")
AFTER = [objs.sample_bytes("CanErrorFrame"), objs.opaque_bytes(19, b"L")]


def fd_bytes(name, n, mode, slack, ext):
    """mode: 'none' offset 0; 'ext' section behind the data; 'cut' offset set, declared size ends before the section is complete."""
    spec = SPECS[name]
    base = layout.decode(spec, objs.sample_bytes(name))
    vals = {p: base[p] for _, _, p in spec.fields if p not in spec.lenfields}
    data = objs.pattern(n, 0x41, 3)
    off = spec.end + n
    if mode != "none" and off > 255:
        return None
    vals["ext_data_offset"] = 0 if mode == "none" else off
    if spec.special == "fde64":
        vals["valid_data_bytes"] = n
    tail = {"none": b"", "ext": struct.pack("<II", *ext), "cut": b""}[mode] + bytes(slack)
    raw = bytearray(layout.encode(spec, vals, {"data": data}))
    raw += tail
    layout.put(raw, 8, "I", len(raw))
    return bytes(raw)


def present(spec, raw):
    if spec.special == "lin2":
        size = layout.peek(raw, 8, "I")
        return (size >= 168,) + (size >= 184,) * 3
    e = layout.peek(raw, spec.off["ext_data_offset"], "B")
    return (bool(e) and len(raw) >= e + 8,) * 2


def check(name, raw):
    spec = SPECS[name]
    o = objs.cls_of(spec).unpack(raw)
    want = layout.expected(spec, raw)
    # what lies behind the declared size is not part of the object
    for behind in (b"\x01", b"LOBJ" * 30):
        far = objs.cls_of(spec).unpack(raw + behind)
        require(far.pack() == raw, name, "decoded from a buffer that goes on behind it encodes differently")
        for p in EXT if spec.special != "lin2" else LIN:
            require(getattr(far, p) == want[p], name, p, "is read from behind the declared size:", getattr(far, p))
    for p in layout.paths(spec):
        require(attr(o, p) == want[p], name, p, "is", repr(attr(o, p)), "instead of", repr(want[p]))
    require(o.pack() == raw, name, "encodes", o.pack()[32:].hex(), "instead of", raw[32:].hex())
    return o


def through_log(o, raw, B):
    sink = blf.write_log([objs.from_bytes(AFTER[1]), o, objs.from_bytes(AFTER[0]), o], B)
    blf.same_objects(blf.read_all(sink.final), [AFTER[1], raw, AFTER[0], raw])


def case_fd(name, n, mode, slack, ext):
    raw = fd_bytes(name, n, mode, slack, ext)
    if raw is None:
        return None
    spec = SPECS[name]
    if mode == "none" and slack and spec.special == "fd64":
        return None  # then the slack is data
    o = check(name, raw)
    has = present(spec, raw)[0]
    require(has == (mode == "ext" or mode == "cut" and slack >= 8), "oracle")
    require((o.btr_ext_arb, o.btr_ext_data) == (ext if mode == "ext" else (0, 0)), name, "section is", (o.btr_ext_arb, o.btr_ext_data))
    through_log(o, raw, 24 + n)
    # the section's attributes are written exactly if the section is there
    for arb, data in ((0xA1B2C3D4, 0x01020304), (0xFFFFFFFF, 0), (0, 1), (0, 0), (0x80000000, 0x80000000)):
        o.btr_ext_arb, o.btr_ext_data = arb, data
        want = bytearray(raw)
        if has:
            e = layout.peek(raw, spec.off["ext_data_offset"], "B")
            struct.pack_into("<II", want, e, arb, data)
        require(o.pack() == bytes(want), name, "with section attributes", (arb, data), "encodes", o.pack()[32:].hex(), "instead of", want[32:].hex())
    return hash((name, raw))


def case_fd_byte(name, n, i, b):
    raw = bytearray(fd_bytes(name, n, "ext", 0, (0x11223344, 0x55667788)))
    e = SPECS[name].end + n
    raw[e + i] = b
    check(name, bytes(raw))
    return hash((name, bytes(raw)))


def lin_bytes(size, k=0):
    raw = bytearray(objs.sample_bytes("LinMessage2", k))
    raw = raw[:size] if size <= 184 else raw + bytes(size - 184)
    for lo, hi in ((164, 168), (168, 184)):  # incomplete sections: bytes that belong to no section
        if lo < size < hi:
            raw[lo:size] = bytes(size - lo)
    layout.put(raw, 8, "I", size)
    return bytes(raw)


def case_lin(size, k):
    raw = lin_bytes(size, k)
    o = check("LinMessage2", raw)
    through_log(o, raw, size)
    for vals in ((0xA1B2C3D4, 2.5, 0x01020304, 0xFFFFFFFF), (1, -0.0, 0, 1), (0xFFFFFFFF, 1e300, 1, 0), *product((0, 0x61), (0.0, 0.5), (0, 0x62), (0, 0x63))):
        for a, v in zip(LIN, vals):
            setattr(o, a, v)
        want = bytearray(raw)
        if size >= 168:
            struct.pack_into("<I", want, 164, vals[0])
        if size >= 184:
            struct.pack_into("<dII", want, 168, *vals[1:])
        require(o.pack() == bytes(want), "LinMessage2 of", size, "bytes encodes", o.pack()[150:].hex(), "instead of", want[150:].hex())
        check("LinMessage2", bytes(want))
    return (size, k)


def case_lin_resize(a, b, k):
    """Decoded with declared size a, encoded with declared size b."""
    spec = SPECS["LinMessage2"]
    o = objs.cls_of(spec).unpack(lin_bytes(a, k))
    o.header.base.object_size = b
    want = bytearray(lin_bytes(b, k))
    vals = layout.decode(spec, lin_bytes(a, k))
    if b >= 168:
        struct.pack_into("<I", want, 164, vals[LIN[0]])
    if b >= 184:
        struct.pack_into("<dII", want, 168, *(vals[x] for x in LIN[1:]))
    require(o.pack() == bytes(want), "LinMessage2", a, "->", b, "encodes", o.pack()[150:].hex(), "instead of", want[150:].hex())
    return (a, b, k)


def case_lin_byte(size, off, b):
    raw = bytearray(lin_bytes(size))
    raw[off] = b
    if 168 <= off < 176 and size >= 184 and (raw[175] & 0x7F) == 0x7F and raw[174] >> 4 == 15:
        return None  # NaN
    check("LinMessage2", bytes(raw))
    return (size, off, b)


def units(tier):
    th = tier == "thorough"
    u = [("fd", n, p, th) for n in ("CanFdMessage64", "CanFdErrorFrame64") for p in range(8)]
    return u + [("fdbyte", n) for n in ("CanFdMessage64", "CanFdErrorFrame64")] + [("lin", th), ("linbyte",)]


def run_unit(u, ctx):
    if u[0] == "fd":
        for n in range(u[2], 256 if u[3] else 121, 8):
            for mode, slack in product(("none", "ext", "cut"), range(13)):
                for ext in ((0x01020304, 0x0A0B0C0D), (0, 0), (0xFFFFFFFF, 0xFFFFFFFF), (0x80000000, 1), (0, 7), (7, 0)):
                    if mode == "ext" or ext[0] == 0x01020304:
                        ctx.do(case_fd, u[1], n, mode, slack, ext)
    elif u[0] == "fdbyte":
        for n in (0, 1, 7, 8, 64):
            for i in range(8):
                for b in range(256):
                    ctx.do(case_fd_byte, u[1], n, i, b)
    elif u[0] == "lin":
        sizes = list(range(164, 221))
        for s in sizes:
            for k in range(4):
                ctx.do(case_lin, s, k)
        for a, b in product(sizes if u[1] else sizes[:30], repeat=2):
            ctx.do(case_lin_resize, a, b, a % 3)
    else:
        for size in (164, 168, 184, 200):
            for off in range(116, min(size, 184)):
                for b in range(256):
                    ctx.do(case_lin_byte, size, off, b)
