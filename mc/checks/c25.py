"""C25: values outside the library's tables."""
import io
from itertools import product

from mc import blf, env, layout, objs
from mc.core import require
from mc.layout import SPECS, attr

PROP = "C25"
LEVEL = "exploration"
RULE = ("A case is one log in which one object holds one value of an enumerated field (or one byte string as text) between other objects; it is read, the value, the "
        "constant's type and name and the re-encoded bytes are checked, and the objects after it. Non-trivial = distinct (field, value, surroundings).")
BOUNDS = {
    "quick": "every enumerated field of every type and the file header: values 0..4095, every 2^k, 2^k-1, 2^k+1, 2^32-2^k and byte-swapped known values; header flag fields "
             "at every bit; texts: every byte at every position of texts of length 1-4 in every text part, all 2-byte strings in the single-part types and all UTF-8 parts, "
             "all 3-byte strings of 24 critical bytes; pairs of unknown values in one log; stored, compressed and split",
    "thorough": "values 0..65535 for every field; all 3-byte strings of 48 critical bytes, 4-byte strings of 14",
}
ASSUMPTIONS = ["an application or compression code unknown to the library need not keep its number (file header)"]
K = env.constants
TEXTS = [(n, i) for n, s in SPECS.items() for i, p in enumerate(s.parts) if p[2] in ("text", "textz", "utf8")]
ENUMS = [(n, f) for n, s in SPECS.items() for f in s.enums]
NEXT = [objs.opaque_bytes(18), objs.sample_bytes("CanMessage"), objs.opaque_bytes(24, b"LOBJ")]


def log(raws, style):
    s = b"".join(blf.pad(r, 8) for r in raws)
    if style == 0:
        return blf.file_header(0) + blf.container(s)
    if style == 1:
        return blf.file_header(6) + blf.container(s, 6)
    if style == 2:
        return blf.file_header(0) + blf.container(s[:37]) + blf.pad(blf.container(s[37:]), 4)
    return blf.file_header(0) + s


def read(raws, style):
    got = blf.read_all(log(raws, style))
    blf.same_objects(got, raws)
    return got


def check_enum(v, value, enum):
    known = {int(m): m for m in enum}
    require(v == value and isinstance(v, int), "value", value, "is", repr(v))
    if value in known:
        require(isinstance(v, enum) and v.name == known[value].name, "known value", value, "is", repr(v))
    else:
        require(not isinstance(v, enum), "unknown value", value, "is", repr(v))


def case_enum(name, field, value, style):
    spec = SPECS[name]
    raw = bytearray(objs.sample_bytes(name, value % 2))
    layout.put(raw, spec.off[field], spec.fmt[field], value)
    raw = bytes(raw)
    got = read([NEXT[0], raw, NEXT[1], raw, NEXT[2]], style)
    for o in (got[1], got[3]):
        require(type(o) is objs.cls_of(spec), "class", type(o))
        check_enum(attr(o, field), value, getattr(K, spec.enums[field]))
        want = layout.expected(spec, raw)
        for p in layout.paths(spec):
            require(attr(o, p) == want[p], name, p, "is", repr(attr(o, p)), "instead of", repr(want[p]))
    # copied to a new log
    sink = blf.write_log(got, 40)
    blf.same_objects(blf.read_all(sink.final), [NEXT[0], raw, NEXT[1], raw, NEXT[2]], "copied")
    return (name, field, value, style)


def case_two(a, va, b, vb):
    raws = []
    for (name, field), v in ((a, va), (b, vb)):
        raw = bytearray(objs.sample_bytes(name))
        layout.put(raw, SPECS[name].off[field], SPECS[name].fmt[field], v)
        raws += [bytes(raw), NEXT[v % 3]]
    read(raws, (va + vb) % 4)
    return (a, va, b, vb)


def case_type(value, style):
    """object_type in the header of an opaque object and of the supported ones."""
    if value == 10:
        return None
    spec = layout.BY_TYPE.get(value)
    raw = objs.sample_bytes(spec.name, spec.types.index(value)) if spec else objs.opaque_bytes(21, b"LOBJ", value)
    got = read([raw, NEXT[1]], style)
    v = got[0].header.base.object_type
    if v != K.ObjType.UNKNOWN:  # the constant for every type code without a name; the bytes keep the code
        check_enum(v, value, K.ObjType)
    else:
        require(value == 0 or value not in set(K.ObjType), "known type", value, "is", repr(v))
    return (value, style)


def case_file_header(field, value):
    kw = {field: value}
    data = blf.file_header(0, **kw) + blf.container(NEXT[0] + b"\0" * 6 + NEXT[1])
    r = env.BlfReader(io.BytesIO(data))
    blf.same_objects(list(r), NEXT[:2])
    enum = {"application_id": K.AppId, "compression_level": K.Compression}[field]
    v = getattr(r.file_statistics, field)
    known = {int(m): m for m in enum}
    if value in known:
        require(v == value and isinstance(v, enum) and v.name == known[value].name, field, value, "is", repr(v))
    return (field, value)


def case_text(name, i, content, style):
    spec = SPECS[name]
    base = layout.decode(spec, objs.sample_bytes(name))
    vals = {p: base[p] for _, _, p in spec.fields if p not in spec.lenfields}
    parts = {a: content if j == i else (b"abc" + bytes([j + 65]))[:2 + j] for j, (a, _, _) in enumerate(spec.parts)}
    raw = layout.encode(spec, vals, parts)
    got = read([NEXT[0], raw, NEXT[1], NEXT[2]], style)
    o = got[1]
    for j, (a, lf, kind) in enumerate(spec.parts):
        v = getattr(o, a)
        c = parts[a]
        try:
            want = layout.part_text(kind, c)
        except UnicodeDecodeError:
            require(isinstance(v, str), a, "is", repr(v))
        else:
            require(v == want, name, a, "is", repr(v), "instead of", repr(want))
    o2 = objs.cls_of(spec).unpack(o.pack())
    require(o2 == o, name, "decoded again differs")
    return (name, i, content, style)


def values(th):
    out = set(range(65536 if th else 4096)) | {0xDEADBEEF, 0x4A424F4C}
    for i in range(32):
        out |= {1 << i, (1 << i) - 1, (1 << i) + 1, (1 << 32) - (1 << i)}
    for v in range(1, 32):
        out |= {v << 24, v << 16, v << 8}
    return sorted(x for x in out if 0 <= x < 1 << 32)


CRITICAL = [0x00, 0x20, 0x41, 0x7F, 0x80, 0x81, 0x8D, 0x8F, 0x90, 0x9D, 0xA0, 0xBF, 0xC0, 0xC2, 0xC3, 0xE0, 0xE2, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFE, 0xFF]
SINGLE = [("AppText", 0), ("EventComment", 0)] + [t for t in TEXTS if t[0] == "DiagRequestInterpretation"]


def units(tier):
    th = tier == "thorough"
    u = [("enum", n, f, p, th) for n, f in ENUMS for p in range(8)] + [("type", th), ("header",), ("two",)]
    u += [("text", n, i) for n, i in TEXTS] + [("text2", n, i, p) for n, i in SINGLE for p in range(8)]
    u += [("text3", n, i, th) for n, i in TEXTS]
    return u


def run_unit(u, ctx):
    if u[0] == "enum":
        for j, v in enumerate(values(u[4])):
            if j % 8 == u[3]:
                for style in (0, 1, 2, 3) if v < 512 else (v % 4,):
                    ctx.do(case_enum, u[1], u[2], v, style)
    elif u[0] == "type":
        for v in values(u[1]):
            ctx.do(case_type, v, v % 4)
    elif u[0] == "header":
        for v in range(256):
            ctx.do(case_file_header, "application_id", v)
            ctx.do(case_file_header, "compression_level", v)
    elif u[0] == "two":
        for a, b in product(ENUMS, ENUMS):
            for va, vb in product((0, 1, 77, 0xFFFFFFFF), repeat=2):
                ctx.do(case_two, a, va, b, vb)
    elif u[0] == "text":
        for n in range(1, 5):
            for pos in range(n):
                for b in range(256):
                    c = b"abcd"[:pos] + bytes([b]) + b"wxyz"[pos + 1:n]
                    for style in range(4):
                        ctx.do(case_text, u[1], u[2], c, style)
    elif u[0] == "text2":
        for a in range(u[3], 256, 8):
            for b in range(256):
                ctx.do(case_text, u[1], u[2], bytes([a, b]), (a + b) % 4)
    else:
        crit = CRITICAL + ([*range(0x82, 0x8D, 2), *range(0x91, 0x9D, 2), *range(0xC4, 0xE0, 4), *range(0xF1, 0xFE, 3)] if u[3] else [])
        for c in product(crit, repeat=3):
            ctx.do(case_text, u[1], u[2], bytes(c), sum(c) % 4)
        if u[3]:
            for c in product(CRITICAL[4:18], repeat=4):
                ctx.do(case_text, u[1], u[2], bytes(c), sum(c) % 4)
