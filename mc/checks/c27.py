"""C27: the names and numbers of the format's codes."""
import io
from itertools import product

from mc import blf, codes, env, layout, objs
from mc.core import require
from mc.layout import SPECS, attr

PROP = "C27"
LEVEL = "exploration"
RULE = ("A case is one code (or one set of flag bits) in one field of one object or the file header, read from a log and looked up by name, or one named constant "
        "written to a log and looked up in the bytes. Non-trivial = distinct (field, code or name, direction).")
BOUNDS = {
    "quick": "all names of 8 enumerations and 3 flag sets in every field that holds them, both directions; object types 0..4095 in headers; all 16,384 sets of the named "
             "CAN FD flags in both object types that hold them, all sets of the other flags in all 28 types; each bit of the flag fields alone and with all named bits; compression levels and application ids 0..255",
    "thorough": "object types 0..65535",
}
ASSUMPTIONS = ["the reference tables follow the published BLF definitions", "names the library may add later are not constrained, except that they must not take a number that has a name"]
K = env.constants
ENUM_FIELDS = [(n, f, e) for n, s in SPECS.items() for f, e in s.enums.items()]
FLAG_FIELDS = [(n, "header.object_flags", "ObjFlags") for n in SPECS] + [
    ("AppTrigger", "flags", "TriggerFlag"), ("CanFdMessage", "canfd_flags", "CanFdFlags"), ("CanFdMessage64", "flags", "CanFdFlags")]


def set_path(o, path, v):
    *parts, last = path.split(".")
    for p in parts:
        o = getattr(o, p)
    setattr(o, last, v)


def named(v, code, enum, table):
    """v, read from the code, must be the constant of this number."""
    for name, number in table.items():
        m = getattr(getattr(K, enum), name)
        if number == code:
            require(v == m and v is m and v.name == name and int(v) == code, enum, code, "is read as", repr(v), "instead of", name)
        else:
            require(v != m, enum, code, "is read as", name)


def case_constants(enum, name):
    e = getattr(K, enum)
    number = {**codes.ENUMS, **codes.FLAGS}[enum][name]
    m = getattr(e, name)
    require(isinstance(m, e) and m == number and int(m) == number and m.name == name and e[name] is m, enum, name, "is", repr(m), "instead of", number)
    require([x for x in e.__members__.values() if x == number] == [m], enum, "has several names for", number)
    return (enum, name)


def case_signature(name, value):
    require(getattr(K, name) == value, name, "is", getattr(K, name))
    return (name,)


def case_read(name, field, enum, code):
    spec = SPECS[name]
    raw = bytearray(objs.sample_bytes(name))
    layout.put(raw, spec.off[field], spec.fmt[field], code)
    (o,) = blf.read_all(blf.file_header(0) + blf.container(bytes(raw)))
    named(attr(o, field), code, enum, codes.ENUMS[enum])
    return (name, field, code, "read")


def case_write(name, field, enum, member):
    spec = SPECS[name]
    raw = bytearray(objs.sample_bytes(name, 1))
    o = objs.from_bytes(bytes(raw))
    set_path(o, field, getattr(getattr(K, enum), member))
    layout.put(raw, spec.off[field], spec.fmt[field], codes.ENUMS[enum][member])
    cs, _ = blf.parse_containers(blf.write_log([o], 131072).final)
    require(cs[0].raw == bytes(raw), name, field, member, "is written as", cs[0].raw[spec.off[field]:][:4].hex())
    return (name, field, member, "write")


def case_flags(name, field, enum, bits):
    spec = SPECS[name]
    raw = bytearray(objs.sample_bytes(name, 1))
    layout.put(raw, spec.off[field], spec.fmt[field], bits)
    raw = bytes(raw)
    (o,) = blf.read_all(blf.file_header(0) + blf.container(raw))
    v = attr(o, field)
    table = codes.FLAGS[enum]
    e = getattr(K, enum)
    require(int(v) == bits, name, field, hex(bits), "is read as", repr(v))
    acc = e(bits & ~sum(table.values()))
    for n, number in table.items():
        if number:
            require((v & getattr(e, n) == getattr(e, n)) == bool(bits & number), name, field, hex(bits), "flag", n, "is read as", repr(v))
            if bits & number:
                acc |= getattr(e, n)
    set_path(o, field, acc)
    require(o.pack() == raw, name, field, hex(bits), "is written as", o.pack()[spec.off[field]:][:4].hex())
    return (name, field, bits)


def case_type(code):
    """An object of the type code: its header names the type, or says that it is unknown."""
    if code == 10:
        return None
    spec = layout.BY_TYPE.get(code)
    raw = objs.sample_bytes(spec.name, spec.types.index(code)) if spec else objs.opaque_bytes(20, b"", code)
    (o,) = blf.read_all(blf.file_header(0) + blf.container(raw))
    v = o.header.base.object_type
    if code in codes.ENUMS["ObjType"].values():
        named(v, code, "ObjType", codes.ENUMS["ObjType"])
    else:
        require(not any(v == n for n in codes.ENUMS["ObjType"].values() if n), "type", code, "is read as", repr(v))
    return ("type", code)


def case_type_written(name, code):
    """An object is written under the number of the type named in its header."""
    want = bytearray(objs.opaque_bytes(16))
    layout.put(want, 12, "I", code)
    b = env.general.ObjectHeaderBase(b"LOBJ", 16, 1, 16, getattr(K.ObjType, name))
    require(b.pack() == bytes(want), "base header of type", name, "is", b.pack().hex())
    o = objs.sample("CanErrorFrame", 1)
    o.header.base.object_type = getattr(K.ObjType, name)
    require(layout.peek(o.pack(), 12, "I") == code, "type", name, "is written as", o.pack()[12:16].hex())
    return ("type", name)


def case_header_read(field, enum, value):
    data = blf.file_header(0, **{field: value})
    v = getattr(env.BlfReader(io.BytesIO(data)).file_statistics, field)
    table = codes.ENUMS[enum]
    if value in table.values():
        named(v, value, enum, table)
    else:
        require(not any(v == n for n in table.values() if n), field, value, "is read as", repr(v))
    return (field, value)


def case_level_written(name):
    level = codes.ENUMS["Compression"][name]
    a = blf.write_log(objs_all(), 1000, getattr(K.Compression, name)).final
    require(a[13] == level, "compression", name, "is written as", a[13])
    cs, _ = blf.parse_containers(a)
    raws = [o.pack() for o in objs_all()]
    want = blf.write_log(objs_all(), 1000, level).final
    require(a[144:] == want[144:] and a[13] == want[13], "compression", name, "differs from", level)
    require(all(c.method == (2 if level else 0) for c in cs), "methods", [c.method for c in cs])
    blf.same_objects(blf.read_all(a), raws)
    return (name,)


def objs_all():
    return [objs.sample(n) for n in SPECS]


def units(tier):
    th = tier == "thorough"
    return [("enums",), ("header",)] + [("types", p, 65536 if th else 4096) for p in range(4)] + [("flags", i) for i in range(len(FLAG_FIELDS))]


def subsets(table):
    bits = [b for b in table.values() if b]
    for choice in product((0, 1), repeat=len(bits)):
        yield sum(b for b, c in zip(bits, choice) if c)


def run_unit(u, ctx):
    if u[0] == "enums":
        for enum, table in {**codes.ENUMS, **codes.FLAGS}.items():
            for n in table:
                ctx.do(case_constants, enum, n)
        for n, v in codes.SIGNATURES.items():
            ctx.do(case_signature, n, v)
        for name, field, enum in ENUM_FIELDS:
            for n, code in codes.ENUMS[enum].items():
                ctx.do(case_read, name, field, enum, code)
                ctx.do(case_write, name, field, enum, n)
    elif u[0] == "types":
        for code in range(u[1], u[2], 4):
            ctx.do(case_type, code)
        for n, code in codes.ENUMS["ObjType"].items():
            if code % 4 == u[1]:
                ctx.do(case_type_written, n, code)
    elif u[0] == "header":
        for v in range(256):
            ctx.do(case_header_read, "application_id", "AppId", v)
            ctx.do(case_header_read, "compression_level", "Compression", v)
        for n in codes.ENUMS["Compression"]:
            ctx.do(case_level_written, n)
    else:
        name, field, enum = FLAG_FIELDS[u[1]]
        w = 8 * layout.width(SPECS[name].fmt[field])
        named_bits = sum(codes.FLAGS[enum].values())
        sets = {b & (1 << w) - 1 for b in subsets(codes.FLAGS[enum])}
        sets |= {1 << i for i in range(w)} | {(1 << i | named_bits) & (1 << w) - 1 for i in range(w)}
        for bits in sorted(sets):
            ctx.do(case_flags, name, field, enum, bits)
