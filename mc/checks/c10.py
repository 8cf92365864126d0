"""C10: decode/encode identity over all field values."""
from mc import env, fields, layout, objs
from mc.core import require
from mc.fields import BACKGROUNDS, background, patch
from mc.layout import SPECS

PROP = "C10"
LEVEL = "exploration"
RULE = ("A case is one well-formed serialised object; the real unpack/pack must reproduce its bytes and decode to an equal object again. "
        "Non-trivial = distinct serialised objects.")
BOUNDS = {
    "quick": "28 types x their type codes x 4 backgrounds: every 8-bit field value, every 16-bit value on one background, walking bits, all-bytes patterns "
             "and bounds of wider and byte-string fields; all pairs of fields x 4x4 corner values",
    "thorough": "16-bit and byte-string fields exhaustively on all 4 backgrounds; all triples of fields x 3 values each",
}
ASSUMPTIONS = ["header size 32 and the object signature are part of well-formedness", "a floating point field that is not a number counts as equal to itself",
               "32/64-bit fields and triples of fields are covered by patterns, not by all values"]


def identity(spec, raw):
    cls = objs.cls_of(spec)
    o = cls.unpack(raw)
    b = o.pack()
    require(type(b) is bytes or isinstance(b, (bytes, bytearray)), "pack() returned", type(b))
    require(b == raw, spec.name, "encodes", b.hex(), "instead of", raw.hex())
    again = cls.unpack(b)
    if not (again == o):
        nan = [p for _, f, p in spec.fields if f == "d" and layout.attr(o, p) != layout.attr(o, p)]
        require(nan, spec.name, "decoded twice is not equal")
        for p in nan:
            require(layout.attr(again, p) != layout.attr(again, p), spec.name, p, "is not NaN the second time")
            setattr(o, p, 0.0)
            setattr(again, p, 0.0)
        require(again == o, spec.name, "decoded twice is not equal")
        o = cls.unpack(raw)
    require(o.pack() == raw, spec.name, "encodes differently the second time")
    return hash(raw)


def case(name, bg, patches):
    raw = background(name, bg)
    for off, b in patches:
        raw = patch(raw, off, b)
    return identity(SPECS[name], raw)


def case_type(name, otype, k, lens):
    raw = bytearray(objs.sample_bytes(name, k, lens))
    layout.put(raw, 12, "I", otype)
    return identity(SPECS[name], bytes(raw))


def units(tier):
    th = tier == "thorough"
    u = []
    for name in SPECS:
        for i, bg in enumerate(BACKGROUNDS):
            for part in range(4):
                u.append(("single", name, bg, th or i == 0, part))
        u.append(("pairs", name, "s0"))
        u.append(("pairs", name, "ones"))
        u.append(("types", name))
        if th:
            u += [("triples", name, bg, p) for bg in ("s1", "zero") for p in range(8)]
    return sorted(u, key=lambda x: (x[0] != "triples", x[0] != "single"))


def run_unit(u, ctx):
    if u[0] == "single":
        for i, (f, b) in enumerate(fields.singles(u[1], u[3], True)):
            if i % 4 == u[4]:
                ctx.do(case, u[1], u[2], ((f[0], b),))
    elif u[0] == "pairs":
        for c in fields.combos(u[1], 2):
            ctx.do(case, u[1], u[2], c)
    elif u[0] == "triples":
        for i, c in enumerate(fields.combos(u[1], 3, 3)):
            if i % 8 == u[3]:
                ctx.do(case, u[1], u[2], c)
    else:
        for t in SPECS[u[1]].types:
            for k in range(8):
                ctx.do(case_type, u[1], t, k, None)


_ = env
