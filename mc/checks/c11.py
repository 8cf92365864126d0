"""C11: every field at its place in the layout."""
from operator import attrgetter

from mc import blf, env, fields, layout, objs
from mc.core import Violation, require
from mc.fields import BACKGROUNDS, background, patch
from mc.layout import SPECS, attr, expected, paths, width

PROP = "C11"
LEVEL = "exploration"
RULE = ("A case is one serialised object (or file header) decoded by the real code and compared, attribute by attribute, with the reference "
        "layout, and built from those attributes and encoded. Non-trivial = distinct serialised objects.")
BOUNDS = {
    "quick": "28 types x 4 backgrounds: every 8-bit field value, walking bits, byte patterns and bounds of wider fields; every 16-bit value on one "
             "background; all pairs of fields x corner values; the same for the file header's 28 fields",
    "thorough": "16-bit and byte-string fields exhaustively on all backgrounds; triples of fields",
}
ASSUMPTIONS = ["the layout table in mc/layout.py (checked against tests/data) is the BLF layout", "header size is 32", "no NaN"]

_G = {}


def getters(spec):
    """One function reading all attributes of a decoded object into a list."""
    if spec.name not in _G:
        plain = [p for p in paths(spec) if not p.endswith("]")]
        idx = [p for p in paths(spec) if p.endswith("]")]
        g = attrgetter(*plain)
        _G[spec.name] = (plain + idx, lambda o: list(g(o)) + [attr(o, p) for p in idx])
    return _G[spec.name]


def compare(spec, raw):
    names, read = getters(spec)
    want = expected(spec, raw)
    got = read(objs.cls_of(spec).unpack(raw))
    w = [want[p] for p in names]
    if got != w:
        for p, a, b in zip(names, got, w):
            require(a == b, spec.name, p, "is", a, "instead of", b)
    return want


def case(name, bg, patches):
    spec = SPECS[name]
    raw = background(name, bg)
    for off, b in patches:
        raw = patch(raw, off, b)
    want = compare(spec, raw)
    o = objs.construct(spec, want)
    b = o.pack()
    require(b == raw, name, "built from attributes encodes", bytes(b).hex(), "instead of", raw.hex())
    return hash(raw)


def case_16(name, path, lo, hi):
    """The 16-bit values lo..hi-1: only the attribute differs from the background's."""
    spec = SPECS[name]
    base = background(name, "s0")
    names, read = getters(spec)
    w = expected(spec, base)
    o = objs.construct(spec, w)
    want, i = [w[p] for p in names], names.index(path)
    unpack, off, fmt = objs.cls_of(spec).unpack, spec.off[path], spec.fmt[path]
    *head, last = path.split(".")
    t = o
    for h in head:
        t = getattr(t, h)
    kind = type(getattr(t, last))
    for v in range(lo, hi):
        raw = patch(base, off, v.to_bytes(2, "little"))
        want[i] = val = layout.peek(raw, off, fmt)
        got = read(unpack(raw))
        if got != want:
            for p, a, b in zip(names, got, want):
                require(a == b, name, p, "is", a, "instead of", b, "for", path, "=", val)
        setattr(t, last, kind(val))
        require(o.pack() == raw, name, path, "=", val, "encodes", o.pack().hex(), "instead of", raw.hex())
    return (name, path, lo, hi)


def file_header_bytes(bg):
    b = bytearray(blf.file_header(6) if bg == "plain" else (b"LOGG" + objs.pattern(140, 5, 3) if bg == "pattern" else b"LOGG" + bytes(140)))
    b[12] = 5
    b[13] = 9 if bg != "plain" else 6
    return bytes(b)


def case_header(bg, patches):
    raw = file_header_bytes(bg)
    for off, b in patches:
        raw = patch(raw, off, b)
    G = env.general
    h = G.FileStatistics.unpack(raw)
    r = env.BlfReader(blf.io.BytesIO(raw)).file_statistics
    vals = {}
    for off, fmt, p in layout.FILE_HEADER:
        v = layout.peek(raw, off, fmt)
        vals[p] = v
        if p == "application_id" and v not in set(env.constants.AppId):
            v = 0
            vals[p] = layout.peek(raw, off, fmt)
        require(attr(h, p) == v, "file header", p, "is", attr(h, p), "instead of", v)
        require(attr(r, p) == v, "reader's", p, "is", attr(r, p), "instead of", v)
    times = {}
    for t in ("measurement_start_time", "last_object_time"):
        times[t] = G.SystemTime(**{k.split(".")[1]: x for k, x in vals.items() if k.startswith(t)})
    built = G.FileStatistics(**{k: x for k, x in vals.items() if "." not in k}, **times)
    require(built.pack() == raw, "file header built from attributes encodes", built.pack().hex(), "instead of", raw.hex())
    return hash(raw)


def units(tier):
    th = tier == "thorough"
    u = []
    for name in SPECS:
        for bg in BACKGROUNDS:
            for part in range(2):
                u.append(("single", name, bg, th, part))
        u.append(("pairs", name, "s0" if not th else "s1", 4 if th else 3))
        if th:
            u.append(("pairs", name, "zero", 4))
            u += [("triples", name, "s0", p) for p in range(8)]
        for off, fmt, p in fields.sweepable(SPECS[name]):
            if width(fmt) == 2 and not p.endswith("]") and (not p.startswith("header.") or name in ("CanMessage", "FunctionBus")):
                u.append(("w16", name, p))
    for bg in ("plain", "pattern", "zero"):
        u += [("header", bg, th or bg == "pattern", part) for part in range(16)]
    return sorted(u, key=lambda x: (x[0] != "triples", x[0] != "header", x[0] != "w16"))


def run_unit(u, ctx):
    if u[0] == "single":
        for i, (f, b) in enumerate(fields.singles(u[1], u[3])):
            if i % 2 == u[4]:
                ctx.do(case, u[1], u[2], ((f[0], b),))
    elif u[0] == "pairs":
        for c in fields.combos(u[1], 2, u[3]):
            ctx.do(case, u[1], u[2], c)
    elif u[0] == "triples":
        for i, c in enumerate(fields.combos(u[1], 3, 2)):
            if i % 8 == u[3]:
                ctx.do(case, u[1], u[2], c)
    elif u[0] == "w16":
        for v in range(0, 65536, 512):
            ctx.do(case_16, u[1], u[2], v, v + 512)
        ctx.count("sixteen_bit_values", 65536)
    else:
        fs = [f for f in layout.FILE_HEADER if f[2] not in ("signature",)]
        spec = SPECS["CanMessage"]
        cases = [((f[0], b),) for f in fs for b in fields.raw_values(spec, f, u[2] and f[1] != "64s")]
        cases += [((f[0], a), (g[0], b)) for i, f in enumerate(fs) for g in fs[:i]
                  for a in fields.corner_values(spec, f) for b in fields.corner_values(spec, g)]
        for c in cases[u[3]::16]:
            ctx.do(case_header, u[1], c)


_ = Violation
