"""C12: variable-length parts at every length and content."""
from itertools import product

from mc import layout, objs
from mc.core import require
from mc.layout import SPECS, attr, part_text

PROP = "C12"
LEVEL = "exploration"
RULE = ("A case is one object with given part lengths and contents: decoding must give the parts exactly, encoding (of the decoded object and of "
        "one built from attributes) the identical bytes. Non-trivial = distinct serialised objects.")
BOUNDS = {
    "quick": "13 types; one part: lengths 0..2000 and 1000..65536 boundaries; two parts: all pairs 0..90 and of 9 boundary lengths; three parts: all triples "
             "0..20 and of 6 boundary lengths; all 251 cp1252 bytes at every position of short texts in every part, all 63,001 pairs of them; all Unicode code points in "
             "every UTF-8 part, and every one below 65,536 (a sixteenth of the others) alone, at its start, middle and end; all 256 bytes at every position of data parts; terminators 0-3 behind texts of length 0..20",
    "thorough": "two parts: all pairs 0..260; three parts: all triples 0..40; one part: all lengths 0..9000; every code point alone, at the start, middle and end",
}
ASSUMPTIONS = ["the object ends with its last part (no slack behind it)", "bytes undefined in the encoding are decided by C25"]
VAR = [n for n, s in SPECS.items() if s.parts]
DEFINED = [b for b in range(256) if b not in (0x81, 0x8D, 0x8F, 0x90, 0x9D)]


def limit(spec, i):
    lf = spec.parts[i][1]
    return {"B": 255, "H": 65535}.get(spec.fmt.get(lf), 1 << 20)


def filler(kind, n, seed):
    """n bytes of valid content that differ by part and position."""
    if kind == "utf8":
        return (bytes(65 + (seed * 7 + j * 3) % 26 for j in range(min(n, 78))) * (n // 78 + 1))[:n]
    if kind in ("text", "textz"):
        return bytes(DEFINED[(1 + seed * 31 + j * 5) % 250 + 1] for j in range(min(n, 250))) * (n // 250) + bytes(
            DEFINED[(1 + seed * 31 + j * 5) % 250 + 1] for j in range(n % 250)) if n > 250 else bytes(
            DEFINED[(1 + seed * 31 + j * 5) % 250 + 1] for j in range(n))
    return bytes((seed * 37 + j * 11 + 1) & 0xFF for j in range(n))


def check(spec, parts, k=0, otype=None, ext=None):
    vals = {p: layout.peek(objs.sample_bytes(spec.name, k), off, fmt) for off, fmt, p in spec.header + spec.fields
            if p not in spec.lenfields and not p.startswith("header.base") and p != "ext_data_offset"}
    raw = layout.encode(spec, vals, parts, otype=otype, ext=ext)
    o = objs.cls_of(spec).unpack(raw)
    for a, lf, kind in spec.parts:
        want = part_text(kind, parts[a])
        got = getattr(o, a)
        require(type(got) is type(want) and got == want, spec.name, a, "is", repr(got)[:200], "instead of", repr(want)[:200])
        if lf:
            require(attr(o, lf) == len(parts[a]), spec.name, lf, "is", attr(o, lf))
    require(o.pack() == raw, spec.name, "encodes", o.pack()[:300].hex(), "instead of", raw[:300].hex())
    built = objs.construct(spec, layout.expected(spec, raw))
    require(built.pack() == raw, spec.name, "built from attributes encodes", built.pack()[:300].hex(), "instead of", raw[:300].hex())
    require(built == o, spec.name, "built from attributes is not equal to the decoded one")
    return hash(raw)


def case_len(name, lens, k):
    spec = SPECS[name]
    parts = {a: filler(kind, n, i + k) for i, ((a, _, kind), n) in enumerate(zip(spec.parts, lens))}
    return check(spec, parts, k % 2, spec.types[k % len(spec.types)])


def case_content(name, contents):
    spec = SPECS[name]
    return check(spec, {a: c for (a, _, _), c in zip(spec.parts, contents)})


def case_unicode(name, part, start):
    """256 consecutive code points as the text of one part."""
    spec = SPECS[name]
    text = "".join(chr(c) for c in range(start, start + 256) if not 0xD800 <= c < 0xE000)
    raw = text.encode("utf-8")
    return check(spec, {a: raw if i == part else b"q" * (i + 1) for i, (a, _, _) in enumerate(spec.parts)})


def case_point(name, part, start):
    """Each of 64 consecutive code points alone, at the start, in the middle and at the end of one part."""
    spec = SPECS[name]
    out = []
    for c in range(start, start + 64):
        if not 0xD800 <= c < 0xE000:
            for text in (chr(c), chr(c) + "a", "e" + chr(c) + "b", "A" + chr(c)):
                parts = {a: text.encode("utf-8") if i == part else b"q" * (i + 1) for i, (a, _, _) in enumerate(spec.parts)}
                raw = layout.encode(spec, {}, parts)
                o = objs.cls_of(spec).unpack(raw)
                got = getattr(o, spec.parts[part][0])
                require(got == text, spec.name, spec.parts[part][0], "is", ascii(got), "instead of", ascii(text))
                require(o.pack() == raw, spec.name, "encodes", o.pack().hex(), "instead of", raw.hex())
        out.append(c)
    return name, part, start


def case_pairs(name, part, first):
    """Every two-byte text of one part that starts with the given byte."""
    spec = SPECS[name]
    a, _, kind = spec.parts[part]
    base = {x: b"q" * (i + 1) for i, (x, _, _) in enumerate(spec.parts)}
    for second in DEFINED:
        base[a] = bytes([first, second])
        raw = layout.encode(spec, {}, base)
        o = objs.cls_of(spec).unpack(raw)
        require(getattr(o, a) == part_text(kind, base[a]), spec.name, a, "is", ascii(getattr(o, a)), "instead of", base[a])
        require(o.pack() == raw, spec.name, "encodes", o.pack().hex(), "instead of", raw.hex())
    return name, part, first


def case_ext(name, n):
    """CAN FD types with the extended section behind the data."""
    spec = SPECS[name]
    if spec.end + n > 255:
        return None
    return check(spec, {"data": filler("bytes", n, 3)}, ext=(0x11223344, 0x55667788))


def units(tier):
    th = tier == "thorough"
    u = []
    for name in VAR:
        n = len(SPECS[name].parts)
        for p in range(8):
            u.append(("len", name, {1: 9000 if th else 2000, 2: 260 if th else 90, 3: 40 if th else 20}[n], p))
        u.append(("big", name))
        u.append(("content", name))
        for i, (_, _, kind) in enumerate(SPECS[name].parts):
            if kind in ("text", "textz"):
                u.append(("pairs", name, i))
            if kind == "utf8":
                u += [("unicode", name, i, p) for p in range(8)]
                u += [("points", name, i, p, 0x110000 if th else 0x10000) for p in range(16)]
    return u


def run_unit(u, ctx):
    name = u[1]
    spec = SPECS[name]
    n = len(spec.parts)
    top = [limit(spec, i) for i in range(n)]
    if u[0] == "len":
        for i, lens in enumerate(product(range(u[2] + 1), repeat=n)):
            if i % 8 == u[3] and all(x <= t for x, t in zip(lens, top)):
                ctx.do(case_len, name, lens, i % 4)
    elif u[0] == "big":
        B = {1: (0, 1, 254, 255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 300000),
             2: (0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536), 3: (0, 1, 255, 256, 257, 65536)}[n]
        for i, lens in enumerate(product(B, repeat=n)):
            if all(x <= t for x, t in zip(lens, top)):
                ctx.do(case_len, name, lens, i % 3)
        if spec.special in ("fd64", "fde64"):
            for k in range(256):
                ctx.do(case_ext, name, k)
    elif u[0] == "content":
        for i, (_, _, kind) in enumerate(spec.parts):
            around = [b"AB", b"x", b"CDE"][:n]
            for ln in (1, 2, 3, 4):
                for pos in range(ln):
                    for b in range(256):
                        if kind in ("text", "textz") and b not in DEFINED or kind == "utf8" and b > 127:
                            continue
                        c = list(around)
                        c[i] = b"abcd"[:pos] + bytes([b]) + b"wxyz"[pos + 1:ln]
                        ctx.do(case_content, name, tuple(c))
            for ln in range(21):
                for z in range(4):
                    c = list(around)
                    c[i] = b"t" * ln + bytes(z)
                    ctx.do(case_content, name, tuple(c))
                    c[i] = bytes(z) + b"t" * ln
                    ctx.do(case_content, name, tuple(c))
            for s in (b" ", b"\t", b"\r\n", b"\xff", b"\xa0", b"  a  ", b"\n", b"LOBJ", b"\0a\0b\0", b"%s{}\\x00"):
                if kind != "utf8" or max(s) < 128:
                    c = list(around)
                    c[i] = s
                    ctx.do(case_content, name, tuple(c))
    elif u[0] == "pairs":
        for b in DEFINED:
            ctx.do(case_pairs, name, u[2], b)
    elif u[0] == "points":
        for s in range(u[3] * 64, u[4], 64 * 16):
            ctx.do(case_point, name, u[2], s)
        if u[4] == 0x10000:
            for s in range(0x10000 + u[3] * 64, 0x110000, 64 * 16 * 16):
                ctx.do(case_point, name, u[2], s)
    else:
        for s in range(u[3] * 256, 0x110000, 256 * 8):
            ctx.do(case_unicode, name, u[2], s)
