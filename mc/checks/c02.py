"""C02: every way to cut an object stream into containers gives the same objects."""
import zlib
from itertools import combinations, product

from mc import blf, objs
from mc.blf import container, file_header, pad
from mc.core import require

PROP = "C02"
LEVEL = "model_checking"
RULE = ("A case is one log file: an object stream, a set of container cuts, a container encoding and a file padding; it is read by the "
        "real BlfReader and must give the stream's objects byte for byte. Non-trivial = distinct file contents.")
BOUNDS = {
    "quick": "6 container encodings; all cut sets of size 0-2 in streams up to 152 bytes, of size 3 in a 48-byte stream; all 2^12 cut subsets in 12-byte "
             "windows at 5 places; every cut position and every uniform cut width in streams of all 28 types; up to 2 empty containers at all "
             "places; all placements (bare, own, shared container) of 5 objects with every cut of every container; bare objects in all gaps between the 2-3 containers of a cut stream; "
             "390 values of the containers' reserved bytes (every bit, every repeated byte); "
             "containers of one length (17 bytes to 140 KB) that agree in the first or last bytes, in both, in all but one byte (any of 600), or in their CRC-32 and Adler-32, in 4 orders and encodings; "
             "objects of up to 16 MiB in up to 14,000 containers",
    "thorough": "as quick with all cut sets of size 3 in streams up to 152 bytes and of size 4 in the 48-byte stream, 2^16 subsets in 16-byte windows, all placements of 7 objects",
}
ASSUMPTIONS = ["an object's decoding does not depend on the stream it stands in (per-type decoding is decided by C10-C13)"]

MODES = ("plain", "legacy", "zip", "zip-legacy", "stored", "mixed")


def _streams():
    ob, sm = objs.opaque_bytes, objs.sample_bytes
    look = b"LOBJ\x10\x00\x01\x00\x10\x00\x00\x00\x17\x00\x00\x00"
    return {
        "duo": ([ob(16), ob(29, look)], 8),
        "odd": ([ob(17, b"LOBJ"), sm("CanMessage"), ob(16), ob(22, b"OBJ")], 8),
        "tight": ([ob(19, b"LOB"), ob(16), sm("CanErrorFrame"), ob(30, look)], 1),
        "four": ([sm("AppText", 0, (7,)), ob(21, b"\0L"), sm("EventComment", 0, (0,)), ob(16)], 4),
        "all": ([sm(n, k) for n in objs.SPECS for k in range(2)] + [ob(1000, look)], 8),
        "rev": ([sm(n, k) for n in reversed(list(objs.SPECS)) for k in (1, 0)] + [ob(777, look)], 1),
    }


_S = {}
_AL = {}


def stream(name):
    if not _S:
        for k, (raws, al) in _streams().items():
            _S[k] = (raws, b"".join(pad(r, al) for r in raws))
            _AL[k] = al
    return _S[name]


def one(piece, mode, i):
    if mode == "plain":
        return container(piece)
    if mode == "legacy":
        return container(piece, flavour="legacy")
    if mode == "zip":
        return container(piece, 6)
    if mode == "zip-legacy":
        return container(piece, 1, flavour="legacy")
    if mode == "stored":
        return container(piece)
    return container(piece, 6 if i % 2 else 0)


def level(mode):
    return 0 if mode in ("plain", "legacy") else 6


def build(pieces, mode, align=8):
    return file_header(level(mode)) + b"".join(pad(one(p, mode, i), align) for i, p in enumerate(pieces))


def cut(s, cuts):
    b = (0,) + tuple(cuts) + (len(s),)
    return [s[x:y] for x, y in zip(b, b[1:])]


def case_cuts(name, cuts, mode, align):
    raws, s = stream(name)
    data = build(cut(s, cuts), mode, align)
    blf.same_objects(blf.read_all(data), raws)
    return hash(data)


def case_width(name, w, mode):
    return case_cuts(name, tuple(range(w, len(stream(name)[1]), w)), mode, 8)


def case_place(places, k, mode):
    """places[i]: 0 bare in the file, 1 opens a container, 2 continues the container before; k: cut position in every
    container (cut modulo its length)."""
    raws = stream("odd")[0] + stream("four")[0]
    raws = raws[:len(places)]
    groups = []
    for r, p in zip(raws, places):
        if p == 2 and groups and groups[-1][0]:
            groups[-1][1] += pad(r, 8)
        else:
            groups.append([p != 0, pad(r, 8)])
    data = file_header(level(mode))
    i = 0
    for incont, s in groups:
        if not incont:
            data += pad(s, 8)
            continue
        for piece in cut(s, (k % len(s),)):
            data += pad(one(piece, mode, i), 8)
            i += 1
    blf.same_objects(blf.read_all(data), raws)
    return hash(data)


def case_between(name, cuts, gaps, mode):
    """Bare objects in the file between the containers of a cut stream: the bare ones come where they stand, an object that
    is split over containers when it is complete."""
    raws, s = stream(name)
    ends, pos, al = [], 0, _AL[name]
    for r in raws:
        ends.append(pos + len(r))
        pos += len(pad(r, al))
    data, want, done, pos = file_header(level(mode)), [], 0, 0
    bare = [objs.opaque_bytes(24, b"JBO"), objs.sample_bytes("CanErrorFrame"), objs.opaque_bytes(16), objs.sample_bytes("AppText", 1, (9,))]
    pieces = cut(s, cuts)
    for i in range(len(pieces) + 1):
        if gaps >> i & 1:
            b = bare[i % 4]
            data += pad(b, 8)
            want.append(b)
        if i < len(pieces):
            data += pad(one(pieces[i], mode, i), 8)
            pos += len(pieces[i])
            while done < len(raws) and ends[done] <= pos:
                want.append(raws[done])
                done += 1
    blf.same_objects(blf.read_all(data), want)
    return hash(data)


def case_reserved(name, cuts, mode, value, which):
    """The reserved bytes of the containers (18 to 23 and 28 to 31) hold something; which: bit set of the containers."""
    raws, s = stream(name)
    data = file_header(level(mode))
    for i, p in enumerate(cut(s, cuts)):
        c = bytearray(one(p, mode, i))
        if which >> i & 1:
            c[18:24] = value[:6]
            c[28:32] = value[6:]
        data += pad(c, 8)
    blf.same_objects(blf.read_all(data), raws)
    return hash(data)


def reserved():
    yield from ((1 << k).to_bytes(10, "little") for k in range(80))
    yield from (bytes([b]) * 10 for b in range(1, 256))
    for i in range(10):
        for b in (2, 3, 76, 128, 255):
            yield bytes(i) + bytes([b]) + bytes(9 - i)
    yield from ((b"LOBJ" * 3)[:10], b"\x02\0" * 5, b"\0\x02" * 5, bytes(range(1, 11)))


def huge_stream():
    if "huge" not in _S:
        raws = [objs.opaque_bytes(n, bytes([i + 1])) for i, n in enumerate((24, 70000, 40, (3 << 20) + 5, 16, (1 << 24) + 100, 31, 24))]
        _S["huge"] = (raws, b"".join(pad(r, 8) for r in raws))
    return _S["huge"]


def case_huge(w, mode):
    """Objects of many megabytes, and cut into tens of thousands of containers."""
    raws, s = huge_stream()
    if w < 200:
        raws, s = raws[:3], s[:70064]
    data = bytearray(file_header(level(mode)))
    for i, p in enumerate(range(0, len(s), w)):
        data += pad(one(s[p:p + w], mode, i), 8)
    k = 0
    for k, o in enumerate(blf.iter_read(data, len(raws)), 1):
        require(o.pack() == raws[k - 1], "object", k, "differs")
    require(k == len(raws), k, "objects instead of", len(raws), "cut into pieces of", w)
    return (w, mode)


def twins():
    """Two byte strings of the same length, Adler-32 and CRC-32: of 40 places where (+1, -2, +1) keeps the Adler-32, those
    are changed whose effects on the CRC-32 cancel out."""
    if "twins" not in _S:
        a = b"@B@" * 40
        basis, d = {}, 0
        for i in range(40):
            diff = bytes(3 * i) + b"\1\2\1" + bytes(117 - 3 * i)
            v, m = zlib.crc32(diff) ^ zlib.crc32(bytes(120)), 1 << i
            while v and v.bit_length() in basis:
                bv, bm = basis[v.bit_length()]
                v, m = v ^ bv, m ^ bm
            if not v:
                d = m
                break
            basis[v.bit_length()] = (v, m)
        b = b"".join(b"A@A" if d >> i & 1 else b"@B@" for i in range(40))
        assert a != b and zlib.crc32(a) == zlib.crc32(b) and zlib.adler32(a) == zlib.adler32(b)
        _S["twins"] = a, b
    return _S["twins"]


def alike(kind, n, at):
    """Three payloads of n bytes, different from each other only in a part."""
    base = objs.noise(n, 5)
    if kind == "byte":
        return [base, *(base[:at] + bytes([base[at] ^ x]) + base[at + 1:] for x in (1, 128))]
    if kind == "tail":
        return [base, *(base[:at] + objs.noise(n - at, x) for x in (6, 7))]
    if kind == "head":
        return [base, *(objs.noise(at, x) + base[at:] for x in (6, 7))]
    if kind == "middle":
        return [base, *(base[:at] + objs.noise(n - 2 * at, x) + base[n - at:] for x in (6, 7))]
    if kind == "order":
        k = at % 100 + 1
        return [base, base[k:] + base[:k], base[::-1]]
    a, b = twins()
    return [base[:at] + x + base[at:] for x in (a, b, a[:60] + b[60:])]


ALIKE = ("ABA", "AAB", "ABCABC", "ABBAAC")


def case_alike(kind, n, at, how, order):
    """Containers that look the same at a glance: of one length, with the same beginning, end or checksum."""
    pay = dict(zip("ABC", alike(kind, n, at)))
    raws = [objs.opaque_bytes(16 + len(pay[c]), pay[c]) for c in order]
    data = file_header(6 if how[:3] == "zip" else 0)
    for i, r in enumerate(raws):
        if how == "zip-stored":
            z = zlib.compress(r, 0)
            c = bytearray(container(z))
            blf.struct.pack_into("<H", c, 16, 2)
            blf.struct.pack_into("<I", c, 24, len(r))
        else:
            c = container(r, 6 if how == "zip" or how == "zip-mixed" and i % 2 else 0)
        data += pad(c, 8)
    blf.same_objects(blf.read_all(data), raws)
    return (kind, n, at, how, order)


def case_alike_cut(n, at, how):
    """The same with one object cut over the containers: the stream's pieces are alike."""
    a, b, c = alike("tail", n, at)
    raw = objs.opaque_bytes(16 + 6 * n, b"".join((a, b, a, c, b, b)))
    data = file_header(6 if how[:3] == "zip" else 0) + pad(container(raw[:16], 6 * (how == "zip")), 8)
    for p in range(16, len(raw), n):
        data += pad(container(raw[p:p + n], 6 * (how == "zip")), 8)
    blf.same_objects(blf.read_all(data), [raw])
    return (n, at, how)


def units(tier):
    th = tier == "thorough"
    u = []
    for mode in MODES:
        for name in ("duo", "odd", "tight", "four"):
            u.append(("sets", name, mode, 2))
        u.append(("sets3", "duo", mode, 4 if th else 3))
        if th:
            for name in ("odd", "tight", "four"):
                n = len(stream(name)[1])
                u += [("first", name, mode, 3, c) for c in range(n + 1)]
        for name, at in (("duo", 12), ("duo", 30), ("odd", 20), ("tight", 15), ("four", 44)):
            w = 16 if th else 12
            if not th or mode in ("plain", "zip", "mixed"):
                u += [("window", name, mode, at, w, h) for h in range(16)]
        for name in ("all", "rev"):
            u += [("width", name, mode, r) for r in range(8)] + [("one", name, mode, r) for r in range(8)]
        u.append(("empty", "odd", mode))
        if "legacy" not in mode:
            u += [("reserved", name, mode) for name in ("odd", "four")]
        u += [("between", name, mode, th) for name in ("duo", "odd", "four")]
        u += [("huge", w, mode) for w in (5, 64, 300000, 1 << 20, (1 << 23) + 1, 1 << 25)]
        for p in range(3):
            u.append(("place", mode, 7 if th else 5, p))
    u += [("alike", how, k, th) for how in ("plain", "zip", "zip-stored", "zip-mixed") for k in range(4)]
    return u


def do_cuts(ctx, name, cuts, mode, align):
    """A state is a reader between two containers (position in the stream), a transition one container."""
    ctx.do(case_cuts, name, cuts, mode, align)
    p = 0
    for c in cuts + (len(stream(name)[1]),):
        ctx.state(name, mode, p)
        ctx.trans(name, mode, p, c)
        p = c


def run_unit(u, ctx):
    kind = u[0]
    if kind in ("sets", "sets3"):
        n = len(stream(u[1])[1])
        for k in range(u[3] + 1):
            for c in combinations(range(n + 1), k):
                do_cuts(ctx, u[1], c, u[2], 1 if len(c) % 2 else 8)
    elif kind == "first":
        n = len(stream(u[1])[1])
        for rest in combinations(range(u[4] + 1, n + 1), u[3] - 1):
            do_cuts(ctx, u[1], (u[4],) + rest, u[2], 4)
    elif kind == "window":
        _, name, mode, at, w, h = u
        for m in range(h, 1 << w, 16):
            do_cuts(ctx, name, tuple(at + i for i in range(w) if m >> i & 1), mode, 8)
    elif kind == "width":
        for w in range(1 + u[3], len(stream(u[1])[1]), 8):
            if w > 120 and w % 7 and w % 16:
                continue
            ctx.do(case_width, u[1], w, u[2])
    elif kind == "one":
        for c in range(u[3], len(stream(u[1])[1]) + 1, 8):
            do_cuts(ctx, u[1], (c,), u[2], 8)
    elif kind == "huge":
        ctx.cpu_seconds = 120
        ctx.do(case_huge, u[1], u[2])
    elif kind == "reserved":
        n = len(stream(u[1])[1])
        for value in reserved():
            for cuts in ((), (n // 2,), (20, n - 9), (16, 17, n - 1)):
                for which in {1, 2, (1 << len(cuts) + 1) - 1}:
                    ctx.do(case_reserved, u[1], cuts, u[2], value, which)
    elif kind == "alike":
        _, how, part, th = u
        todo = [("byte", 600, at) for at in range(600)]
        todo += [(k, n, at) for k in ("tail", "head") for n in (48, 600, 5000, 70000)
                 for at in sorted({x for j in range(17) for x in (2 ** j - 1, 2 ** j, 2 ** j + 1, 2 ** j - 16, 3 * 2 ** j) if 0 <= x < n})]
        todo += [("byte", n, at) for n in (5000, 70000, 140000)
                 for at in sorted({x for j in range(18) for x in (2 ** j, n - 2 ** j, n // 2 + 2 ** j) if 0 <= x < n})]
        todo += [("middle", n, 2 ** j) for n in (600, 5000, 70000) for j in range(16) if 2 ** (j + 1) < n]
        todo += [("order", n, at) for n in (48, 600, 5000) for at in range(47)]
        todo += [("crc", n, at) for n in (1, 16, 480, 5000) for at in (0, n // 2, n)]
        for i, t in enumerate(todo):
            if i % 4 == part:
                for order in ALIKE if th or t[1] <= 600 else ALIKE[2:3]:
                    ctx.do(case_alike, *t, how, order)
        if part == 0:
            for n in (1, 2, 16, 33, 100, 600, 5000):
                for at in sorted({x for j in range(13) for x in (2 ** j - 1, 2 ** j) if x < n}):
                    ctx.do(case_alike_cut, n, at, how)
    elif kind == "empty":
        n = len(stream(u[1])[1])
        for a in range(n + 1):
            do_cuts(ctx, u[1], (a, a), u[2], 8)
            do_cuts(ctx, u[1], (a, a, a), u[2], 8)
        for a, b in combinations(range(0, n + 1), 2):
            do_cuts(ctx, u[1], (a, a, b, b), u[2], 4)
    elif kind == "between":
        n = len(stream(u[1])[1])
        for a in range(n + 1):
            for g in range(1, 8):
                ctx.do(case_between, u[1], (a,), g, u[2])
            for b in range(a, n + 1, 1 if u[3] or u[1] == "duo" else 5):
                for g in (2, 4, 6, 15) if not u[3] else range(1, 16):
                    ctx.do(case_between, u[1], (a, b), g, u[2])
    else:
        for rest in product(range(3), repeat=u[2] - 1):
            for k in range(0, 120, 1 if u[2] <= 5 else 3):
                ctx.do(case_place, (u[3],) + rest, k, u[1])
    ctx.count("traces_validated_against_impl", ctx.n)
