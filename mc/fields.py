"""Enumeration of field values over the reference layout (shared by C10 and C11)."""
import math
import struct
from itertools import combinations, product

from mc import env, layout, objs
from mc.layout import SPECS, width

FIXED = ("header.base.signature", "header.base.header_size", "header.base.object_size", "header.base.object_type", "ext_data_offset")
BACKGROUNDS = ("s0", "s1", "zero", "ones")


def sweepable(spec):
    return [f for f in spec.header + spec.fields if f[2] not in FIXED and f[2] not in spec.lenfields]


_BG = {}


def background(name, bg):
    """A well-formed object of the type."""
    key = (name, bg)
    if key not in _BG:
        spec = SPECS[name]
        if bg in ("s0", "s1"):
            _BG[key] = objs.sample_bytes(name, int(bg[1]))
        else:
            raw = bytearray(objs.sample_bytes(name, 0))
            for off, fmt, p in sweepable(spec):
                w = width(fmt)
                if p in spec.enums:
                    v = sorted(int(x) for x in getattr(env.constants, spec.enums[p]))
                    layout.put(raw, off, fmt, v[0] if bg == "zero" else v[-1])
                elif fmt == "d":
                    layout.put(raw, off, fmt, 0.0 if bg == "zero" else -1.25)
                else:
                    raw[off:off + w] = (b"\0" if bg == "zero" else b"\xff") * w
            _BG[key] = bytes(raw)
    return _BG[key]


DOUBLES = [0.0, -0.0, 1.0, -1.5, math.pi, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308,
           math.inf, -math.inf, 1e-10, 123456789.125, 0.1]


NANS = [0x7FF8000000000000, 0xFFF8000000000000, 0x7FF8000000000001, 0x7FFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF, 0x7FF0000000000001, 0xFFF123456789ABCD]


def raw_values(spec, f, full, nan=False):
    """Serialised values of one field."""
    off, fmt, path = f
    w = width(fmt)
    if fmt == "d":
        bits = [struct.unpack("<Q", struct.pack("<d", d))[0] for d in DOUBLES] + [1 << i for i in range(64)]
        vals = [struct.pack("<Q", b) for b in bits]
        vals += [struct.pack("<Q", b) for b in NANS]
        return [v for v in vals if nan or not math.isnan(struct.unpack("<d", v)[0])]
    if path in spec.enums:
        known = sorted(int(x) for x in getattr(env.constants, spec.enums[path]))
        return [v.to_bytes(w, "little") for v in known]
    if w == 1:
        return [bytes([i]) for i in range(256)]
    if w == 2 and full:
        return [i.to_bytes(2, "little") for i in range(65536)]
    out = [bytes(w), b"\xff" * w]
    if w <= 8:
        top = 1 << 8 * w
        ints = {1 << i for i in range(8 * w)} | {top - 1 - (1 << i) for i in range(8 * w)} | {(1 << i) - 1 for i in range(8 * w + 1)}
        ints |= {0x1234567890ABCDEF % top, 0xFEDCBA0987654321 % top, 0xDEADBEEFCAFEF00D % top}
        out += [i.to_bytes(w, "little") for i in sorted(ints)]
    base = objs.pattern(w, 0x31, 29)
    for i in range(w):
        for b in range(256) if full or w <= 2 else (0, 1, 0x20, 0x7F, 0x80, 0xFE, 0xFF):
            out.append(base[:i] + bytes([b]) + base[i + 1:])
    return out


def corner_values(spec, f):
    """A few serialised values for combinations of fields."""
    off, fmt, path = f
    w = width(fmt)
    if path in spec.enums:
        known = sorted(int(x) for x in getattr(env.constants, spec.enums[path]))
        return [known[0].to_bytes(w, "little"), known[-1].to_bytes(w, "little")]
    if fmt == "d":
        return [struct.pack("<d", x) for x in (0.0, -1.0, 1e300)]
    return [bytes(w), b"\xff" * w, b"\x01" + bytes(w - 1), bytes(w - 1) + b"\x80"]


def patch(raw, off, b):
    return raw[:off] + b + raw[off + len(b):]


def singles(name, full, nan=False):
    """(bg, off, bytes, path) for every single field value."""
    spec = SPECS[name]
    for f in sweepable(spec):
        wide = full and (not f[2].startswith("header.") or name in ("CanMessage", "FunctionBus"))
        for b in raw_values(spec, f, wide, nan):
            yield f, b


def combos(name, k, maxv=4):
    """All k-sets of fields x corner values."""
    spec = SPECS[name]
    fs = sweepable(spec)
    for group in combinations(fs, k):
        for vals in product(*(corner_values(spec, f)[:maxv] for f in group)):
            yield tuple((f[0], v) for f, v in zip(group, vals))
