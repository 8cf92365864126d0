"""C21: convenience constructors."""
from itertools import combinations, product

from mc import blf, env, layout, objs
from mc.core import Violation, require
from mc.layout import SPECS, attr

PROP = "C21"
LEVEL = "exploration"
RULE = ("A case is one call of a constructor: the object is compared attribute by attribute and byte by byte with the reference codec, written, read back, or "
        "must be refused. Non-trivial = distinct argument tuples.")
BOUNDS = {
    "quick": "CanMessage, CanMessage2, CanFdMessage: payload lengths 0..limit x 8 fillings, every byte value at every payload position, 40 lengths above the limit, every "
             "parameter at 2^k, 2^k-1 and its ends, all pairs of parameters at 5 values; ObjectHeader.new, LogContainer.new: parameters likewise; bytes, bytearray",
    "thorough": "all triples of parameters at 5 values, all lengths above the limit up to 1000",
}
ASSUMPTIONS = ["arguments are in their fields' ranges"]
K = env.constants
PARAMS = {
    "CanMessage": [("object_flags", 32), ("object_time_stamp", 64), ("channel", 16), ("flags", 8), ("dlc", 8), ("frame_id", 32)],
    "CanMessage2": [("object_flags", 32), ("object_time_stamp", 64), ("channel", 16), ("flags", 8), ("dlc", 8), ("frame_id", 32), ("frame_length", 32), ("bit_count", 8)],
    "CanFdMessage": [("object_flags", 32), ("object_time_stamp", 64), ("channel", 16), ("flags", 8), ("dlc", 8), ("frame_id", 32), ("frame_length", 32),
                     ("arb_bit_count", 8), ("canfd_flags", 8)],
}
LIMIT = {"CanMessage": 8, "CanMessage2": 8, "CanFdMessage": 64}
NAMES = {"object_flags": "header.object_flags", "object_time_stamp": "header.object_time_stamp"}


def args_of(name, changes):
    v = {"object_flags": 2, "object_time_stamp": 123456789, "channel": 1, "flags": 1, "dlc": 8, "frame_id": 0x123, "frame_length": 1000, "bit_count": 100,
         "arb_bit_count": 30, "canfd_flags": 3}
    kw = {p: v[p] for p, _ in PARAMS[name]}
    kw.update(changes)
    return kw


def case_new(name, changes, data, mutable):
    cls = getattr(env.can, name)
    spec = SPECS[name]
    kw = args_of(name, dict(changes))
    vals = {NAMES.get(p, p): v for p, v in kw.items()}
    vals["data"] = bytes(data).ljust(LIMIT[name], b"\0")
    if name == "CanFdMessage":
        vals["valid_data_bytes"] = len(data)
    raw = layout.encode(spec, vals)
    kw["object_flags"] = K.ObjFlags(kw["object_flags"])
    if "canfd_flags" in kw:
        kw["canfd_flags"] = K.CanFdFlags(kw["canfd_flags"])
    o = cls.new(data=bytearray(data) if mutable else data, **kw)
    require(type(o) is cls, "type", type(o))
    want = layout.expected(spec, raw)
    for p in layout.paths(spec):
        got = attr(o, p)
        if p == "data":
            require(bytes(got).ljust(LIMIT[name], b"\0") == want[p], name, "data is", got)
        else:
            require(got == want[p], name, p, "is", repr(got), "instead of", repr(want[p]))
    require(o.pack() == raw, name, "encodes", o.pack().hex(), "instead of", raw.hex())
    sink = blf.write_log([objs.from_bytes(objs.opaque_bytes(17)), o], 50)
    got = blf.read_all(sink.final)
    require(len(got) == 2 and type(got[1]) is cls and got[1].pack() == raw, name, "is read back as", got[1:])
    for p in layout.paths(spec):
        require(attr(got[1], p) == want[p], name, p, "is read back as", repr(attr(got[1], p)))
    return (name, changes, data, mutable)


def case_refused(name, n):
    try:
        o = getattr(env.can, name).new(data=bytes(n), **args_of(name, {}))
    except ValueError:
        return (name, n)
    raise Violation("%s accepted %d bytes, packs %d" % (name, n, len(o.pack())))


def case_header(size, otype, flags, version, ts):
    h = env.general.ObjectHeader.new(size, K.ObjType(otype), K.ObjFlags(flags), version, ts)
    raw = bytearray(32)
    vals = {"header.base.signature": b"LOBJ", "header.base.header_size": 32, "header.base.header_version": 1, "header.base.object_size": size,
            "header.base.object_type": otype, "header.object_flags": flags, "header.client_index": 0, "header.object_version": version,
            "header.object_time_stamp": ts}
    for off, fmt, p in layout.HEADER:
        layout.put(raw, off, fmt, vals[p])
    require(h.pack() == bytes(raw), "header encodes", h.pack().hex(), "instead of", raw.hex())
    require(env.general.ObjectHeader.unpack(bytes(raw)) == h, "decoded header differs")
    return (size, otype, flags, version, ts)


def case_container(n, ts, flags, client):
    payload = objs.opaque_bytes(16) + b"\0" * n
    c = env.general.LogContainer.new(payload, ts, K.ObjFlags(flags), client)
    raw = c.pack()
    want = bytearray(32)
    vals = {"header.base.signature": b"LOBJ", "header.base.header_size": 32, "header.base.header_version": 1, "header.base.object_size": 32 + len(payload),
            "header.base.object_type": 10, "header.object_flags": flags, "header.client_index": client, "header.object_version": 0,
            "header.object_time_stamp": ts}
    for off, fmt, p in layout.HEADER:
        layout.put(want, off, fmt, vals[p])
    require(raw == bytes(want) + payload, "container encodes", raw[:60].hex(), "instead of", want.hex())
    require(env.general.LogContainer.unpack(raw) == c, "decoded container differs")
    blf.same_objects(blf.read_all(blf.file_header(0) + raw), [objs.opaque_bytes(16)])
    return (n, ts, flags, client)


def bits(w):
    top = 1 << w
    return sorted({0, 1, top - 1, top - 2} | {1 << i for i in range(w)} | {(1 << i) - 1 for i in range(w + 1)})


def corners(w):
    top = 1 << w
    return (0, 1, top - 1, top >> 1, 0x123456789ABCDEF0 % top)


def units(tier):
    th = tier == "thorough"
    u = []
    for name in PARAMS:
        u += [("payload", name), ("single", name), ("refused", name, th)]
        u += [("combos", name, k, p) for k in ((2, 3) if th else (2,)) for p in range(8)]
    return u + [("header",), ("container",)]


def run_unit(u, ctx):
    kind = u[0]
    if kind == "payload":
        lim = LIMIT[u[1]]
        for n in range(lim + 1):
            for fill in (b"\0" * n, b"\xff" * n, objs.pattern(n), (b"LOBJ" * n)[:n], b"\x01" + b"\0" * n, (b"\0" * n + b"\x01"), b"a" * n, (b"\0\xff" * n)):
                for mutable in (False, True):
                    ctx.do(case_new, u[1], (), fill[:n] if fill[-1:] != b"\x01" else fill[-n:] if n else b"", mutable)
            for pos in range(n):
                for b in range(256) if n in (1, lim) or lim == 8 else (0, 1, 128, 255):
                    d = bytearray(objs.pattern(n, 1, 3))
                    d[pos] = b
                    ctx.do(case_new, u[1], (), bytes(d), False)
    elif kind == "single":
        for p, w in PARAMS[u[1]]:
            for v in bits(w) if w > 8 else range(256):
                for n in (0, 3, 8):
                    ctx.do(case_new, u[1], ((p, v),), objs.pattern(n), False)
    elif kind == "combos":
        for i, group in enumerate(combinations(PARAMS[u[1]], u[2])):
            for j, vals in enumerate(product(*(corners(w) for _, w in group))):
                if (i + j) % 8 == u[3]:
                    ctx.do(case_new, u[1], tuple((p, v) for (p, _), v in zip(group, vals)), objs.pattern(j % (LIMIT[u[1]] + 1)), bool(j & 1))
    elif kind == "refused":
        lim = LIMIT[u[1]]
        for n in list(range(lim + 1, 1001 if u[2] else lim + 41)) + [255, 256, 257, 65535, 65536, 100000]:
            ctx.do(case_refused, u[1], n)
    elif kind == "header":
        for s, t, f, v, ts in product((16, 32, 48, 0xFFFFFFFF), (0, 1, 10, 86, 128), (0, 1, 2, 3, 0xFFFFFFFF), (0, 1, 0xFFFF), (0, 1, 2**32, 2**63, 2**64 - 1)):
            ctx.do(case_header, s, t, f, v, ts)
        for t in range(129):
            ctx.do(case_header, 32, t, 2, 0, t)
    else:
        for n in range(64):
            ctx.do(case_container, n, n, 0, 0)
        for ts, f, c in product((0, 1, 2**64 - 1), (0, 2, 0xFFFF), (0, 0xFFFF)):
            ctx.do(case_container, 5, ts, f if f != 0xFFFF else 2, c)
