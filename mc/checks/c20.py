"""C20: headers and sub-records at every offset."""
from itertools import product

from mc import env, layout, objs
from mc.core import require
from mc.layout import SPECS, attr

PROP = "C20"
LEVEL = "exploration"
RULE = ("A case is one record (header or sub-record class, serialised bytes) at one offset in one buffer: decoding there must give what decoding the bytes "
        "alone gives and the layout says, encoding there must write exactly its bytes. Non-trivial = distinct (class, bytes, offset, surroundings).")
BOUNDS = {
    "quick": "8 record classes x 40 contents x offsets 0..80, 255..257, 4095..4097, 65537 x 5 surroundings x up to 4 lengths of rest; decoding from bytes "
             "and bytearray; every 16-bit field value of the file header's times at their place; 8 contents with 0..299 and around 512..65536 bytes behind them; 6 contents with every bit set alone at 9 offsets",
    "thorough": "offsets 0..1024, every byte value at every byte of every record at 5 offsets",
}
ASSUMPTIONS = ["the buffer holds the whole record at the offset"]

# class -> (module, [(offset, format, path)])
B = [(o, f, p[len("header.base."):]) for o, f, p in layout.HEADER if p.startswith("header.base.")]


def hdr(rows):
    return [(o, f, p[len("header."):]) for o, f, p in rows]


_L2 = [(o - 32, f, p[len("lin_timestamp_event."):]) for o, f, p in SPECS["LinMessage2"].fields if p.startswith("lin_timestamp_event.")]


def strip(prefix):
    return [(o, f, p[len(prefix):]) for o, f, p in _L2 if p.startswith(prefix)]


RECORDS = {
    "ObjectHeaderBase": ("general", B), "ObjectHeader": ("general", hdr(layout.HEADER)), "VarObjectHeader": ("general", hdr(layout.VHEADER)),
    "SystemTime": ("general", [(2 * i, "H", n) for i, n in enumerate("year month day_of_week day hour minute second milliseconds".split())]),
    "LinBusEvent": ("lin", strip("lin_msg_descr_event.lin_synch_field_event.lin_bus_event.")),
    "LinSynchFieldEvent": ("lin", strip("lin_msg_descr_event.lin_synch_field_event.")),
    "LinMessageDescriptor": ("lin", strip("lin_msg_descr_event.")),
    "LinDatabyteTimestampEvent": ("lin", _L2),
}


def size(name):
    o, f, _ = RECORDS[name][1][-1]
    return o + layout.width(f)


def contents(name):
    n = size(name)
    base = bytearray(objs.pattern(n, 0x21, 11))
    out = [bytes(base), bytes(n), b"\xff" * n] + [objs.pattern(n, 5 * k, 7 + 2 * k) for k in range(31)]
    out += [b"\0" * k + b"\xff" * (n - k) for k in (1, n // 3, n // 2, n - 1)] + [b"LOBJLOGG" * n, b"\x01" * n]
    return [fix(name, x[:n]) for x in out]


def fix(name, raw):
    """Keeps the object type a known one (unknown ones: C25)."""
    if "ObjectHeader" in name:
        t = raw[12] % 129
        raw = raw[:12] + t.to_bytes(4, "little") + raw[16:]
    return raw


def surroundings(kind, n):
    return {0: bytes(n), 1: b"\xff" * n, 2: (b"LOBJ" * n)[:n], 3: objs.pattern(n, 3, 5), 4: (b"LOBJ\x20\0\1\0\x40\0\0\0\1\0\0\0" * n)[:n]}[kind]


def case(name, raw, off, rest, kind):
    module, fields = RECORDS[name]
    cls = getattr(env.MODULES[module], name)
    n = len(raw)
    env_ = surroundings(kind, off + n + rest)
    buf = env_[:off] + raw + env_[off + n:]
    o = cls.unpack_from(buf, off)
    for fo, f, p in fields:
        want = layout.peek(raw, fo, f)
        got = attr(o, p)
        require(got == want, name, p, "at offset", off, "is", repr(got), "instead of", repr(want))
    alone = cls.unpack_from(raw)
    require(alone == o, name, "at offset", off, "differs from the bytes alone")
    require(cls.unpack_from(bytearray(buf), off) == o, name, "from a bytearray")
    if hasattr(cls, "unpack"):
        try:
            whole = cls.unpack(raw)
        except NotImplementedError:
            whole = o
        require(whole == o, name, "unpack")
    for target in (env_, b"\0" * len(env_), b"\xff" * len(env_)):
        t = bytearray(target)
        o.pack_into(t, off)
        require(bytes(t) == target[:off] + raw + target[off + n:], name, "pack_into at", off, "gives", t[:off + n + 16].hex())
    if hasattr(o, "pack"):
        require(o.pack() == raw, name, "pack gives", o.pack().hex())
    return (name, hash(raw), off, rest, kind)


def case_file_times(which, index, value):
    """A calendar record inside the file header."""
    raw = bytearray(layout.FILE_HEADER_SIZE)
    raw[:] = objs.pattern(144, 9, 3)
    layout.put(raw, 0, "4s", b"LOGG")
    raw[12:14] = b"\0\0"
    off = (40, 56)[which]
    layout.put(raw, off + 2 * index, "H", value)
    fs = env.general.FileStatistics.unpack(bytes(raw))
    for w, t in enumerate((fs.measurement_start_time, fs.last_object_time)):
        for i, (_, _, p) in enumerate(RECORDS["SystemTime"][1]):
            require(getattr(t, p) == layout.peek(raw, (40, 56)[w] + 2 * i, "H"), "time", w, p)
    require(fs.pack() == bytes(raw), "file header encodes differently")
    return (which, index, value)


def case_view(name, raw, off, rest, kind):
    """As case, but decoding only (large surroundings)."""
    cls = getattr(env.MODULES[RECORDS[name][0]], name)
    env_ = surroundings(kind, off + len(raw) + rest)
    require(cls.unpack_from(env_[:off] + raw + env_[off + len(raw):], off) == cls.unpack_from(raw), name, "at offset", off, "with", rest, "bytes behind it")
    return (name, hash(raw), off, rest, kind)


def units(tier):
    th = tier == "thorough"
    return [("tail", n, th) for n in RECORDS] + [("rec", n, p, th) for n in RECORDS for p in range(4)] + [("bits", n, th) for n in RECORDS] + [("times", w, i) for w in range(2) for i in range(8)]


def run_unit(u, ctx):
    if u[0] == "rec":
        offs = list(range(1025 if u[3] else 81)) + [255, 256, 257, 4095, 4096, 4097, 65537]
        for i, (raw, off) in enumerate(product(contents(u[1]), offs)):
            if i % 4 == u[2]:
                if off <= 40:
                    for rest, kind in product((0, 1, 16, 40), range(5)):
                        ctx.do(case, u[1], raw, off, rest, kind)
                else:
                    ctx.do(case, u[1], raw, off, i % 3 * 8, i % 5)
    elif u[0] == "tail":
        rests = list(range(0, 300)) + [2 ** k + d for k in range(9, 17) for d in range(-2, 3)]
        for raw in contents(u[1])[::5 if not u[2] else 1]:
            for off in (0, 1, 2, 3, 8, 31, 32, 33, 100):
                for rest in rests:
                    ctx.do(case_view, u[1], raw, off, rest, rest % 5)
    elif u[0] == "bits":
        n = size(u[1])
        for i in range(n):
            for v in range(256) if u[2] else (0, 1, 2, 4, 8, 16, 32, 64, 128, 255):
                for off in (0, 1, 3, 7, 8, 16, 32, 33, 64):
                    for bg in (0, 255):
                        raw = bytes([bg]) * i + bytes([v]) + bytes([bg]) * (n - i - 1)
                        ctx.do(case, u[1], fix(u[1], raw), off, 5, 3)
    else:
        for v in range(0, 65536, 1 if u[2] in (2, 7) else 7):
            ctx.do(case_file_times, u[1], u[2], v)
