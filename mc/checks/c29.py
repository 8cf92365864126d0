"""C29: bounded memory and read-ahead."""
import gc
import io
import os
import tracemalloc
from itertools import product

from mc import blf, env, layout, objs
from mc.core import require, scratch
from mc.layout import SPECS

PROP = "C29"
LEVEL = "exploration"
RULE = ("A case is one log layout (how objects lie in containers) or history of writes; while it is read or written object by object, the furthest byte read from the file, "
        "the library objects still alive and the memory in use are measured at every step. Non-trivial = distinct layouts and histories.")
BOUNDS = {
    "quick": "all 3^4 ways to make 4 steps (own container / straddling two containers / outside any container) of 3 MiB each, stored and compressed, x 3 ways to consume, checked after "
             "every object; logs on disk of up to 900 MiB (mostly holes) opened by path and as files, with the positions of the descriptors and the memory after every object; logs with all types of 3,000 objects read in 4 ways and written in 5 ways, live objects counted every 100; 200 to 4,000 objects of 1 KiB to 1 MiB, memory measured "
             "after every 10, for 2 levels, 3 container or buffer sizes; 70,000 small objects of all types, whose last nine tenths must add less than 2 bytes each; 10,000 objects of each type that have no value in common, of which nothing may be kept; logs of more than 4 GiB in 5 layouts",
    "thorough": "3^6 layouts; 30,000 objects; 10 times as many bytes",
}
ASSUMPTIONS = ["a read-ahead of up to 1 MiB beyond the needed container, and memory of up to 16 times the largest object and container plus 4 MiB, count as bounded",
               "the caller drops the objects it was given"]
AHEAD = 1 << 20
BIG = 3 << 20


class Virtual(io.RawIOBase):
    """A read-only file made of pieces (bytes, or a number of zero bytes) that records how far it was read."""

    def __init__(self, pieces):
        super().__init__()
        self.pieces = []
        self.size = 0
        for p in pieces:
            n = p if isinstance(p, int) else len(p)
            self.pieces.append((self.size, n, p))
            self.size += n
        self.pos = self.high = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            n = self.size - self.pos
        end = min(self.size, self.pos + n)
        out = []
        for start, length, p in self.pieces:
            lo, hi = max(self.pos, start), min(end, start + length)
            if lo < hi:
                out.append(bytes(hi - lo) if isinstance(p, int) else p[lo - start:hi - start])
        self.pos = max(self.pos, end)
        self.high = max(self.high, self.pos)
        return out[0] if len(out) == 1 else b"".join(out)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        return self.read(-1)

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, self.size)[whence]
        return self.pos

    def tell(self):
        return self.pos


def fetcher(reader, how):
    """Functions that return the next object."""
    if how == "read":
        return reader.read_object
    if how == "iter":
        it = iter(reader)
        return lambda: next(it, None)
    return lambda: next(iter(reader), None)


def make(steps, level):
    """(pieces, [end of the part of the file needed for object i]). steps: c own container, s straddling two containers, b bare."""
    pieces = [blf.file_header(level)]
    ends = []
    pos = 144

    def add(p):
        nonlocal pos
        pieces.append(p)
        pos += p if isinstance(p, int) else len(p)

    for i, s in enumerate(steps):
        head = objs.opaque_bytes(BIG + 8 * i, b"\0")[:24]
        rest = BIG + 8 * i - 24
        if s == "b":
            add(head)
            add(rest)
        else:
            cut = rest // 2 & ~7
            for h, r in [(head, rest)] if s == "c" else [(head, cut), (b"", rest - cut)]:
                if level:
                    z = blf.container(h + objs.noise(1 << 16, i) * (r >> 16) + bytes(r & 0xFFFF), level)
                    add(z)
                else:
                    c = bytearray(blf.container(h, 0))
                    layout.put(c, 8, "I", 32 + len(h) + r)
                    layout.put(c, 24, "I", len(h) + r)
                    add(bytes(c))
                    add(r)
                add(bytes(-pos % 8))
        ends.append(pos)
    return pieces, ends


def case_ahead(steps, level, how):
    pieces, ends = make(steps, level)
    f = Virtual(pieces)
    r = env.BlfReader(f)
    require(f.high <= 144 + AHEAD, "opening reads", f.high, "bytes of", f.size)
    fetch = fetcher(r, how)
    for i, end in enumerate(ends):
        o = fetch()
        require(o is not None and o.header.base.object_size == BIG + 8 * i, "object", i, "is missing")
        require(f.high <= end + AHEAD, "object", i, "ends at", end, "but", f.high, "bytes of", f.size, "are read, layout", steps)
    require(fetch() is None, "an object after the end")
    return (steps, level, how)


def case_header_only(n):
    """Opening a log of n MiB."""
    f = Virtual([blf.file_header(0), n << 20])
    env.BlfReader(f)
    require(f.high <= 144 + AHEAD, "opening reads", f.high, "bytes of", f.size)
    return (n,)


def own_fds():
    return {int(x) for x in os.listdir("/proc/self/fd")}


def at(fd):
    """The position of an open descriptor: how far the file was read."""
    with open("/proc/self/fdinfo/%d" % fd) as f:
        return int(next(x for x in f if x.startswith("pos:")).split()[1])


def case_path_ahead(steps, level, how, hole, kind):
    """A log on disk opened by its path, with a hole of so many MiB (filler) behind its objects: the position of the
    descriptors the library opened, and the memory used."""
    path = os.path.join(scratch(), "ahead.blf")
    pieces, ends = make(steps, level)
    with open(path, "wb") as f:
        for p in pieces:
            if isinstance(p, int):
                f.seek(p, 1)
            else:
                f.write(p)
        f.truncate(f.tell() + (hole << 20))
    size = os.path.getsize(path)
    before = own_fds()
    gc.collect()
    tracemalloc.start()
    try:
        start = used()
        arg = {"str": path, "bytes": path.encode(), "file": None}[kind]
        if arg is None:
            arg = open(path, "rb")  # noqa: SIM115
        r = env.BlfReader(arg)
        mine = [fd for fd in own_fds() - before if os.path.exists("/proc/self/fd/%d" % fd) and os.readlink("/proc/self/fd/%d" % fd) == path]

        def look(end, what):
            high = max(map(at, mine), default=0)
            require(high <= end + AHEAD, what, "needs", end, "bytes, but", high, "of", size, "are read from the file at a path")
            require(used() - start <= 16 * BIG + (4 << 20), what, used() - start, "bytes of memory are in use for a file of", size)

        look(144, "opening")
        fetch = fetcher(r, how)
        for i, end in enumerate(ends):
            o = fetch()
            require(o is not None and o.header.base.object_size == BIG + 8 * i, "object", i, "is missing")
            del o
            look(end, "object %d" % i)
        r.__exit__(None, None, None)
        if kind == "file":
            arg.close()
        del r
    finally:
        tracemalloc.stop()
        os.unlink(path)
    return (steps, level, how, hole, kind)


def alive():
    gc.collect()
    return sum(isinstance(x, env.general.ObjectWithHeader) for x in gc.get_objects())


def kinds():
    return [objs.sample_bytes(n, k) for n in SPECS for k in range(2)] + [objs.opaque_bytes(17), objs.opaque_bytes(64, b"LOBJ")]


def case_reader_drops(n, per, level, how):
    """No more objects are alive than two containers hold."""
    ks = kinds()
    data = bytearray(blf.file_header(level))
    batch = b""
    for i in range(n):
        batch += blf.pad(ks[i % len(ks)], 8)
        if i % per == per - 1 or i == n - 1:
            data += blf.pad(blf.container(batch, level), 8)
            batch = b""
    r = env.BlfReader(io.BytesIO(bytes(data)))
    base = alive()
    fetch = fetcher(r, how)
    for i in range(n):
        require(fetch() is not None, "object", i, "is missing")
        if i % 100 == 99:
            m = alive() - base
            require(m <= 2 * per + 16, m, "objects are alive after reading", i + 1, "one by one, each dropped at once")
    require(fetch() is None, "an object after the end")
    return (n, per, level, how)


def case_writer_drops(n, B, level, way):
    """The writer keeps no written object."""
    ks = kinds()
    sink = blf.Sink(limit=100 * n + 10000)
    base = alive()
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    for i in range(n):
        o = objs.from_bytes(ks[i % len(ks)])
        w.write(o)
        if way == "refused" and hasattr(o, "channel"):
            o.channel = 1 << 70
            try:
                w.write(o)
            except Exception:  # noqa: BLE001 - C06 decides what happens
                pass
        del o
        if i % 100 == 99:
            m = alive() - base
            require(m <= 2 * (B // 16) + 16 if B < 4096 else m <= B // 16 + 16, m, "objects are alive after writing", i + 1, "each dropped at once")
    w.close()
    del w
    m = alive() - base
    require(m <= 4, m, "objects are alive after closing")
    return (n, B, level, way)


def used():
    return tracemalloc.get_traced_memory()[0]


def measure(start, size, i):
    require(used() - start <= 16 * size + (4 << 20), "after", i + 1, "objects,", used() - start, "bytes are in use, the largest unit has", size)


def drift(mark, now, n, what):
    """What n more objects added: less than two bytes each."""
    require(now - mark <= 2 * n + (64 << 10), what, "grew by", now - mark, "bytes over", n, "objects, none of which is kept")


def case_read_drift(n, per, level, how):
    """Small objects: nothing at all is added per object."""
    ks = [blf.pad(k, 8) for k in kinds()]
    unit = b"".join(blf.pad(blf.container(b"".join(ks[(i * per + j) % len(ks)] for j in range(per)), level), 8) for i in range(len(ks) if per < 8 else 1))
    per_unit = per * (len(ks) if per < 8 else 1)
    f = Endless(unit, n // per_unit, level)
    tracemalloc.start()
    try:
        fetch = fetcher(env.BlfReader(f), how)
        mark = None
        for i in range(n // per_unit * per_unit):
            require(fetch() is not None, "object", i, "is missing")
            if i == n // 10:
                gc.collect()
                mark = used()
        gc.collect()
        drift(mark, used(), n * 9 // 10, "the reader's memory")
    finally:
        tracemalloc.stop()
    return (n, per, level, how)


def case_write_drift(n, B, level):
    ks = [objs.from_bytes(k) for k in kinds()]
    tracemalloc.start()
    try:
        w = env.BlfWriter(Null(), compression_level=level, buffer_size=B)
        mark = None
        for i in range(n):
            w.write(ks[i % len(ks)])
            if i == n // 10:
                gc.collect()
                mark = used() + B
        gc.collect()
        drift(mark, used(), n * 9 // 10, "the writer's memory")
        w.close()
    finally:
        tracemalloc.stop()
    return (n, B, level)


def different(name, i):
    """The type's sample with other values in all its fields and texts."""
    spec = layout.SPECS[name]
    n = [12] * len(spec.parts)
    b = bytearray(objs.sample_bytes(name, 0, tuple(n) if n else None))
    noise = objs.noise(400, i)
    at = 0
    for off, fmt, path in spec.header + spec.fields:
        if path.startswith("header.base") or path in spec.lenfields or path == "ext_data_offset" or fmt == "d":
            continue
        w = layout.width(fmt)
        b[off:off + w] = noise[at:at + w]
        at += w
    if n:
        k = len(b) - sum(n)
        for j in range(len(n)):
            b[k + 12 * j:k + 12 * j + 11] = b"%011d" % (i * 7 + j)
    return bytes(b)


def case_different(name, n, B, level):
    """A log in which no two objects have a value in common is copied; nothing of them is kept."""
    unit = [blf.pad(different(name, i), 8) for i in range(n)]
    data = blf.file_header(level) + b"".join(blf.pad(blf.container(b"".join(unit[i:i + 50]), level), 8) for i in range(0, n, 50))
    want = unit[n // 3]
    del unit
    f = io.BytesIO(data)
    tracemalloc.start()
    try:
        r = env.BlfReader(f)
        w = env.BlfWriter(Null(), compression_level=level, buffer_size=B)
        mark = 0
        for i in range(n):
            o = r.read_object()
            require(o is not None, "object", i, "is missing")
            require(i != n // 3 or blf.pad(o.pack(), 8) == want, "object", i, "differs")
            w.write(o)
            if i == n // 2:
                del o
                gc.collect()
                mark = used() + B
        del o
        gc.collect()
        drift(mark, used(), n // 2, "the memory for objects that differ in everything")
        w.close()
    finally:
        tracemalloc.stop()
    return (name, n, B, level)


class Null(io.RawIOBase):
    """A file that stores nothing."""

    pos = size = 0

    def writable(self):
        return True

    def seekable(self):
        return True

    def write(self, b):
        self.pos += len(b)
        self.size = max(self.size, self.pos)
        return len(b)

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, self.size)[whence]
        return self.pos

    def tell(self):
        return self.pos


def case_write_memory(size, n, B, level):
    tracemalloc.start()
    try:
        w = env.BlfWriter(Null(), compression_level=level, buffer_size=B)
        start = used()
        for i in range(n):
            w.write(env.general.NotImplementedObject.unpack(objs.opaque_bytes(size, i.to_bytes(4, "little"))))
            if i % 10 == 9:
                measure(start, max(size, B), i)
        w.close()
        measure(start, max(size, B), n)
    finally:
        tracemalloc.stop()
    return (size, n, B, level)


class Endless(io.RawIOBase):
    """n equal containers, made when they are read."""

    def __init__(self, unit, n, level):
        super().__init__()
        self.head, self.unit, self.n = blf.file_header(level), unit, n
        self.pos = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def read(self, k=-1):
        end = 144 + len(self.unit) * self.n
        k = end - self.pos if k is None or k < 0 else max(0, min(k, end - self.pos))
        out = b""
        while k:
            if self.pos < 144:
                p = self.head[self.pos:self.pos + k]
            else:
                at = (self.pos - 144) % len(self.unit)
                p = self.unit[at:at + k]
            out += p
            self.pos += len(p)
            k -= len(p)
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, 144 + len(self.unit) * self.n)[whence]
        return self.pos

    def tell(self):
        return self.pos


def case_read_memory(size, n, per, level, how):
    unit = blf.pad(blf.container(blf.pad(objs.opaque_bytes(size, objs.noise(64)), 8) * per, level), 8)
    f = Endless(unit, n // per, level)
    tracemalloc.start()
    try:
        fetch = fetcher(env.BlfReader(f), how)
        start = used()
        for i in range(n // per * per):
            require(fetch() is not None, "object", i, "is missing")
            if i % 10 == 9:
                measure(start, (size + 8) * per, i)
        require(fetch() is None, "an object after the end")
    finally:
        tracemalloc.stop()
    return (size, n, per, level, how)


HOWS = ("read", "iter", "restart")


class Repeating(Virtual):
    """A log that consists of the same part n times."""

    def __init__(self, head, part, n):
        io.RawIOBase.__init__(self)
        self.head, self.part = head, part
        self.size = len(head) + n * len(part)
        self.pos = self.high = 0

    def read(self, n=-1):
        end = self.size if n is None or n < 0 else min(self.size, self.pos + n)
        out = []
        while self.pos < end:
            if self.pos < len(self.head):
                p = self.head[self.pos:min(end, len(self.head))]
            else:
                at = (self.pos - len(self.head)) % len(self.part)
                p = memoryview(self.part)[at:at + end - self.pos]
            out.append(p)
            self.pos += len(p)
        self.high = max(self.high, self.pos)
        return bytes(out[0]) if len(out) == 1 else b"".join(out)


def case_far(size, n, level, how):
    """Logs of more than 4 GiB, in the file or when decompressed: every object is there."""
    raw = objs.opaque_bytes(size, b"\0" * 4096)
    raws = [raw]
    if how == "bare":
        part = blf.pad(raw, 8)
    elif how == "own":
        part = blf.pad(blf.container(blf.pad(raw, 8), level), 8)
    else:
        s = blf.pad(raw, 8) + blf.pad(objs.opaque_bytes(40, b"JBO"), 8)
        cut = len(s) // 3
        raws.append(objs.opaque_bytes(40, b"JBO"))
        part = b"".join(blf.pad(blf.container(x, level), 8) for x in (s[:cut], s[cut:]))
    f = Repeating(blf.file_header(level), part, n)
    r = env.BlfReader(f)
    for i in range(n):
        for raw in raws:
            o = r.read_object()
            require(o is not None, "the log ends after", i, "of", n, "times", size, "bytes")
            require(o.pack() == raw, "object", i, "of", n, "times", size, "bytes differs")
    require(r.read_object() is None, "an object after the end")
    return (size, n, level, how)


def units(tier):
    th = tier == "thorough"
    u = [("ahead", "".join(s), level) for s in product("csb", repeat=6 if th else 4) for level in (0, 1)]
    n = 30000 if th else 3000
    u += [("rdrop", n, per, level, how) for per in (1, 7, 100) for level in (0, 6) for how in HOWS]
    u += [("wdrop", n, B, level, way) for B in (8, 64, 1000, 131072) for level in (0, 6) for way in ("plain", "refused")]
    m = 10 if th else 1
    u += [("wmem", size, k * m, B, level) for size, k in ((1024, 30000), (65536, 1000), (1 << 20, 200)) for B in (1024, 131072, 1 << 20) for level in (0, 1)
          if size // B < 1000 and (level == 0 or size // B < 100)]
    u += [("rmem", size, k * m, per, level, how) for size, k, pers in ((1024, 30000, (1, 100)), (65536, 1000, (1, 8)), (1 << 20, 200, (1, 2)))
          for per in pers for level in (0, 1) for how in HOWS]
    k = 300000 if th else 70000
    u += [("different", name, 100000 if th else 10000, B, level) for name in layout.SPECS for B, level in ((1000, 0), (1000, 6))]
    u += [("far", *x) for x in ((1 << 26, 66, 0, "own"), (1 << 26, 66, 1, "own"), (1 << 24, 260, 0, "split"), (1 << 24, 260, 1, "split"), (1 << 26, 66, 0, "bare"))]
    u += [("rdrift", k, per, level, how) for per in (1, 7, 100) for level in (0, 6) for how in HOWS]
    u += [("wdrift", k, B, level) for B in (8, 64, 1000, 65536) for level in (0, 6)]
    u += [("path", s, level, how) for s in ("", "c", "s", "b", "cb", "sc", "csb") for level in (0, 1) for how in HOWS]
    return u + [("open",)]


def run_unit(u, ctx):
    if u[0] == "ahead":
        for how in HOWS:
            ctx.do(case_ahead, u[1], u[2], how)
    elif u[0] == "path":
        for hole in (1, 5, 64, 900):
            for kind in ("str", "bytes", "file"):
                ctx.do(case_path_ahead, *u[1:], hole, kind)
    elif u[0] == "open":
        for n in (1, 2, 10, 1000, 100000):
            ctx.do(case_header_only, n)
    else:
        ctx.cpu_seconds = 200
        ctx.do({"rdrop": case_reader_drops, "wdrop": case_writer_drops, "wmem": case_write_memory, "rmem": case_read_memory, "rdrift": case_read_drift, "wdrift": case_write_drift, "far": case_far, "different": case_different}[u[0]], *u[1:])

