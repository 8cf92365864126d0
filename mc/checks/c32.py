"""C32: reading a log while it is being written."""
import io
import os
from itertools import product

from mc import blf, env, hist
from mc.core import Hang, Violation, require, scratch
from mc.env import CLOCK

PROP = "C32"
LEVEL = "model_checking"
RULE = ("A case is one interleaving of the operations of a writer (open, write, close) and of readers (open, fetch) on one shared file, run on the real code; each fetch is judged by the accepted objects and by what "
        "the file holds at that moment according to an independent parser. A state is (bytes of the file, objects fetched by each reader, readers at their end). Non-trivial = distinct (interleaving, results).")
BOUNDS = {
    "quick": "one reader: all interleavings of up to 5 writes and close with up to 6 reader operations for 3 alphabets x 6 buffer sizes x levels 0 and 6 x 3 bufferings of the writing file x 3 of the reading file; two readers with up to 3 "
             "operations each; reader operations inside the writer's file operations (between any two raw writes); real files on disk; a log of 3,000 objects with a reader that keeps up",
    "thorough": "up to 6 writes, 8 reader operations",
}
ASSUMPTIONS = ["one writer; both file objects show the same bytes (same machine)", "a reader that has reported the end may keep reporting it"]


class Disk:
    def __init__(self):
        self.data = bytearray()
        self.between = None


class End(io.RawIOBase):
    """One open file on a disk."""

    def __init__(self, disk, write):
        super().__init__()
        self.disk, self.pos, self.w = disk, 0, write
        self.ops = 0

    def readable(self):
        return not self.w

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def step(self):
        self.ops += 1
        if self.ops > 200000:
            raise Hang("more than 200000 file operations")
        if self.disk.between and self.w:
            self.disk.between()

    def readinto(self, b):
        self.step()
        d = self.disk.data[self.pos:self.pos + len(b)]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def readall(self):
        d = bytes(self.disk.data[self.pos:])
        self.pos += len(d)
        return d

    def write(self, b):
        self.step()
        b = bytes(b)
        d = self.disk.data
        if self.pos > len(d):
            d += bytes(self.pos - len(d))
        d[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, len(self.disk.data))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.disk.data[size:]
        return size


def complete(data, level):
    """Serialised objects that the complete containers of an unfinished file hold."""
    if len(data) < 144:
        return None
    cs, _ = blf.parse_containers(bytes(data))
    return blf.split_objects(b"".join(blf.inflate(c, level) for c in cs))[0]


class ByPath:
    """Closes what a reader opened itself."""

    def __init__(self, r):
        self.r = r

    def close(self):
        self.r.__exit__(None, None, None)


PATH = -2  # in place of a buffering: the library opens the file itself


class Play:
    """One writer and some readers on one file, step by step."""

    def __init__(self, aname, B, level, wbuf, rbuf, readers, path=None):
        self.raws, self.obs = hist.alpha(aname)
        self.B, self.level, self.wbuf, self.rbuf = B, level, wbuf, rbuf
        self.disk = Disk()
        self.path = path
        self.w = None
        self.closed = False
        self.accepted = []
        self.readers = [None] * readers
        self.files = []
        self.got = [0] * readers
        self.end = [False] * readers
        self.k = 0
        CLOCK.reset()
        if path:
            open(path, "wb").close()

    def content(self):
        if self.path:
            with open(self.path, "rb") as f:
                return f.read()
        return bytes(self.disk.data)

    def write(self):
        """The writer's next operation: open, then writes."""
        if self.w is None:
            f = self.path if self.wbuf == PATH else self.path and open(self.path, "r+b", buffering=self.wbuf) or End(self.disk, True)  # noqa: SIM115
            if self.wbuf and not self.path:
                f = io.BufferedWriter(f, self.wbuf)
            if f is not self.path:
                self.files.append(f)
            self.w = env.BlfWriter(f, compression_level=self.level, buffer_size=self.B)
            return
        e = self.k % len(self.obs)
        self.k += 1
        # what the call hands over may already be read while it runs
        self.accepted.append(self.raws[e])
        self.w.write(self.obs[e])

    def close(self):
        if self.w is None:
            self.write()
        self.w.close()
        self.closed = True

    def fetch(self, i):
        """Reader i's next operation: open, then fetches."""
        data = self.content()
        held = complete(data, self.level)
        if self.readers[i] is None:
            f = self.path if self.rbuf == PATH else self.path and open(self.path, "rb", buffering=self.rbuf) or End(self.disk, False)  # noqa: SIM115
            if self.rbuf and not self.path:
                f = io.BufferedReader(f, self.rbuf)
            try:
                self.readers[i] = env.BlfReader(f)
                self.files.append(ByPath(self.readers[i]) if f is self.path else f)
            except ValueError:
                require(held is None, "a file of", len(data), "bytes with a header was refused")
                return "refused"
            require(held is not None, "a file of", len(data), "bytes was accepted")
            return "opened"
        o = self.readers[i].read_object()
        if o is None:
            if not self.end[i]:
                require(len(held) <= self.got[i], "reader", i, "reports the end after", self.got[i], "objects, the file holds", len(held))
                self.end[i] = True
            return "end"
        require(self.got[i] < len(self.accepted), "an object that was not written:", o.pack()[:40])
        require(o.pack() == self.accepted[self.got[i]], "object", self.got[i], "is", o.pack()[:40], "instead of", self.accepted[self.got[i]][:40])
        self.got[i] += 1
        return self.got[i]

    def finish(self):
        """At the end the log is what it would be without readers, and a reader that has not met the end gets the rest."""
        if not self.closed:
            self.close()
        want = list(self.accepted)
        blf.same_objects(blf.read_all(self.content()), want)
        for i, r in enumerate(self.readers):
            if r is not None and not self.end[i]:
                for _ in range(len(want) - self.got[i]):
                    self.fetch(i)
                require(self.got[i] == len(want) and r.read_object() is None, "reader", i, "got", self.got[i], "of", len(want))
        data = self.content()
        for f in self.files:
            f.close()
        return data

    def state(self):
        return (hash(self.content()), tuple(self.got), tuple(self.end), tuple(r is not None for r in self.readers), self.closed)


_ALONE = {}


def alone(aname, B, level, writes):
    key = (aname, B, level, writes)
    if key not in _ALONE:
        p = Play(aname, B, level, 0, 0, 0)
        for _ in range(writes + 1):
            p.write()
        p.close()
        _ALONE[key] = p.finish()
    return _ALONE[key]


def case(aname, B, level, wbuf, rbuf, ops, disk):
    """ops: w (writer's next operation), c (close), digits (a reader's next operation)."""
    path = os.path.join(scratch(), "c32.blf") if disk else None
    p = Play(aname, B, level, wbuf, rbuf, 2 if "1" in ops else 1, path)
    out, states = [], []
    for op in ops:
        if op == "w":
            p.write()
        elif op == "c":
            p.close()
        else:
            out.append(p.fetch(int(op)))
        states.append(p.state())
    writes = max(0, ops.count("w") - 1)
    data = p.finish()
    require(data == alone(aname, B, level, writes), "the log differs from one written without readers")
    return (aname, B, level, wbuf, rbuf, ops, tuple(out), tuple(states))


def case_inside(aname, B, level, wbuf, rbuf, at, n, writes):
    """The reader's operations run inside the writer's `at`-th raw file write (before it) - a torn moment - and go on after it."""
    p = Play(aname, B, level, wbuf, rbuf, 1)
    p.raws, p.obs = hist.alpha(aname)
    seen = []
    count = [0]

    def between():
        count[0] += 1
        if count[0] >= at and len(seen) < n:
            p.disk.between = None
            seen.append(p.fetch(0))
            p.disk.between = between
    p.disk.between = between
    for _ in range(writes + 1):
        p.write()
    p.close()
    p.disk.between = None
    reached = count[0] >= at
    data = p.finish()
    require(data == alone(aname, B, level, writes), "the log differs from one written without readers")
    return (aname, B, level, wbuf, rbuf, at, n, tuple(seen)) if reached else None


def case_follow(n, aname, B, level, wbuf, rbuf, lag):
    """A reader that keeps up with a long log, as far as it can."""
    p = Play(aname, B, level, wbuf, rbuf, 1)
    p.write()
    for k in range(n):
        p.write()
        if k >= lag and not wbuf:
            held = complete(p.content(), level) if k % 100 == 0 else None
            if p.readers[0] is None:
                p.fetch(0)
            if held:
                for _ in range(max(0, len(held) - p.got[0] - lag)):
                    p.fetch(0)
    p.close()
    p.finish()
    return (n, aname, B, level, wbuf, rbuf, lag, p.got[0])


def interleavings(w, r0, r1=0):
    """All orders of w writer operations (the last one is close), r0 and r1 reader operations."""
    def rec(a, b, c, s):
        if a == b == c == 0:
            yield s
            return
        if a:
            yield from rec(a - 1, b, c, s + ("c" if a == 1 else "w"))
        if b:
            yield from rec(a, b - 1, c, s + "0")
        if c:
            yield from rec(a, b, c - 1, s + "1")
    return rec(w, r0, r1, "")


CONFIGS = [(a, B, lv) for a in ("pair", "trio", "tiny") for B in (8, 16, 24, 33, 60, 131072) for lv in (0, 6)]


def units(tier):
    th = tier == "thorough"
    u = []
    for i, (a, B, lv) in enumerate(CONFIGS):
        for j, (wb, rb) in enumerate(product((0, 64, 8192), (0, 16, 8192))):
            full = (i + j) % 4 == 0 or th
            u.append(("one", a, B, lv, wb, rb, (8 if th else 7) if full else 5, (8 if th else 6) if full else 4))
        for wb, rb in ((0, 0), (0, 16), (64, 8192)):
            u.append(("two", a, B, lv, wb, rb, 5 if th else 4, 3))
            u.append(("inside", a, B, lv, wb, rb))
        u.append(("disk", a, B, lv, i))
    u += [("follow", a, B, lv, wb, rb) for a, B, lv in (("pair", 24, 0), ("tiny", 100, 6), ("trio", 5000, 0)) for wb in (0, 8192) for rb in (0, 16, 8192)]
    return sorted(u, key=lambda x: x[0] not in ("one",))


def run_unit(u, ctx):
    def do(*args):
        obs = ctx.do(case, *args)
        prev = args[:5]
        for s in obs[7] if obs else ():
            ctx.state(args[:5], s)
            ctx.trans(prev, args[:5], s)
            prev = s
    if u[0] == "one":
        for ops in interleavings(u[6], u[7]):
            do(*u[1:6], ops, False)
    elif u[0] == "two":
        for ops in interleavings(u[6], u[7], u[7]):
            if ops.find("0") < ops.find("1"):
                do(*u[1:6], ops, False)
    elif u[0] == "inside":
        for writes in range(5):
            for at in range(1, 16):
                for n in range(1, 6):
                    ctx.do(case_inside, *u[1:6], at, n, writes)
    elif u[0] == "disk":
        for k, ops in enumerate(interleavings(4, 4)):
            if k % 2 == u[4] % 2:
                for wb, rb in ((0, (0, 64, 8192)[k % 3]), (0, PATH), (PATH, PATH), (64, PATH)):
                    do(*u[1:4], wb, rb, ops, True)
    else:
        for lag in (0, 1, 7):
            ctx.do(case_follow, 3000, *u[1:], lag)
    ctx.count("traces_validated_against_impl", ctx.n)


_ = Violation
