"""C33: file operations that fail while a log is read."""
import errno
import io
from itertools import combinations

from mc import blf, env, objs
from mc.checks import c14
from mc.core import Hang, Violation, require

PROP = "C33"
LEVEL = "fault_enumeration"
RULE = ("A case is one log, a set of failing file operations (each before or after its effect, with one of 34 kinds of exception or an OSError with one of the system's error numbers), a kind of file and a way to consume the reader. The call in which an operation fails must raise "
        "that very exception; objects are compared with the log's. Non-trivial = distinct (log, faults, results) in which a fault was hit.")
BOUNDS = {
    "quick": "22 logs of 0-40 objects (cuts, fillers, compressed, nested, bare, truncated); every operation x before/after x 34 kinds of exception (interrupts included) x 6 ways to consume, and x every error number (130); all pairs and all runs of 2-4 failing operations; files unbuffered and "
             "buffered with 1, 16, 64 and 8192 bytes over a failing raw file; the first two operations of opening likewise; three readers at once of which one meets the fault",
    "thorough": "all triples of failing operations, pairs on all kinds of files",
}
ASSUMPTIONS = ["a failing file operation raises an exception of some kind, before or after its effect, but not StopIteration or GeneratorExit, which Python's own iteration uses", "what a reader returns after an error is constrained only by the log's order: no object twice, none altered"]

KINDS = blf.ALL_KINDS
NAMED = len(blf.KINDS + blf.MORE_KINDS)
HOWS = ("fetch", "for", "list", "next", "with", "map")


class Faulty:
    """What fails: number of the operation -> mode (even: before its effect, odd: after it; plus twice the number of the kind)."""

    def __init__(self, fail):
        self.fail, self.calls, self.raised = fail, 0, []

    def do(self, effect):
        i = self.calls
        self.calls += 1
        if i > 200000:
            raise Hang("more than 200000 file operations")
        if i not in self.fail:
            return effect()
        if self.fail[i] & 1:
            effect()
        self.raised.append(KINDS[self.fail[i] // 2]())
        raise self.raised[-1]


class Src(io.BytesIO):
    """An open file whose operations can fail."""

    def __init__(self, data, faulty):
        super().__init__(data)
        self.f = faulty

    def read(self, *a):
        sup = super().read
        return self.f.do(lambda: sup(*a))

    def read1(self, *a):
        sup = super().read1
        return self.f.do(lambda: sup(*a))

    def readinto(self, b):
        sup = super().readinto
        return self.f.do(lambda: sup(b))

    def readline(self, *a):
        sup = super().readline
        return self.f.do(lambda: sup(*a))

    def seek(self, *a):
        sup = super().seek
        return self.f.do(lambda: sup(*a))

    def tell(self):
        sup = super().tell
        return self.f.do(lambda: sup())


class RawSrc(io.RawIOBase):
    """A raw file whose reads can fail."""

    def __init__(self, data, faulty):
        super().__init__()
        self.d, self.f = io.BytesIO(data), faulty

    def readable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        return self.f.do(lambda: self.d.readinto(b))

    def seek(self, *a):
        return self.d.seek(*a)

    def tell(self):
        return self.d.tell()


_L = []


def logs():
    """[(file, its objects)]"""
    if not _L:
        small, r = c14.logs()
        _L.extend((data, r[:n]) for data, n in small)
        fh, c = blf.file_header, blf.container
        raws = [objs.opaque_bytes(17 + i % 23, b"%d" % i) for i in range(40)]
        s = b"".join(blf.pad(x, 8) for x in raws)
        _L.append((fh(0) + b"".join(blf.pad(c(s[i:i + 100]), 8) for i in range(0, len(s), 100)), raws))
        _L.append((fh(6) + b"".join(blf.pad(c(s[i:i + 300], 6), 8) for i in range(0, len(s), 300)), raws))
        _L.append((fh(0) + b"".join(blf.pad(x, 4 + i) for i, x in enumerate(raws[:6])), raws[:6]))
        _L.append((fh(0) + c(s[:64]) + b"LOBLOB\x01\x02LO" + b"J" * 6 + c(s[64:200]) + b"L", [x for x, e in _ends(raws) if e <= 200]))
        _L.append((fh(0) + c(s[:200]) + b"LOBJ" + bytes(9) + c(s[200:400]) + b"\0" * 3, [x for x, e in _ends(raws) if e <= 400]))
    return _L


def _ends(raws):
    e = 0
    for x in raws:
        yield x, e + len(x)
        e += len(blf.pad(x, 8))


def source(data, fail, style):
    f = Faulty(fail)
    if not style:
        return Src(data, f), f
    return io.BufferedReader(RawSrc(data, f), style), f


def operations(li, style):
    """How many file operations reading the whole log takes."""
    data, raws = logs()[li]
    src, f = source(data, {}, style)
    blf.same_objects(list(env.BlfReader(src)), raws)
    opened = f.calls
    return opened


class Follow:
    """Compares what one reader gives with the log."""

    def __init__(self, raws):
        self.raws, self.at, self.failed, self.out = raws, 0, 0, []

    def give(self, o):
        self.out.append("end" if o is None else "obj")
        if self.failed:
            # after an error: only further objects of the log
            if o is not None:
                p = o.pack()
                while self.at < len(self.raws) and self.raws[self.at] != p:
                    self.at += 1
                require(self.at < len(self.raws), "after an error, an object that does not follow:", p[:40])
                self.at += 1
            return
        if o is None:
            require(self.at == len(self.raws), "the end is reported after", self.at, "of", len(self.raws), "objects")
            return
        require(self.at < len(self.raws), "an object beyond the end:", o.pack()[:40])
        require(o.pack() == self.raws[self.at], "object", self.at, "is", o.pack()[:40], "instead of", self.raws[self.at][:40])
        self.at += 1


def guarded(call, f, follow, what):
    """Runs one call; exactly the failures met in it must come out of it."""
    n = len(f.raised)
    try:
        res = call()
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (Hang, Violation)):
            raise
        require(len(f.raised) > n, what, "raised", repr(e), "although no file operation failed in it")
        require(e is f.raised[-1], what, "raised", repr(e), "instead of", repr(f.raised[-1]))
        follow.failed += 1
        follow.out.append("raise")
        return False, None
    require(len(f.raised) == n, what, "hid", repr(f.raised[-1]) if f.raised else "")
    return True, res


def consume(r, f, follow, how, limit):
    """One pass; returns when an error or the end was met."""
    if how == "fetch":
        for _ in range(limit):
            ok, o = guarded(r.read_object, f, follow, "fetch")
            if not ok:
                return
            follow.give(o)
            if o is None:
                return
    elif how == "next":
        it = iter(r)
        for _ in range(limit):
            ok, o = guarded(lambda: next(it, None), f, follow, "next")
            if not ok:
                return
            follow.give(o)
            if o is None:
                return
    elif how == "for":
        def loop():
            for o in r:
                follow.give(o)
            follow.give(None)
        guarded(loop, f, follow, "loop")
    elif how == "list":
        got = []
        ok, _ = guarded(lambda: got.extend(r), f, follow, "list")
        if ok:
            for o in got:
                follow.give(o)
            follow.give(None)
        else:
            # what the list had got so far is gone or kept, by list's rules; kept ones are the log's
            follow.failed -= 1
            for o in got:
                follow.give(o)
            follow.failed += 1
    elif how == "map":
        def loop():
            for o in map(lambda o: o, r):
                follow.give(o)
            follow.give(None)
        guarded(loop, f, follow, "map")
    else:
        src = []

        def loop():
            with r as q:
                src.append(q)
                for o in q:
                    follow.give(o)
                follow.give(None)
        guarded(loop, f, follow, "with")


def case(li, style, fail, how):
    fail = dict(fail)
    data, raws = logs()[li]
    src, f = source(data, fail, style)
    follow = Follow(raws)
    ok, r = guarded(lambda: env.BlfReader(src), f, follow, "opening")
    if ok:
        for _ in range(len(fail) + 2):
            consume(r, f, follow, how, len(raws) + 2)
            if how == "with":
                require(src.closed, "the file is open after the with-block")
                break
    if not f.raised:
        return None
    # the failures leave nothing behind: the same file reads normally
    blf.same_objects(blf.read_all(data), raws)
    return li, style, tuple(sorted(fail.items())), how, tuple(follow.out)


def case_three(li, style, fail, turn):
    """Three readers of three files, taking turns; one file fails, the others' reading is as ever."""
    fail = dict(fail)
    data, raws = logs()[li]
    rs, fs, fo = [], [], []
    for i in range(3):
        src, f = source(data, fail if i == turn else {}, style)
        fs.append(f)
        fo.append(Follow(raws))
        ok, r = guarded(lambda: env.BlfReader(src), f, fo[i], "opening")  # noqa: B023
        rs.append(r if ok else None)
    for _ in range(len(raws) + 1):
        for i in range(3):
            if rs[i]:
                ok, o = guarded(rs[i].read_object, fs[i], fo[i], "fetch")
                if ok:
                    fo[i].give(o)
    for i in range(3):
        require(i == turn or fo[i].at == len(raws) and not fo[i].failed, "reader", i, "was disturbed")
    return (li, style, tuple(sorted(fail.items())), turn, tuple(fo[turn].out)) if fs[turn].raised else None


STYLES = (0, 1, 16, 64, 8192)


def units(tier):
    u = [("one", li, st) for li in range(22) for st in STYLES]
    u += [("pairs", li, st) for li in range(22) for st in (STYLES if tier == "thorough" else (0, 64))]
    u += [("three", li, st) for li in range(22) for st in (0, 16)]
    if tier == "thorough":
        u += [("triples", li, 0) for li in range(22)]
    return u


def run_unit(u, ctx):
    kind, li, st = u
    n = operations(li, st)
    if kind == "one":
        for i in range(n):
            for m in range(2 * len(KINDS)):
                for how in HOWS:
                    if m >= 2 * NAMED and (li % 3 or st not in (0, 64) or st and KINDS[m // 2]().errno == errno.EINTR):
                        continue  # (buffered files of Python repeat what was interrupted)
                    if m < 16 and (n < 60 or i % 16 == 0) or how == HOWS[(i + m) % 6]:
                        ctx.do(case, li, st, ((i, m),), how)
    elif kind == "pairs":
        for i, j in combinations(range(n), 2):
            if n < 60 or j - i < 4 or (i + j) % (n // 10) == 0:
                for m1, m2 in ((0, 0), (1, 1), (0, 15), (14, 1)):
                    ctx.do(case, li, st, ((i, m1), (j, m2)), HOWS[(i + j + m1) % 6])
        for i in range(n):
            for k in (2, 3, 4):
                for m in (0, 1, 9, 14):
                    ctx.do(case, li, st, tuple((i + x, m) for x in range(k)), HOWS[(i + k) % 6])
    elif kind == "triples":
        if n < 60:
            for t in combinations(range(n), 3):
                for m in (0, 1):
                    ctx.do(case, li, st, tuple((x, m) for x in t), HOWS[sum(t) % 6])
    else:
        for i in range(n):
            for m in (0, 1, 14):
                for turn in range(3):
                    ctx.do(case_three, li, st, ((i, m),), turn)
