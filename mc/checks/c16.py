"""C16: every short life of a writer and of a reader."""
import asyncio
import builtins
import errno
import io
import os
import struct
import subprocess
import zlib
from itertools import product

from mc import blf, env, hist, objs
from mc.core import Hang, require, scratch, Violation
from mc.env import CLOCK

PROP = "C16"
LEVEL = "model_checking"
RULE = ("A case is one life of a writer (buffer size, level, kind of file, sequence of operations up to its end and beyond) or of a reader, executed "
        "on the real class and compared after every operation with a model of the lifecycle (open/closed, accepted objects). Non-trivial = distinct "
        "(life, final bytes). A state is (open/closed, accepted objects, bytes in the file), a transition one operation.")
BOUNDS = {
    "quick": "buffer sizes -2..50, 64, 1000, 131072, levels 0/1/6/9; before the end: all sequences of up to 3 writes over 3 objects; end: close, with-block left normally, by each of 7 "
             "exception types (incl. KeyboardInterrupt, SystemExit, GeneratorExit), by return, closed inside; with-blocks of writers and readers left by one of each of the 70 exception classes of the interpreter, OSErrors of all 130 numbers and 9 others, after 0-3 objects; afterwards: all sequences of up to 3 of "
             "close / write / leave again; objects of 400 to 20,001 buffers; in-memory, unbuffered, buffered and path files; readers: 0..n objects read x 6 ways to leave x 4 kinds of file",
    "thorough": "up to 5 writes, 4 operations afterwards",
}
ASSUMPTIONS = ["a rejected buffer size (exception from the constructor) is no violation", "the file's own methods succeed (failures: C08)"]


class Boom(Exception):
    pass


EXC = {"boom": Boom, "value": ValueError, "key": KeyboardInterrupt, "exit": SystemExit, "gen": GeneratorExit, "os": OSError, "stop": StopIteration}
ENDS = ("close", "with", "return", "inside", "inside_raise") + tuple("raise_" + k for k in EXC)
AFTER = ("close", "write", "exit")


def open_fds(path):
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink("/proc/self/fd/" + fd) == path
        except OSError:
            pass
    return n


class Target:
    """A file to write to: 'mem' (in memory), 'raw' (unbuffered OS file), 'buf' (open()), 'path'."""

    def __init__(self, kind):
        self.kind = kind
        self.path = os.path.join(scratch(), "t.blf")
        if kind == "mem":
            self.arg = blf.Sink()
        elif kind == "raw":
            self.arg = open(self.path, "wb", buffering=0)  # noqa: SIM115
        elif kind == "buf":
            self.arg = open(self.path, "wb")  # noqa: SIM115
        else:
            self.arg = self.path

    def closed(self):
        if self.kind == "path":
            return open_fds(self.path) == 0
        return self.arg.closed

    def data(self):
        if self.kind == "mem":
            return self.arg.data()
        with open(self.path, "rb") as f:
            return f.read()

    def drop(self):
        if self.kind in ("raw", "buf"):
            self.arg.close()


def case_writer(kind, B, level, hist_, end, after):
    raws, obs = hist.alpha("trio")
    CLOCK.reset()
    t = Target(kind)
    try:
        w = env.BlfWriter(t.arg, compression_level=level, buffer_size=B)
    except (Hang, MemoryError):
        raise
    except Exception:  # noqa: BLE001 - refused
        t.drop()
        require(B < 1, "buffer size", B, "was refused")
        return ("refused", kind, B)
    want = [raws[i] for i in hist_]

    def block():
        with w as x:
            require(x is w, "with-block yields another object")
            for i in hist_:
                w.write(obs[i])
            if end.startswith("inside"):
                w.close()
            if end == "return":
                return "returned"
            if end == "inside_raise":
                raise Boom("inside")
            if end.startswith("raise_"):
                raise EXC[end[6:]]("block")
        return "left"

    if end == "close":
        for i in hist_:
            w.write(obs[i])
        w.close()
    else:
        exc = Boom if end == "inside_raise" else EXC.get(end[6:]) if end.startswith("raise_") else None
        try:
            r = block()
            require(exc is None, "the block's exception", end, "was swallowed")
            require(r == ("returned" if end == "return" else "left"), "result of the block", r)
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (Violation, Hang)) or exc is None or type(e) is not exc:
                raise
            require(e.args in (("block",), ("inside",)), "the block's exception was replaced by", repr(e))
    require(t.closed(), "the file is not closed after", end)
    data = t.data()
    got = blf.read_all(data)
    blf.same_objects(got, want, "after %s" % end)
    hdr = env.general.FileStatistics.unpack(data[:144])
    require(hdr.object_count == len(want) and hdr.file_size == len(data), "header", hdr)
    for op in after:
        if op == "close":
            w.close()
        elif op == "exit":
            with_exit(w)
        else:
            try:
                w.write(obs[0])
            except Exception:  # noqa: BLE001
                pass
            else:
                raise Violation("write after %s returned normally" % end)
        require(t.closed() and t.data() == data, op, "after close changed the file")
    return (kind, B, level, hist_, end, after, hash(data))


def case_ratio(kind, B, level, n, end):
    """An object of many buffers, still pending or already flushed when the log ends."""
    t = Target(kind)
    w = env.BlfWriter(t.arg, compression_level=level, buffer_size=B)
    o = [objs.opaque(16), objs.opaque(n, b"LOBJ"), objs.opaque(19)]
    if end == "with":
        with w:
            for x in o:
                w.write(x)
    else:
        for x in o:
            w.write(x)
        w.close()
    require(t.closed(), "the file is not closed")
    data = t.data()
    blf.same_objects(blf.read_all(data), [x.pack() for x in o])
    w.close()
    require(t.data() == data, "closing again changed the file")
    return (kind, B, level, n, end)


def with_exit(w):
    w.__exit__(None, None, None)


LEAVE = ("normal", "raise", "key", "return", "twice", "closed")


def case_reader(kind, level, n, leave):
    raws, obs = hist.alpha("trio")
    data = blf.write_log(obs, 40, level).final
    path = os.path.join(scratch(), "r.blf")
    with open(path, "wb") as f:
        f.write(data)
    if kind == "mem":
        arg = io.BytesIO(data)
    elif kind == "raw":
        arg = open(path, "rb", buffering=0)  # noqa: SIM115
    elif kind == "buf":
        arg = open(path, "rb")  # noqa: SIM115
    else:
        arg = path
    r = env.BlfReader(arg)

    def is_closed():
        return open_fds(path) == 0 if kind == "path" else arg.closed

    def block():
        with r as x:
            require(x is r, "with-block yields another object")
            for i in range(n):
                o = r.read_object()
                require((o is None) == (i >= len(raws)) and (o is None or o.pack() == raws[i]), "object", i)
            require(not is_closed(), "the file was closed while reading")
            if leave == "raise":
                raise Boom("block")
            if leave == "key":
                raise KeyboardInterrupt("block")
            if leave == "return":
                return 1
            if leave == "closed":
                r.__exit__(None, None, None)
        return 2

    exc = {"raise": Boom, "key": KeyboardInterrupt}.get(leave)
    try:
        block()
        require(exc is None, "the block's exception was swallowed")
    except BaseException as e:  # noqa: BLE001
        if exc is None or type(e) is not exc:
            raise
    require(is_closed(), "the reader's file is still open after leaving the with-block by", leave)
    if leave == "twice":
        r.__exit__(None, None, None)
        require(is_closed(), "reopened")
    return (kind, level, n, leave)


_X = []


def exceptions():
    """One of each of the interpreter's exception classes, OSErrors of all numbers, and some others."""
    if not _X:
        for c in sorted((c for c in vars(builtins).values() if isinstance(c, type) and issubclass(c, BaseException)), key=lambda c: c.__name__):
            if issubclass(c, UnicodeDecodeError):
                e = c("ascii", b"x", 0, 1, "no")
            elif issubclass(c, UnicodeEncodeError):
                e = c("ascii", "x", 0, 1, "no")
            elif issubclass(c, UnicodeTranslateError):
                e = c("x", 0, 1, "no")
            elif issubclass(c, BaseExceptionGroup):
                e = c("many", [ValueError("one")])
            else:
                e = c("block")
            _X.append(e)
        _X.extend(OSError(n, os.strerror(n)) for n in sorted(errno.errorcode))
        _X.extend([zlib.error("Error -3"), struct.error("unpack"), asyncio.CancelledError(), SystemExit(0), SystemExit(None), Quiet(), subprocess.CalledProcessError(1, "x"), io.UnsupportedOperation("x"), Boom()])
    return _X


class Quiet(Exception):
    """Counts as false."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


def case_block(which, i, kind, n):
    """A with-block left by the i-th exception, after n objects."""
    raws, obs = hist.alpha("trio")
    e = exceptions()[i]
    e.__traceback__ = e.__context__ = e.__cause__ = None
    if which == "w":
        t = Target(kind)
        x = env.BlfWriter(t.arg, buffer_size=40)
    else:
        arg = io.BytesIO(blf.write_log(obs, 40, 0).final)
        x = env.BlfReader(arg)
    try:
        with x:
            for o in obs[:n]:
                if which == "w":
                    x.write(o)
                else:
                    require(x.read_object() is not None, "an object is missing")
            raise e
    except BaseException as got:  # noqa: BLE001
        if got is not e:
            raise
    else:
        raise Violation("the block's exception %r was swallowed" % (e,))
    if which == "r":
        require(arg.closed, "the reader's file is open after", repr(e))
    else:
        require(t.closed(), "the writer's file is open after", repr(e))
        blf.same_objects(blf.read_all(t.data()), raws[:n])
        hdr = env.general.FileStatistics.unpack(t.data()[:144])
        require(hdr.object_count == n and hdr.file_size == len(t.data()), "header", hdr)
    return (which, i, kind, n)


SIZES = list(range(-2, 51)) + [64, 1000, 131072]


def units(tier):
    th = tier == "thorough"
    u = [("life", B, 5 if th else 3, 4 if th else 3) for B in (1, 16, 40, 1000)]
    u += [("sizes", B) for B in SIZES] + [("files", k) for k in ("raw", "buf", "path")] + [("reader",), ("blocks",)] + [("ratio", B) for B in (1, 2, 5, 8, 9, 16, 50)]
    return [x + (p,) for x in u for p in range(8 if x[0] == "life" else 1)]


def run_unit(u, ctx):
    if u[0] == "life":
        _, B, dw, da, p = u
        i = 0
        for h in hist.sequences(3, dw):
            for end in ENDS:
                for n in range(da + 1):
                    for after in product(AFTER, repeat=n):
                        i += 1
                        if i % 8 == p:
                            step(ctx, ctx.do(case_writer, "mem", B, (0, 6)[i // 8 % 2], h, end, after))
    elif u[0] == "sizes":
        for level in (0, 1, 6, 9):
            for h in hist.sequences(3, 2):
                for end in ENDS:
                    step(ctx, ctx.do(case_writer, "mem", u[1], level, h, end, ("close", "write", "exit")))
    elif u[0] == "files":
        for B in (-1, 0, 1, 40, 1000):
            for level in (0, 6):
                for h in hist.sequences(3, 2):
                    for end in ENDS:
                        step(ctx, ctx.do(case_writer, u[1], B, level, h, end, ("close", "write")))
    elif u[0] == "ratio":
        for n, level, end in product((1001 * u[1], 2100 * u[1] + 16, 20001), (0, 6), ("close", "with")):
            for kind in ("mem", "buf", "path"):
                ctx.do(case_ratio, kind, u[1], level, max(n, 16), end)
    elif u[0] == "blocks":
        for i in range(len(exceptions())):
            for n in range(4):
                ctx.do(case_block, "r", i, "mem", n)
                for kind in ("mem", "path"):
                    ctx.do(case_block, "w", i, kind, n)
    else:
        for kind, level, n, leave in product(("mem", "raw", "buf", "path"), (0, 6), range(6), LEAVE):
            ctx.do(case_reader, kind, level, n, leave)
    ctx.count("traces_validated_against_impl", ctx.n)


def step(ctx, obs):
    """The model's states along this life."""
    if not obs or obs[0] == "refused":
        return
    kind, B, level, h, end, after, fin = obs
    prev = ("open", 0)
    for k in range(len(h)):
        cur = ("open", h[:k + 1])
        ctx.trans(B, level, prev, "write", cur)
        ctx.state(B, level, cur)
        prev = cur
    cur = ("closed", h, fin)
    ctx.trans(B, level, prev, end, cur)
    ctx.state(B, level, cur)
    for op in after:
        ctx.trans(B, level, cur, op, cur)
