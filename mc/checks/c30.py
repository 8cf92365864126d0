"""C30: a refused open leaves no trace."""
import enum
import io
import os
import pathlib
from decimal import Decimal
from fractions import Fraction
from itertools import product

from mc import blf, env, hist
from mc.core import Violation, require, scratch
from mc.env import CLOCK

PROP = "C30"
LEVEL = "exploration"
RULE = ("A case is one sequence of openings of one path or file object, refused and accepted ones, with the directory, the file's bytes and the process's open files compared after "
        "each. Non-trivial = distinct (sequence, form, previous content, outcome).")
BOUNDS = {
    "quick": "numbers of open files in 5 forms; 20 values that are no integers as level and as buffer size x forms x contents; all compression levels from -300 to 300 and 12 further to +-2^64 x 3 buffer sizes, buffer sizes from -300 to 0 and 8 further to -2^64, both wrong; x 6 forms of the path or file x 6 previous contents; reading: all "
             "proper prefixes of two logs, all 4-byte signatures one bit or one byte value away from the right one, x 8 forms; all sequences up to 5 of 9 openings (right, refused, foreign content) of one path; 400 refused openings in a row",
    "thorough": "all sequences up to 6; all forms x contents x levels",
}
ASSUMPTIONS = ["levels and buffer sizes are integers", "open files are those listed in /proc/self/fd while the exception is still held"]
FAR = [s * (2 ** k) + d for k in (15, 16, 31, 32, 63, 64) for s, d in ((-1, 0), (1, 0))]
BAD_B = [-(2 ** k) for k in (10, 15, 16, 17, 31, 32, 63, 64)]
PREV = ("none", "empty", "log", "long", "link", "newlink")
WFORMS = ("str", "bytes", "path", "mem", "file", "rand")
RFORMS = ("str", "bytes", "path", "mem", "rb", "raw", "rand", "tiny")


class PL:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def good(n=2, level=0):
    """A valid log with n objects."""
    raws = hist.alphabet("tiny")
    stream = b"".join(blf.pad(raws[i], 8) for i in range(n))
    return blf.file_header(level) + blf.container(stream, level)


def base():
    d = os.path.join(scratch(), "c30")
    os.makedirs(d, exist_ok=True)
    return d


def prepare(prev, d):
    path = os.path.join(d, "a.blf")
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    if prev in ("link", "newlink"):
        os.symlink(os.path.join(d, "target"), path)
    if prev not in ("none", "newlink"):
        with open(os.path.join(d, "target") if prev == "link" else path, "wb") as f:
            f.write({"empty": b"", "log": good(), "long": good() + b"\xee" * 5000, "link": good(3)}[prev])
        os.utime(path, ns=(10 ** 18, 10 ** 18))
    return path


def snapshot(d):
    """Everything about a directory that an opening could change: names, kinds, contents, modes, times of change."""
    out = []
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        st = os.lstat(p)
        body = os.readlink(p) if os.path.islink(p) else open(p, "rb").read()  # noqa: SIM115
        out.append((n, st.st_mode, st.st_ino, st.st_size, st.st_mtime_ns, body))
    return out


def open_files():
    out = set()
    for fd in os.listdir("/proc/self/fd"):
        try:
            out.add((fd, os.readlink("/proc/self/fd/" + fd)))
        except OSError:  # the listing's own descriptor
            pass
    return out


def argument(form, path):
    """(argument, file object to be left open)"""
    if form == "str":
        return path, None
    if form == "bytes":
        return os.fsencode(path), None
    if form == "path":
        return pathlib.Path(path), None
    if form == "like":
        return PL(path), None
    if form == "mem":
        f = blf.Sink(b"previous content")
    elif form == "file":
        f = open(path, "ab")  # noqa: SIM115 - opened without truncation by its owner
    elif form in ("rand", "tiny"):
        f = open(path, "r+b", buffering=16 if form == "tiny" else -1)  # noqa: SIM115
    elif form == "raw":
        f = open(path, "rb", buffering=0)  # noqa: SIM115
    else:
        f = open(path, "rb")  # noqa: SIM115
    return f, f


def refused(make, what):
    """Runs make(), which has to be refused; returns the exception, still holding its frames."""
    try:
        x = make()
    except (ValueError, TypeError) as e:
        if isinstance(e, UnicodeError):
            raise
        return e
    x.__exit__(None, None, None)
    raise Violation("accepted: %s" % (what,))


ODD = {"1.5": 1.5, "6.0": 6.0, "9.5": 9.5, "-0.0": -0.0, "nan": float("nan"), "inf": float("inf"), "100.25": 100.25, "str": "6", "empty": "", "bytes": b"6", "none": None, "list": [6], "tuple": (6,), "fraction": Fraction(13, 2), "whole": Fraction(6),
       "decimal": Decimal("6"), "complex": 6 + 0j, "object": object(), "class": int, "enum": enum.Enum("Level", "SIX").SIX}


def odd_settings(form, prev, level, B):
    """Settings that are no integers, named by ODD's keys."""
    return (*bad_settings(form, prev, ODD.get(level, level), ODD.get(B, B))[:2], level, B)


def bad_settings(form, prev, level, B):
    d = base()
    path = prepare(prev, d)
    if form in ("file", "rand") and prev in ("none", "newlink"):
        return None
    arg, own = argument(form, path)
    try:
        before, fds = snapshot(d), open_files()
        if own is not None:
            pos, size = own.tell(), len(own.getvalue()) if form == "mem" else 0
        held = refused(lambda: env.BlfWriter(arg, compression_level=level, buffer_size=B), (level, B))
        require(snapshot(d) == before, "a refused writer (level %s, buffer %s) changed the directory: %s -> %s" % (level, B, before, snapshot(d)))
        require(open_files() == fds, "a refused writer left files open:", open_files() ^ fds)
        if own is not None:
            require(not own.closed, "a refused writer closed the file it was given")
            require(own.tell() == pos, "a refused writer moved in the file it was given:", pos, own.tell())
            if form == "mem":
                require(own.calls == 0 and len(own.getvalue()) == size, "a refused writer wrote to the file it was given")
            else:
                own.flush()
                require(snapshot(d) == before, "a refused writer wrote to the file it was given")
        kind = type(held).__name__
        del held
    finally:
        if own is not None:
            own.close()
    return (form, prev, level, B, kind)


def good_settings(form, level, B):
    """The settings next to the refused ones are accepted and work."""
    d = base()
    path = prepare("log", d)
    sink = blf.Sink()
    arg = sink if form == "mem" else argument(form, path)[0]
    objs = hist.alpha("tiny")[1]
    fds = open_files()
    w = env.BlfWriter(arg, compression_level=level, buffer_size=B)
    for o in objs:
        w.write(o)
    w.close()
    data = sink.final
    if form != "mem":
        with open(path, "rb") as f:
            data = f.read()
        require(open_files() == fds, "a closed writer left files open:", open_files() ^ fds)
    blf.same_objects(blf.read_all(data), hist.alphabet("tiny"))
    return (form, level, B)


def bad_content(form, data, extra):
    d = base()
    path = prepare("none", d)
    data = data + extra
    with open(path, "wb") as f:
        f.write(data)
    os.utime(path, ns=(10 ** 18, 10 ** 18))
    arg, own = (lambda m: (m, m))(io.BytesIO(data)) if form == "mem" else argument(form, path)
    try:
        before, fds = snapshot(d), open_files()
        held = refused(lambda: env.BlfReader(arg), data[:160])
        require(open_files() == fds, "a refused reader left files open:", open_files() ^ fds)
        require(snapshot(d) == before, "a refused reader changed the file")
        if own is not None:
            require(not own.closed, "a refused reader closed the file it was given")
            own.seek(0)
            require(own.read() == data, "the file a refused reader was given has other content")
        kind = type(held).__name__
        del held
    finally:
        if own is not None:
            own.close()
    # the path is free for any other use
    if own is None:
        os.rename(path, path + ".old")
        w = env.BlfWriter(path)
        w.close()
        with env.BlfReader(path) as r:
            require(r.read_object() is None, "an empty log has objects")
    return (form, len(data), data[:4], kind)


def bad_argument(kind, which):
    """Neither a path nor a file."""
    d = base()
    prepare("log", d)
    arg = {"none": None, "float": 1.5, "list": [], "tuple": ("a",), "object": object(), "set": {1}, "class": dict, "func": len}[kind]
    cwd = os.getcwd()
    os.chdir(d)
    try:
        before, fds = snapshot(d), open_files()
        held = refused(lambda: env.BlfWriter(arg) if which == "w" else env.BlfReader(arg), arg)
        require(isinstance(held, TypeError), "refused with", repr(held))
        require(open_files() == fds, "files left open:", open_files() ^ fds)
        require(snapshot(d) == before, "a refused opening changed the directory")
        del held
    finally:
        os.chdir(cwd)
    return (kind, which)


class Number(int):
    pass


class Index:
    def __init__(self, n):
        self.n = n

    def __index__(self):
        return self.n


class Fileno:
    def __init__(self, n):
        self.n = n

    def fileno(self):
        return self.n


def descriptor(kind, which, content):
    """The number of an open file is neither a path nor a file."""
    d = base()
    path = prepare(content, d)
    fd = os.open(path, os.O_RDWR)
    try:
        os.lseek(fd, 0 if which == "r" else 5, os.SEEK_SET)
        at = os.lseek(fd, 0, os.SEEK_CUR)
        arg = {"int": int, "sub": Number, "index": Index, "fileno": Fileno, "str": str, "bytes": lambda n: b"%d" % n, "float": float}[kind](fd)
        before, fds = snapshot(d), open_files()
        cwd = os.getcwd()
        os.chdir(d)
        try:
            if kind in ("str", "bytes"):  # a path that looks like a number
                x = None
                if which == "w":
                    x = env.BlfWriter(arg)
                    x.close()
                    require(os.path.getsize(os.fsdecode(arg)) == 144, "the file", arg, "is missing")
                    os.unlink(arg)
                else:
                    try:
                        x = env.BlfReader(arg)
                    except FileNotFoundError:
                        pass
                    else:
                        raise Violation("opened %r" % (arg,))
            else:
                held = refused(lambda: env.BlfWriter(arg) if which == "w" else env.BlfReader(arg), arg)
                require(isinstance(held, TypeError), "refused with", repr(held))
                del held
        finally:
            os.chdir(cwd)
        require(open_files() == fds, "files left open or closed:", open_files() ^ fds)
        require(os.lseek(fd, 0, os.SEEK_CUR) == at and snapshot(d) == before, "the file whose number was given was touched")
    finally:
        os.close(fd)
    return (kind, which, content)


def missing(form, which, kind):
    """A path that the operating system does not let be opened: its error, and nothing left behind."""
    d = base()
    prepare("log", d)
    path = {"nodir": os.path.join(d, "no", "a.blf"), "absent": os.path.join(d, "b.blf"), "dir": d, "notdir": os.path.join(d, "a.blf", "b"), "nul": os.path.join(d, "a\0b"),
            "long": os.path.join(d, "x" * 300), "loop": os.path.join(d, "l")}[kind]
    if kind == "loop":
        os.symlink("l", path)
    if which == "w" and kind == "absent":
        return None
    arg = argument(form, path)[0]
    before, fds = snapshot(d) if kind != "loop" else sorted(os.listdir(d)), open_files()
    try:
        x = env.BlfReader(arg) if which == "r" else env.BlfWriter(arg)
    except (OSError, ValueError) as e:
        require(isinstance(e, ValueError) == (kind == "nul"), "refused with", repr(e))
        require(open_files() == fds, "files left open:", open_files() ^ fds)
        require((snapshot(d) if kind != "loop" else sorted(os.listdir(d))) == before, "a failed opening changed the directory")
        return (form, which, kind)
    x.__exit__(None, None, None)
    raise Violation("opened %r" % (path,))


OPS = ("write1", "write2", "level", "buffer", "both", "read", "foreign", "short", "leave")


def sequence(ops, form):
    """Openings of one path one after another: after each, the file is what the last accepted one made of it."""
    d = base()
    path = prepare("none", d)
    arg = argument(form, path)[0]
    obs, raws = hist.alpha("tiny")[1], hist.alphabet("tiny")
    want = None  # the bytes of the file
    inside = []
    valid = True
    held = []
    out = []
    fds = open_files()
    CLOCK.reset()
    for op in ops:
        if op in ("write1", "write2"):
            k = int(op[-1])
            w = env.BlfWriter(arg, compression_level=3 * k, buffer_size=20 * k)
            for o in obs[:k]:
                w.write(o)
            w.close()
            with open(path, "rb") as f:
                want = f.read()
            inside, valid = raws[:k], True
        elif op in ("level", "buffer", "both"):
            kw = {"level": {"compression_level": 10}, "buffer": {"buffer_size": 0}, "both": {"compression_level": -1, "buffer_size": -1}}[op]
            held.append(refused(lambda: env.BlfWriter(arg, **kw), kw))  # noqa: B023
        elif op in ("foreign", "short"):
            want = b"LOGX" + good()[4:] if op == "foreign" else good()[:143]
            with open(path, "wb") as f:
                f.write(want)
            valid = False
        elif want is None:
            try:
                env.BlfReader(arg)
            except FileNotFoundError as e:
                held.append(e)
            else:
                raise Violation("a file that is not there was opened")
        elif not valid:
            held.append(refused(lambda: env.BlfReader(arg), want[:8]))
        else:
            with env.BlfReader(arg) as r:
                if op == "read":
                    blf.same_objects(list(r), inside)
                else:
                    o = r.read_object()
                    require(o is not None and o.pack() == inside[0], "first object", o)
        require(open_files() == fds, op, "left files open:", open_files() ^ fds)
        now = None
        if os.path.exists(path):
            with open(path, "rb") as f:
                now = f.read()
        require(now == want, "after", op, "the file is", now and now[:200], "instead of", want and want[:200])
        require(os.listdir(d) == ([] if want is None else ["a.blf"]), "after", op, "the directory has", os.listdir(d))
        out.append((valid, want is not None, len(inside)))
    del held
    return (form, ops, tuple(out))


def many(form, kind, n):
    """Refused openings do not use anything up."""
    d = base()
    path = prepare("log" if kind != "foreign" else "none", d)
    if kind == "foreign":
        with open(path, "wb") as f:
            f.write(b"x" * 200)
    arg = argument(form, path)[0]
    fds = open_files()
    before = snapshot(d)
    held = []
    for i in range(n):
        held.append(refused((lambda: env.BlfReader(arg)) if kind == "foreign" else (lambda: env.BlfWriter(arg, compression_level=10 + i)), i))  # noqa: B023
    require(open_files() == fds, "files left open:", len(open_files() ^ fds))
    require(snapshot(d) == before, "the directory changed")
    return (form, kind, n)


def settings(tier):
    out = [(lv, B) for lv in [*range(-300, 0), *range(10, 301), *FAR] for B in (1, 100, 131072)]
    out += [(lv, B) for B in [*range(-300, 1), *BAD_B] for lv in (0, 6, 9)]
    out += [(lv, B) for lv in (-1, 10, 255, 256, -(2 ** 31)) for B in (0, -1, -(2 ** 31))]
    return out


def units(tier):
    deep = tier == "thorough"
    u = [("settings", f, p) for f in WFORMS for p in PREV]
    u += [("good", f) for f in ("str", "path", "mem")]
    u += [("prefix", f) for f in RFORMS] + [("sig", f, k) for f in RFORMS for k in range(4)]
    u += [("other",)]
    u += [("seq", a, b, f, 6 if deep else 5) for a in range(len(OPS)) for b in range(len(OPS)) for f in ("str", "like")]
    u += [("many", f) for f in ("str", "bytes", "path")]
    return u


def run_unit(unit, ctx):
    kind = unit[0]
    if kind == "settings":
        for k in ODD:
            for lv, B in ((k, 100), (k, 131072), (0, k), (6, k), (k, k), (k, 0), (10, k)):
                if not (unit[1] in ("file", "rand") and unit[2] in ("none", "newlink")):
                    ctx.do(odd_settings, unit[1], unit[2], lv, B)
        for lv, B in settings(None):
            if unit[1:] in (("str", "none"), ("str", "log"), ("mem", "none"), ("file", "log")) or B in (0, 1, -1) or lv in FAR:
                ctx.do(bad_settings, unit[1], unit[2], lv, B)
    elif kind == "good":
        for lv, B in product(range(10), (1, 2, 7, 8, 9, 16, 17, 24, 100, 65536, 2 ** 31, 2 ** 40)):
            ctx.do(good_settings, unit[1], lv, B)
    elif kind == "prefix":
        for lv in (0, 6):
            data = good(2, lv)
            for n in range(144):
                ctx.do(bad_content, unit[1], data[:n], b"")
        for n in (144, 145, 1000, 70000):
            for fill in (b"\0", b"\xff", b"LOBJ", b"LOGF"):
                ctx.do(bad_content, unit[1], (fill * n)[:n], b"")
    elif kind == "sig":
        rest = good()[4:]
        k = unit[2]
        for v in range(256):
            s = bytearray(b"LOGG")
            if s[k] != v:
                s[k] = v
                ctx.do(bad_content, unit[1], bytes(s), rest)
    elif kind == "other":
        for k in ("none", "float", "list", "tuple", "object", "set", "class", "func"):
            for w in "rw":
                ctx.do(bad_argument, k, w)
        for k in ("int", "sub", "index", "fileno", "str", "bytes", "float"):
            for w in "rw":
                for c in ("empty", "log", "long"):
                    ctx.do(descriptor, k, w, c)
        for f in ("str", "bytes", "path", "like"):
            for w in "rw":
                for k in ("nodir", "absent", "dir", "notdir", "nul", "long", "loop"):
                    ctx.do(missing, f, w, k)
    elif kind == "seq":
        _, a, b, f, depth = unit
        if a == b:
            ctx.do(sequence, (OPS[a],), f)
        for h in hist.sequences(len(OPS), depth - 2):
            ctx.do(sequence, (OPS[a], OPS[b], *(OPS[i] for i in h)), f)
    else:
        for k in ("foreign", "level"):
            ctx.do(many, unit[1], k, 400)
