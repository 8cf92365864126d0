"""C23: every form of naming a file."""
import gzip
import io
import mmap
import os
import pathlib
import shutil
import sys
import tempfile
import zipfile
from itertools import product

from mc import blf, env, hist
from mc.core import Violation, require, scratch
from mc.env import CLOCK

PROP = "C23"
LEVEL = "exploration"
RULE = ("A case is one history written through one form of path or file over one previous content of that path, compared byte by byte with the same history written to "
        "memory, and read back through one form. Non-trivial = distinct (history, form, previous content, reading form).")
BOUNDS = {
    "quick": "9 ways to name a path (str, bytes, Path, PathLike giving str / bytes, relative, str and Path subclasses, non-ASCII name) and 8 kinds of open files for writing, 9 + 14 (also gzip, zip member, mmap, spooled, inside a larger file) for reading; "
             "11 previous contents (none, empty, shorter, exactly as long, longer, an old log, a symbolic link to a file or to none, a second name); all sequences up to 2 writes of 3 objects; 3 "
             "buffer sizes, levels 0 and 6; file lengths from 144 to 300,000 bytes; 51 special file names (tilde, dollar, wildcards, escapes, subdirectories, through a link and up again, undecodable bytes, 254 characters) x 10 forms for writing x 10 for reading x "
             "new / existing; 9 contents x 12 forms read completely or left early: the file unchanged, opened for reading only; paths that cannot be opened",
    "thorough": "all combinations of writing form, reading form and previous content for all sequences up to length 3",
}
ASSUMPTIONS = ["the clock gives the same readings for each form", "an open file object is positioned at the start of an empty file (writing) or of the log (reading)"]


# names that shells, URLs, glob patterns, format strings or editors would treat specially, relative to the directory
NAMES = ["~", "~.blf", "~root", "$HOME", "${HOME}.blf", "%HOME%", "a b.blf", " a", "a ", "a.", ".blf", "..blf", "a%41.blf", "file:a.blf", "a*.blf", "[a].blf", "a?.blf", "{a}.blf", "-", "-a",
         "A.BLF", "a", "a.blf.gz", "a.asc", "a\nb.blf", "a\\b.blf", "a:b", "1", "nul", "con.blf", "l\u00f6g.blf", "lo\u0308g.blf", "\u65e5\u672c.blf", "\U0001f600", "a\udc80b.blf", "x" * 250 + ".blf",
         "d/a.blf", "./a.blf", "d/../a.blf", "d//a.blf", "./~", "~/a.blf", "$HOME/a.blf", "d e/a.blf", "LOGG", "LOGGa.blf", "l/a.blf", "l/../a.blf", "l/../../a.blf", "./l/.././a.blf", "d/../l/../a.blf"]
NFORMS = ("str", "bytes", "path", "like", "blike", "sub", "psub", "abs", "absb", "absp")


class PL:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


class S(str):
    pass


class P(type(pathlib.Path())):
    pass


PATHS = ("str", "bytes", "path", "like", "blike", "rel", "sub", "psub", "odd")
WFILES = ("mem", "wb", "w+b", "raw", "temp", "rand", "fd", "duck")
RFILES = ("mem", "rb", "r+b", "raw", "tiny", "temp", "gzip", "mmap", "spool", "zip", "fd", "duck", "embedded", "embedmem")
PREV = ("none", "empty", "short", "same", "long", "huge", "log", "link", "hard", "newlink", "readonlytail")


class Duck:
    """A file object that is no io class."""

    def __init__(self, f):
        self.f = f

    def __getattr__(self, name):
        return getattr(self.f, name)


def name_as(form, path):
    if form == "odd":
        return os.path.join(os.path.dirname(path), "l\u00f6g \u65e5\u672c #1%s.blf")
    return {"str": path, "bytes": os.fsencode(path), "path": pathlib.Path(path), "like": PL(path), "blike": PL(os.fsencode(path)),
            "rel": os.path.relpath(path), "sub": S(path), "psub": P(path)}[form]


def prepare(prev, path, want):
    for p in (path, path + ".target"):
        if os.path.lexists(p):
            os.unlink(p)
    if prev == "newlink":
        os.symlink(path + ".target", path)
    if prev in ("none", "newlink"):
        return
    content = {"empty": b"", "short": b"x" * 10, "same": b"\xee" * len(want), "long": b"\xdd" * (len(want) + 1), "huge": b"LOBJ" * (len(want) + 500),
               "log": want[:144] + want[144:] * 3, "link": b"old" * 1000, "hard": b"old" * 99, "readonlytail": want + b"LOBJ\x10\0\1\0\x10\0\0\0\x17\0\0\0"}[prev]
    with open(path + (".target" if prev == "link" else ""), "wb") as f:
        f.write(content)
    if prev == "link":
        os.symlink(path + ".target", path)
    if prev == "hard":
        os.link(path, path + ".target")


def write(form, path, h, B, level, aname):
    obs = hist.alpha(aname)[1]
    CLOCK.reset()
    if form == "mem":
        arg = blf.Sink()
    elif form in ("wb", "w+b"):
        arg = open(path, form)  # noqa: SIM115
    elif form == "raw":
        arg = open(path, "wb", buffering=0)  # noqa: SIM115
    elif form == "rand":
        open(path, "wb").close()
        arg = open(path, "r+b", buffering=16)  # noqa: SIM115
    elif form == "fd":
        arg = os.fdopen(os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600), "wb")
    elif form == "duck":
        arg = Duck(open(path, "wb"))  # noqa: SIM115
    elif form == "temp":
        arg = tempfile.NamedTemporaryFile(dir=scratch(), delete=False)  # noqa: SIM115
        path = arg.name
    else:
        arg = name_as(form, path)
    w = env.BlfWriter(arg, compression_level=level, buffer_size=B)
    for i in h:
        w.write(obs[i])
        CLOCK.step(0.25)
    w.close()
    if form == "mem":
        return arg.final
    if form in PATHS:
        path = os.fsdecode(os.fspath(arg))
    with open(path, "rb") as f:
        data = f.read()
    if form in ("temp", "odd"):
        os.unlink(path)
    return data


def read(form, path, data):
    if form == "mem":
        arg = io.BytesIO(data)
    elif form in PATHS:
        arg = name_as(form, path)
        target = os.fsdecode(os.fspath(arg))
        with open(target, "wb") as f:
            f.write(data)
    else:
        with open(path, "wb") as f:
            f.write(data)
        if form in ("rb", "r+b"):
            arg = open(path, form)  # noqa: SIM115
        elif form == "raw":
            arg = open(path, "rb", buffering=0)  # noqa: SIM115
        elif form == "fd":
            arg = os.fdopen(os.open(path, os.O_RDONLY), "rb")
        elif form == "duck":
            arg = Duck(open(path, "rb"))  # noqa: SIM115
        elif form == "gzip":
            with gzip.open(path, "wb") as f:
                f.write(data)
            arg = gzip.open(path, "rb")  # noqa: SIM115
        elif form == "zip":
            with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
                z.writestr("a.blf", data)
            arg = zipfile.ZipFile(path).open("a.blf")
        elif form == "mmap":
            with open(path, "rb") as f:
                arg = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
        elif form == "spool":
            arg = tempfile.SpooledTemporaryFile(max_size=1000, dir=scratch())  # noqa: SIM115
            arg.write(data)
            arg.seek(0)
        elif form in ("embedded", "embedmem"):  # the log is a part of a larger file
            with open(path, "wb") as f:
                f.write(b"LOGGLOBJ\x10" + data)
            arg = open(path, "rb") if form == "embedded" else io.BytesIO(b"LOGGLOBJ\x10" + data)  # noqa: SIM115
            arg.seek(9)
        elif form == "tiny":
            arg = io.BufferedReader(io.FileIO(path), buffer_size=5)
        else:
            arg = tempfile.NamedTemporaryFile(dir=scratch())  # noqa: SIM115
            arg.write(data)
            arg.seek(0)
    with env.BlfReader(arg) as r:
        got = list(r)
        fs = r.file_statistics
    if form == "odd":
        os.unlink(target)
    return got, fs


_REF = {}


def reference(aname, h, B, level):
    key = (aname, h, B, level)
    if key not in _REF:
        _REF[key] = write("mem", None, h, B, level, aname)
    return _REF[key]


def case(aname, h, B, level, wform, prev, rform):
    path = os.path.join(scratch(), "a.blf")
    want = reference(aname, h, B, level)
    os.chdir(scratch())
    prepare(prev if wform in PATHS else "none", path, want)
    data = write(wform, path, h, B, level, aname)
    require(data == want, wform, "over", prev, "gives", len(data), "bytes instead of", len(want), "first difference at",
            next((i for i, (a, b) in enumerate(zip(data, want)) if a != b), min(len(data), len(want))))
    if wform in PATHS and wform != "odd" and prev in ("link", "hard", "newlink"):
        require(os.path.islink(path) == (prev != "hard"), "the link is replaced by a file")
        with open(path + ".target", "rb") as f:
            require(f.read() == want, "the file behind the", prev, "is not the log")
    for p in (path, path + ".target"):
        if os.path.lexists(p):
            os.unlink(p)
    got, fs = read(rform, path, want)
    blf.same_objects(got, [hist.alpha(aname)[0][i] for i in h], "read through " + rform)
    require(fs.pack() == want[:144], "file header through", rform)
    return (aname, h, B, level, wform, prev, rform)


def named(form, name):
    full = os.path.join(os.getcwd(), name)
    return {"str": name, "bytes": os.fsencode(name), "path": pathlib.Path(name), "like": PL(name), "blike": PL(os.fsencode(name)), "sub": S(name), "psub": P(name),
            "abs": full, "absb": os.fsencode(full), "absp": pathlib.Path(full)}[form]


def case_name(name, wform, rform, old):
    """A log with this name relative to the current directory; the environment gives HOME another meaning."""
    aname, h, B, level = "trio", (2, 0, 1), 24, 6
    want = reference(aname, h, B, level)
    base = os.path.join(scratch(), "names")
    shutil.rmtree(base, ignore_errors=True)
    for d in ("d", "d e", "~", "$HOME"):
        if d + "/" in name or d[0] == "d":
            os.makedirs(os.path.join(base, d))
    os.makedirs(base + "/elsewhere")
    if "l/" in name:
        os.makedirs(base + "/x/y")
        os.symlink("x/y", base + "/l")
    os.chdir(base)
    env_home = os.environ.get("HOME")
    os.environ["HOME"] = base + "/elsewhere"
    try:
        if old:
            with open(os.path.join(base, name), "wb") as f:
                f.write(b"old" * 300)
        CLOCK.reset()
        with env.BlfWriter(named(wform, name), compression_level=level, buffer_size=B) as w:
            for i in h:
                w.write(hist.alpha(aname)[1][i])
                CLOCK.step(0.25)
        with open(os.path.join(base, name), "rb") as f:
            data = f.read()
        require(data == want, name, wform, "contains", len(data), "bytes instead of", len(want))
        files = sorted(os.path.relpath(os.path.join(d, x), base) for d, _, fs in os.walk(base) for x in fs)
        require(files == [os.path.relpath(os.path.realpath(name), os.path.realpath(base))], "files", files, "instead of", name)
        with env.BlfReader(named(rform, name)) as r:
            blf.same_objects(list(r), [hist.alpha(aname)[0][i] for i in h], "read from " + repr(name))
    finally:
        os.chdir(scratch())
        if env_home is not None:
            os.environ["HOME"] = env_home
        shutil.rmtree(base, ignore_errors=True)
    return (name, wform, rform, old)


OPENED = None
HOOKED = []


def audit(event, args):
    if OPENED is not None and event == "open":
        OPENED.append(args)


class Guard(io.BytesIO):
    """A file that must not be changed."""

    def write(self, b):
        raise Violation("the reader writes to the file")

    writelines = write

    def truncate(self, size=None):
        raise Violation("the reader cuts the file")


def contents():
    want = reference("trio", (2, 0, 1), 24, 6)
    bad = bytearray(want)
    bad[190] ^= 255
    return {"log": want, "cut": want[:-9], "damaged": bytes(bad), "header": want[:144], "short": want[:100], "other": b"x" * 300, "empty": b"",
            "count": want[:32] + bytes(4) + want[36:], "tail": want + b"LOBJ" * 9}


def consume(arg, leave):
    try:
        with env.BlfReader(arg) as r:
            for _ in r:
                if leave:
                    break
    except Violation:
        raise
    except Exception:  # noqa: BLE001 - C17 and C18 decide what reading gives
        pass


def case_untouched(kind, form, leave):
    """Reading changes neither the file nor its directory, and opens it for reading only."""
    global OPENED
    data = contents()[kind]
    if form == "mem":
        g = Guard(data)
        consume(g, leave)
        return (kind, form, leave)
    base = os.path.join(scratch(), "ro")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    path = os.path.join(base, "a.blf")
    with open(path, "wb") as f:
        f.write(data)
    os.chmod(path, 0o444)
    os.utime(path, ns=(10**18, 10**18))
    os.chmod(base, 0o555)
    os.chdir(base)
    if not HOOKED:
        HOOKED.append(True)
        sys.addaudithook(audit)
    try:
        OPENED = []
        consume(named(form, "a.blf") if form in NFORMS else name_as(form, path), leave)
        opened, OPENED = OPENED, None
        mine = [(m, fl) for f, m, fl in opened if isinstance(f, (str, bytes, os.PathLike)) and os.path.abspath(os.fsdecode(os.fspath(f))) == path]
        require(mine, "the file is never opened")
        for m, fl in mine:
            require(fl & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) == 0, "opened with mode", m, "flags", fl)
        require(sorted(os.listdir(base)) == ["a.blf"], "files", os.listdir(base))
        with open(path, "rb") as f:
            require(f.read() == data, "reading changed the file")
        require(os.stat(path).st_mtime_ns == 10**18, "reading touched the file")
    finally:
        OPENED = None
        os.chdir(scratch())
        os.chmod(base, 0o755)
        shutil.rmtree(base, ignore_errors=True)
    return (kind, form, leave)


def case_missing(form, name, cls):
    """A path that cannot be opened: OSError, and nothing is created."""
    base = os.path.join(scratch(), "missing")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(os.path.join(base, "d"))
    os.chdir(base)
    try:
        try:
            getattr(env, cls)(named(form, name))
        except OSError:
            pass
        else:
            require(False, cls, "accepts", name)
        require(sorted(os.listdir(base)) == ["d"] and not os.listdir("d"), "files", os.listdir(base))
    finally:
        os.chdir(scratch())
        shutil.rmtree(base, ignore_errors=True)
    return (form, name, cls)


def units(tier):
    th = tier == "thorough"
    return [("all", "trio", h, th) for h in hist.sequences(3, 3 if th else 2)] + [("big", k) for k in range(9)] + [("name", n) for n in range(len(NAMES))] + [("untouched",)]


def run_unit(u, ctx):
    if u[0] == "all":
        n = 0
        for B, level in product((20, 64, 131072), (0, 6)):
            for wform in PATHS + WFILES:
                for prev in PREV if wform in PATHS else ("none",):
                    forms = PATHS + RFILES
                    for rform in forms if u[3] else (forms[n % len(forms)], forms[(n * 7 + 3) % len(forms)]):
                        ctx.do(case, u[1], u[2], B, level, wform, prev, rform)
                    n += 1
    elif u[0] == "untouched":
        for kind, form, leave in product(contents(), NFORMS + ("mem", "rel"), (False, True)):
            ctx.do(case_untouched, kind, form, leave)
        for form in NFORMS:
            for name, cls in (("a.blf", "BlfReader"), ("d", "BlfReader"), ("d/a.blf", "BlfReader"), ("x/a.blf", "BlfReader"), ("d", "BlfWriter"), ("x/a.blf", "BlfWriter"), ("", "BlfReader"), ("", "BlfWriter")):
                if name or form not in ("path", "psub", "abs", "absb", "absp"):
                    ctx.do(case_missing, form, name, cls)
    elif u[0] == "name":
        for wform, rform, old in product(NFORMS, NFORMS, (False, True)):
            ctx.do(case_name, NAMES[u[1]], wform, rform, old)
    else:
        for i, (wform, prev) in enumerate(product(PATHS + WFILES, ("none", "long", "log"))):
            if i % 9 == u[1]:
                forms = PATHS + RFILES
                ctx.do(case, "big", (0, 2, 5, 6), 131072, 0, wform, prev, forms[i % len(forms)])
                ctx.do(case, "big", (8, 1), 5000, 6, wform, prev, forms[(i + 5) % len(forms)])
                ctx.do(case, "all", tuple(range(56)), 131072, 0, wform, prev, forms[(i + 9) % len(forms)])
                ctx.do(case, "all", tuple(range(56)), 300, 9, wform, prev, forms[(i + 2) % len(forms)])

