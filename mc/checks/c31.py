"""C31: the library's results depend on nothing but its inputs, and it leaves the process alone."""
import json
import os
import shutil
import subprocess
import sys
import zipfile
from itertools import permutations, product

from mc import env
from mc.core import VERIF, Violation, require, scratch

PROP = "C31"
LEVEL = "exploration"
RULE = ("A case is one process in which a fixed piece of work of some 350 items (all types decoded, encoded, copied; histories; whole, cut and damaged logs; refusals; codes; files) is done under one configuration; "
        "every item's outcome, exceptions and their texts included, is compared with that of a plain process, and the process-wide state with the one before. Non-trivial = distinct configurations.")
BOUNDS = {
    "quick": "all 72 combinations of -O/-OO, warnings as errors, development mode, UTF-8 mode, -bb, each under 2 environments, and all 18 of hash seed x locale x time zone; 18 single interpreter options; 26 places of use (another machine and user, thread, fork, coroutine, "
             "finalizer, deep or little stack, garbage collection off or eager, tracing, signals, closed streams, no working directory, few open files, ...), 9 of them also under -O and warnings as errors; all ordered pairs of modules imported first; all rotations, "
             "reversals and pairs of the 7 sections of work; every environment variable the library asks for (none) with 8 values, no file or process asked for but the input; 6 placements of the package (copy without metadata, zip file, compiled only, read-only, through a link, odd path)",
    "thorough": "all 1296 combinations of interpreter options and environments; all permutations of 5 sections; all places of use x -O x warnings x development mode",
}
ASSUMPTIONS = ["the library's version in the file header is disregarded here (it is decided by C05)", "CPython 3.12 on Linux"]
WORK = os.path.join(VERIF, "mc", "workload.py")
ALL = "cwrxkvf"
MODULES = ("can", "constants", "ethernet", "flexray", "general", "lin", "tp_diag", "reader", "writer")
HOWS = ("main", "thread", "smallstack", "fork", "coroutine", "nogc", "eagergc", "lowlimit", "deep", "traced", "profiled", "nostreams", "warnings", "digits", "memory", "signals", "debuglog", "except",
        "finalizer", "nocwd", "umask", "fewfiles", "locale", "arguments", "elsewhere0", "elsewhere1")
SINGLE = (["-E"], ["-s"], ["-P"], ["-I"], ["-u"], ["-b"], ["-q"], ["-X", "faulthandler"], ["-X", "tracemalloc"], ["-X", "frozen_modules=off"], ["-X", "no_debug_ranges"], ["-X", "int_max_str_digits=640"],
          ["-X", "warn_default_encoding", "-W", "error"], ["-X", "showrefcount"], ["-W", "error", "-X", "tracemalloc=5"], ["-W", "default"], ["-d"], ["-W", "error::ResourceWarning", "-X", "dev"])
OPT = [(o, w, d, u, b) for o in ("", "-O", "-OO") for w in ("", "error") for d in ("", "dev") for u in ("", "0", "1") for b in ("", "-bb")]
ENVS = [(h, lc, tz) for h in ("0", "1", "random") for lc in ("C", "C.UTF-8") for tz in ("UTC", "XXX-05:30", ":EST5EDT,M3.2.0,M11.1.0")]
PLACES = ("bare", "zip", "compiled", "readonly", "link", "odd")


def options(o, w, d, u, b):
    out = [x for x in (o, b) if x]
    if w:
        out += ["-W", w]
    if d:
        out += ["-X", "dev"]
    if u:
        out += ["-X", "utf8=" + u]
    return out


def place(kind, d):
    """The package somewhere else; returns (root whose src holds it, further options)."""
    src = os.path.join(env.SRC, "vblf")
    to = os.path.join(d, "l\u00f6g 1%s" if kind == "odd" else "p", "src")
    ign = shutil.ignore_patterns("__pycache__")
    os.makedirs(os.path.dirname(to))
    lib = os.path.join(d, "lib")
    os.mkdir(lib)
    import typing_extensions
    shutil.copy(typing_extensions.__file__, lib)
    if kind == "zip":
        with zipfile.ZipFile(to, "w") as z:
            for n in sorted(os.listdir(src)):
                if n.endswith(".py"):
                    z.write(os.path.join(src, n), "vblf/" + n)
    elif kind == "link":
        os.symlink(env.SRC, to)
    else:
        shutil.copytree(src, os.path.join(to, "vblf"), ignore=ign)
    if kind == "compiled":
        import py_compile
        for n in sorted(os.listdir(os.path.join(to, "vblf"))):
            if n.endswith(".py"):
                p = os.path.join(to, "vblf", n)
                py_compile.compile(p, p + "c", doraise=True)
                os.unlink(p)
    elif kind == "readonly":
        for n in os.listdir(os.path.join(to, "vblf")):
            os.chmod(os.path.join(to, "vblf", n), 0o444)
        os.chmod(os.path.join(to, "vblf"), 0o555)
    return os.path.dirname(to), lib


def spawn(opts, environ, how="main", order=ALL, first="", placement=""):
    d = os.path.join(scratch(), "c31")
    shutil.rmtree(d, True)
    os.makedirs(d)
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
    e.update(VBLF_REPO=env.REPO, WL_DIR=d, TZ="UTC", LC_ALL="C.UTF-8")
    e.update(environ)
    e = {k: v for k, v in e.items() if v is not None}
    cmd = [sys.executable, "-B", *opts]
    if placement:
        root, lib = place(placement, d)
        e["VBLF_REPO"] = root
        e["PYTHONPATH"] = lib
        cmd.append("-S")  # without the environment's packages: the package is found by its path, its metadata is not
    res = os.path.join(d, "result.json")
    p = subprocess.run([*cmd, WORK, res, how, order, first], env=e, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=300)
    if not os.path.exists(res):
        raise Violation("the process ended with %d: %s" % (p.returncode, p.stderr[-1500:].decode("utf-8", "replace")))
    with open(res) as f:
        out = json.load(f)
    shutil.rmtree(d, True)
    require(out["error"] is None, out["error"])
    require(p.returncode == 0, "the process ended with", p.returncode, p.stderr[-600:])
    noise = p.stdout + (b"" if "showrefcount" in cmd else p.stderr)
    require(not noise, "the library wrote to the process's output:", noise[:500])
    require(not out["import"], "importing the library changed", out["import"], out["was"])
    require(not out["use"], "using the library changed", out["was"])
    return out


_PLAIN = []


def plain():
    if not _PLAIN:
        items = spawn([], {"PYTHONHASHSEED": "0"})["items"]
        by = {}
        for s, what, h in items:
            by.setdefault(s, []).append((what, h))
        _PLAIN.append(by)
    return _PLAIN[0]


def compare(items, order):
    ref = plain()
    i = 0
    for s in order:
        for what, h in ref[s]:
            require(i < len(items), "the work ends before", s, what)
            require(items[i] == [s, what, h], "another outcome than in a plain process:", s, what, items[i])
            i += 1
    require(i == len(items), "more outcomes than in a plain process")


def case(opts, environ, how, order, first, placement):
    out = spawn(list(opts), dict(environ), how, order, first, placement)
    compare(out["items"], order)
    return (opts, environ, how, order, first, placement)


VALUES = (None, "", "0", "1", "yes", "DEBUG", "946684800", "/nonexistent")


def case_watched(opts):
    """Which environment variables and files does the library ask for? Then the outcome must be the same whatever the variables' values are."""
    base = (("PYTHONHASHSEED", "0"), ("HOME", os.path.join(scratch(), "nohome")))
    out = spawn(list(opts), dict(base), "watched")
    compare(out["items"], ALL)
    require(not out["places"], "the library asks for what is no input of it:", out["places"])
    asked = [v for v in out["variables"] if not v.startswith(("PYTHON", "WL_DIR", "VBLF_REPO"))]
    for v in asked:
        for x in VALUES:
            compare(spawn(list(opts), dict(base, **{v: x}))["items"], ALL)
    return opts, tuple(asked)


def configs(tier):
    th = tier == "thorough"
    names = ("PYTHONHASHSEED", "LC_ALL", "TZ")
    out = []

    def add(opts=(), environ=("0", "C.UTF-8", "UTC"), how="main", order=ALL, first="", placement="", more=()):
        out.append((tuple(opts), tuple(zip(names, environ)) + tuple(more), how, order, first, placement))
    for e in ENVS:
        add(environ=e)
    for i, o in enumerate(OPT):
        for e in ENVS if th else (ENVS[i * 7 % 18], ENVS[(i * 5 + 9) % 18]):
            add(options(*o), e)
    for s in SINGLE:
        add(s)
    add(more=(("PYTHONMALLOC", "debug"),))
    add(more=(("PYTHONUNBUFFERED", "1"), ("HOME", "/nonexistent"), ("PATH", "")))
    add(more=(("PYTHONUTF8", "0"), ("LANG", "xx_YY.ISO-8859-15"), ("LC_ALL", "xx_YY")))
    for h in HOWS:
        add(how=h)
        for o in (product(("", "-O"), ("", "error"), ("", "dev"), ("",), ("",)) if th else [("-O", "error", "", "", "")] if h in HOWS[1:10] else ()):
            add(options(*o), how=h)
    for a, b in permutations(MODULES, 2):
        add(first=a + "," + b, order="kw")
    for a in MODULES:
        add(first=a)
    add(first=",".join(MODULES[::-1]))
    for k in range(7):
        add(order=ALL[k:] + ALL[:k])
        add(order=(ALL[k:] + ALL[:k])[::-1])
    for a, b in product(ALL, ALL):
        add(order=a + b + a)
    if th:
        for p in permutations("cwrxf"):
            add(order="".join(p) + "kv")
    for p in PLACES:
        add(placement=p)
        add(("-O", "-W", "error"), placement=p)
    return out


def units(tier):
    c = configs(tier)
    return ["watched"] + [c[i::64] for i in range(64)]


def run_unit(unit, ctx):
    ctx.cpu_seconds = 100
    if unit == "watched":
        for opts in ((), ("-O",), ("-X", "dev")):
            ctx.do(case_watched, opts)
        return
    for c in unit:
        ctx.do(case, *c)
