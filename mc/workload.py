"""A fixed piece of work with the library, run in a process of its own under some configuration.

  python [options] mc/workload.py RESULT HOW ORDER

HOW says from where the library is used (main program, thread, forked child, ...), ORDER which sections run in which order and which
modules are imported first. RESULT gets one short digest per item of work, everything process-wide that the work changed, and what failed."""
import builtins
import gc
import hashlib
import json
import locale
import logging
import os
import signal
import sys
import threading
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def process_state():
    """What the library has no business to change."""
    import atexit
    import codecs
    import copyreg
    import decimal
    import random
    import socket
    import tempfile
    mask = os.umask(0)
    os.umask(mask)
    try:
        cwd = os.getcwd()
    except FileNotFoundError:
        cwd = None
    fds = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            to = os.readlink("/proc/self/fd/" + fd)
            if to != os.path.realpath(os.path.join(os.environ["VBLF_REPO"], "src")):  # a zip archive on the path: importlib.metadata keeps it open
                fds.append((fd, to))
        except OSError:
            pass
    return {
        "cwd": cwd, "umask": mask, "environ": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL), "tzname": time.tzname,
        "recursion limit": sys.getrecursionlimit(), "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)), "switch interval": sys.getswitchinterval(),
        "warning filters": [repr(f) for f in warnings.filters], "showwarning": id(warnings.showwarning),
        "signal handlers": [repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())], "threads": threading.active_count(),
        "hooks": [id(x) for x in (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, builtins.__import__, builtins.open, builtins.print)],
        "streams": [id(x) for x in (sys.stdin, sys.stdout, sys.stderr)], "trace": (repr(sys.gettrace()), repr(sys.getprofile())),
        "logging": (logging.root.level, [repr(h) for h in logging.root.handlers], logging.root.disabled, logging.root.manager.disable, logging.raiseExceptions, id(logging.getLoggerClass()),
                    logging.getLevelName(10), logging.getLevelName(30)),
        "the library's logger": [(n, lg.level, [type(h).__name__ for h in lg.handlers if not isinstance(h, logging.NullHandler)], lg.disabled) for n, lg in sorted(logging.root.manager.loggerDict.items())
                                 if n.split(".")[0] == "vblf" and isinstance(lg, logging.Logger) and (lg.level or lg.disabled or any(not isinstance(h, logging.NullHandler) for h in lg.handlers))],
        "decimal": repr(decimal.getcontext()), "random": hash(random.getstate()), "path": list(sys.path), "meta path": len(sys.meta_path), "path hooks": len(sys.path_hooks),
        "builtins": sorted(k for k in builtins.__dict__ if k != "_"), "digits": sys.get_int_max_str_digits(), "at exit": atexit._ncallbacks(),
        "timeout": socket.getdefaulttimeout(), "temporary directory": tempfile.tempdir, "copyreg": len(copyreg.dispatch_table),
        "error handler": [id(codecs.lookup_error(n)) for n in ("strict", "ignore", "replace", "surrogateescape", "backslashreplace")], "open files": sorted(fds),
        "timer": signal.getitimer(signal.ITIMER_REAL), "alarm": signal.getitimer(signal.ITIMER_VIRTUAL),
    }


def watch(src):
    """Notes which environment variables and which files besides its input the library asks for; returns the two sets."""
    variables, places = set(), set()
    home = os.path.join(src, "vblf") + os.sep
    inputs = os.path.join(os.environ["WL_DIR"], "wl-")
    fine = tuple(os.path.join(os.path.abspath(p), "") for p in {*sys.path, src, sys.prefix, sys.base_prefix, "/usr", *sys.pycache_prefix.split()} if p)

    def inside():
        f = sys._getframe(2)
        while f:
            if f.f_code.co_filename.startswith(home):
                return True
            f = f.f_back
        return False

    def note(path, what):
        if isinstance(path, int) or path is None:
            return
        p = os.path.abspath(os.fsdecode(path))
        if p.startswith(inputs) or inputs.startswith(p.rstrip("/") + "/") or (p + "/").startswith(fine):
            return
        places.add(what + " " + p)

    cls = type(os.environ)
    get = cls.__getitem__

    def getitem(self, key):
        if inside():
            variables.add(os.fsdecode(key))
        return get(self, key)
    cls.__getitem__ = getitem
    for name in ("stat", "lstat", "access"):
        def wrapped(path, *args, f=getattr(os, name), name=name, **kw):
            if inside():
                note(path, name)
            return f(path, *args, **kw)
        setattr(os, name, wrapped)
    with_path = {"open", "os.listdir", "os.scandir", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.chmod", "os.truncate", "os.link", "os.symlink", "os.utime"}
    without = {"socket.connect", "socket.bind", "socket.getaddrinfo", "socket.gethostname", "subprocess.Popen", "os.system", "os.posix_spawn", "os.fork", "os.exec", "os.kill"}

    def hook(event, args):
        if (event in with_path or event in without) and inside():
            if event in without:
                places.add(event)
            else:
                note(args[0], event)
    sys.addaudithook(hook)
    return variables, places


def outcome(f, *args, **kw):
    """Value or exception of a call, as text."""
    try:
        x = f(*args, **kw)
    except Exception as e:  # noqa: BLE001 - the kind of failure is what is compared
        return "%s: %s" % (type(e).__name__, e)
    return x.hex() if isinstance(x, (bytes, bytearray)) else repr(x)


def mask(data):
    """A file without the library's version in its header (decided by C05)."""
    return data[:14] + b"vv" + data[16:]


def sec_codec(m):
    for name, spec in m.layout.SPECS.items():
        cls = m.objs.cls_of(spec)
        for k in range(2):
            raw = m.objs.sample_bytes(name, k)
            o = cls.unpack(raw)
            yield name, repr(o) + o.pack().hex() + str(o == m.objs.sample(name, k)) + str(o == 1)
            yield name + " cut", "".join(outcome(cls.unpack, raw[:n])[:400] for n in (0, 15, 31, 40, len(raw) - 1))
        # every part full of every byte, or of characters from everywhere
        everything = {"utf8": "a\u00e9\u0130\u4e2d\U0001f600\u00df\r\n\0".encode() * 3, "textz": bytes(range(1, 256)) + b"\0"}
        raw = m.layout.encode(spec, {}, {attr: everything.get(kind, bytes(range(256)) if kind == "text" else bytes(range(192, 256))) for attr, lf, kind in spec.parts if lf}) if any(lf for _, lf, _ in spec.parts) else None
        if raw:
            yield name + " everything", outcome(lambda c=cls, r=raw: ascii(c.unpack(r)).encode() + c.unpack(r).pack())
    for name, raw in (("undecodable", b"\x81\x8d\xff\0"), ("latin", bytes(range(0xA0, 0x100)))):
        o = m.env.general.AppText.unpack(m.layout.encode(m.layout.SPECS["AppText"], {}, {"text": raw}))
        yield name, ascii(o.text) + o.pack().hex()


def write(m, aname, h, B, level, sink, step=0.25):
    obs = m.hist.alpha(aname)[1]
    m.env.CLOCK.reset()
    w = m.env.BlfWriter(sink, compression_level=level, buffer_size=B)
    for i in h:
        m.env.CLOCK.step(step)
        w.write(obs[i])
    w.close()
    return sink


def sec_write(m):
    for h in m.hist.sequences(5, 2):
        for B, level in ((17, 0), (40, 6), (131072, 9)):
            yield "write %s %d %d" % (h, B, level), mask(write(m, "typed", h, B, level, m.blf.Sink()).final).hex()
    for B in (17, 131072):
        s = m.blf.Sink()
        w = m.env.BlfWriter(s, buffer_size=B)
        yield "opened", mask(s.getvalue()).hex()
        for o in m.hist.alpha("tiny")[1]:
            yield "not closed", outcome(w.write, o) + mask(s.getvalue()).hex()
        w.close()
    m.env.CLOCK.reset()
    s = m.blf.Sink()
    with m.env.BlfWriter(s) as w:
        for o in m.hist.alpha("wide")[1]:
            w.write(o)
    yield "defaults", mask(s.final).hex()


def sec_read(m):
    raws = m.hist.alphabet("wide")
    s = b"".join(m.blf.pad(r, 8) for r in raws)
    for level in (0, 6):
        for cut in (7, 64, 5000):
            data = m.blf.file_header(level) + b"".join(m.blf.container(s[i:i + cut], level) for i in range(0, len(s), cut))
            for d in (data, data[:-1], data[:len(data) // 2], data[:150], data[:100], data.replace(b"LOBJ", b"LOBX", 1)):
                yield "read %d %d %d" % (level, cut, len(d)), outcome(lambda: [repr(o) for o in m.blf.read_all(d)])  # noqa: B023
    with m.env.BlfReader(m.blf.io.BytesIO(data)) as r:
        yield "statistics", repr(r.file_statistics)
        yield "loop", repr([o.pack() for o in r])
    # left early, in every way
    for n in range(3):
        with m.env.BlfReader(m.blf.io.BytesIO(data)) as r:
            for i, o in enumerate(r):
                if i == n:
                    break
            yield "left %d" % n, repr(o)
        r = m.env.BlfReader(m.blf.io.BytesIO(data))
        it = iter(r)
        yield "dropped %d" % n, repr([next(it) for _ in range(n)])
        del it, r
        try:
            with m.env.BlfReader(m.blf.io.BytesIO(data)) as r:
                for i, o in enumerate(r):
                    if i == n:
                        raise KeyError(n)
        except KeyError:
            yield "raised %d" % n, repr(r.file_statistics)
    s = m.blf.Sink(fail={2: 0})
    w = m.env.BlfWriter(s, buffer_size=20)
    for o in m.hist.alpha("tiny")[1]:
        yield "failing file", outcome(w.write, o)
    w.close()
    yield "after failing", mask(s.final).hex()
    w = m.env.BlfWriter(m.blf.Sink())
    w.write(o)
    del w


def sec_refuse(m):
    E = m.env
    for name in ("CanMessage", "AppText", "LinMessage2", "DiagRequestInterpretation"):
        o = m.objs.sample(name)
        o.header.base.object_size += 1
        s = m.blf.Sink()
        w = E.BlfWriter(s)
        yield "size " + name, outcome(w.write, o)
        o = m.objs.sample(name)
        o.header.object_flags = 1 << 40
        yield "range " + name, outcome(w.write, o)
        w.close()
        yield "closed " + name, outcome(w.write, m.objs.sample(name)) + outcome(w.close) + s.final[16:40].hex()
    o = m.objs.sample("AppText", 0, (4,))
    o.text = "ab\u65e5"
    yield "text", outcome(o.pack)
    for kw in ({"buffer_size": 0}, {"buffer_size": -5}, {"compression_level": 10}, {"compression_level": -1}):
        yield "settings %s" % kw, outcome(E.BlfWriter, m.blf.Sink(), **kw)
    for d in (b"", b"LOGG", b"LOGX" * 50, b"\0" * 144):
        yield "content %r" % d[:5], outcome(E.BlfReader, m.blf.io.BytesIO(d))
    yield "none", outcome(E.BlfReader, None) + outcome(E.BlfWriter, None)
    yield "payload", outcome(E.can.CanMessage.new, E.constants.ObjFlags(0), 0, 1, 0, 8, 1, b"123456789")


def sec_codes(m):
    K = m.env.constants
    for e in ("ObjType", "AppId", "Compression"):
        yield e, repr([repr(getattr(K, e).from_int(i)) for i in range(140) if hasattr(getattr(K, e), "from_int")])
    for e in ("ObjFlags", "TriggerFlag", "CanFdFlags"):
        yield e, repr([repr(getattr(K, e)(i)) for i in range(0, 8192, 37)])
    D, T = m.env.real_datetime, m.env.general.SystemTime
    utc = m.env.datetime.timezone.utc
    for y, mo, d, us in ((2024, 2, 29, 999999), (1, 1, 1, 0), (9999, 12, 31, 999500), (1969, 12, 31, 499), (2000, 2, 29, 1000)):
        t = T.from_datetime(D(y, mo, d, 23, 59, 59, us, utc))
        yield "time %d" % y, repr(t) + repr(t.to_datetime() if hasattr(t, "to_datetime") else None)
    m.env.CLOCK.reset()
    yield "now", repr(T.from_datetime())
    yield "new", repr(m.env.can.CanMessage.new(K.ObjFlags(2), 5, 1, 0, 8, 0x123, b"abc"))


def sec_value(m):
    import copy
    import pickle
    for name in m.layout.SPECS:
        o = m.objs.sample(name)
        c = [copy.copy(o), copy.deepcopy(o), pickle.loads(pickle.dumps(o))]
        yield name, repr([x == o for x in c]) + repr(c[2]) + outcome(hash, o)[:40]


def sec_file(m):
    import pathlib
    d = os.environ["WL_DIR"]
    p = os.path.join(d, "wl-%d-%d.blf" % (os.getpid(), threading.get_ident()))
    for level in (0, 6):
        for arg in (p, os.fsencode(p), pathlib.Path(p)):
            write(m, "tiny", (0, 1, 2, 3, 4), 50, level, arg)
            with open(p, "rb") as f:
                yield "file %d" % level, mask(f.read()).hex()
            with m.env.BlfReader(arg) as r:
                yield "read %d" % level, repr([o.pack() for o in r])
    with open(p, "wb") as f:
        f.write(b"no log" * 50)
    yield "foreign", outcome(m.env.BlfReader, p)
    os.unlink(p)
    yield "absent", outcome(m.env.BlfReader, p).replace(p, "PATH")


SECTIONS = {"c": sec_codec, "w": sec_write, "r": sec_read, "x": sec_refuse, "k": sec_codes, "v": sec_value, "f": sec_file}


def work(order):
    out = []
    import types
    from mc import blf, env, hist, layout, objs
    m = types.SimpleNamespace(blf=blf, env=env, hist=hist, layout=layout, objs=objs)
    env.install_clock()
    try:
        for s in order:
            env.CLOCK.reset()
            for what, text in SECTIONS[s](m):
                out.append((s, what, hashlib.sha256(text.encode("utf-8", "surrogatepass")).hexdigest()[:12]))
    finally:
        env.uninstall_clock()
    return out


def deep(n, f):
    return f() if n == 0 else deep(n - 1, f)


def use(how, order):  # noqa: C901 - one branch per way
    if how == "thread":
        box = []
        t = threading.Thread(target=lambda: box.append(work(order)))
        t.start()
        t.join()
        return box[0]
    if how == "smallstack":
        threading.stack_size(256 * 1024)
        try:
            return use("thread", order)
        finally:
            threading.stack_size(0)
    if how == "fork":
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.write(w, json.dumps(work(order)).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        return [tuple(x) for x in json.loads(data)]
    if how == "coroutine":
        import asyncio

        async def main():
            asyncio.get_running_loop().slow_callback_duration = 1e9  # in development mode asyncio reports what takes long
            return work(order)
        return asyncio.run(main())
    if how == "nogc":
        gc.disable()
        try:
            return work(order)
        finally:
            gc.enable()
    if how == "eagergc":
        old = gc.get_threshold()
        gc.set_threshold(1, 1, 1)
        try:
            return work(order)
        finally:
            gc.set_threshold(*old)
    if how == "lowlimit":
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(120)
        try:
            return work(order)
        finally:
            sys.setrecursionlimit(old)
    if how == "deep":
        return deep(700, lambda: work(order))
    if how == "traced":
        sys.settrace(lambda *a: None)
        try:
            return work(order)
        finally:
            sys.settrace(None)
    if how == "profiled":
        sys.setprofile(lambda *a: None)
        try:
            return work(order)
        finally:
            sys.setprofile(None)
    if how == "nostreams":
        old = sys.stdin, sys.stdout, sys.stderr
        sys.stdin = sys.stdout = sys.stderr = None
        try:
            return work(order)
        finally:
            sys.stdin, sys.stdout, sys.stderr = old
    if how == "warnings":
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            return work(order)
    if how == "digits":
        old = sys.get_int_max_str_digits()
        sys.set_int_max_str_digits(640)
        try:
            return work(order)
        finally:
            sys.set_int_max_str_digits(old)
    if how == "memory":
        import tracemalloc
        tracemalloc.start()
        try:
            return work(order)
        finally:
            tracemalloc.stop()
    if how == "signals":
        old = signal.signal(signal.SIGALRM, lambda *a: None)
        signal.setitimer(signal.ITIMER_REAL, 0.001, 0.0005)
        try:
            return work(order)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    if how == "debuglog":
        root, lib = logging.root.level, logging.getLogger("vblf")
        logging.root.setLevel(1)
        logging.root.addHandler(logging.NullHandler())
        try:
            return work(order)
        finally:
            logging.root.setLevel(root)
            del logging.root.handlers[:]
            del lib
    if how == "except":
        try:
            raise KeyError("being handled")
        except KeyError:
            return work(order)
    if how == "finalizer":
        box = []

        class X:
            def __del__(self):
                box.append(work(order))
        X()
        return box[0]
    return work(order)


def elsewhere(v):
    """Another machine, another user, another process: everything that could tell them apart is at one end (v = 0) or the other."""
    import asyncio, ctypes, datetime, enum, getpass, multiprocessing.connection, multiprocessing.pool, multiprocessing.shared_memory, importlib.metadata, inspect, pathlib, pickle, platform, random, secrets, shutil, socket, tempfile, tracemalloc, uuid, zlib  # noqa: E401, F401
    try:
        import resource
    except ImportError:
        resource = None

    def put(module, value, *names):
        for n in names:
            if hasattr(module, n):
                setattr(module, n, (lambda *a, x=value, **kw: x(*a, **kw)) if callable(value) else (lambda *a, x=value, **kw: x))
    put(os, (1, 4194303)[v], "getpid", "getppid", "getpgrp", "getpgid", "getsid")
    put(os, (0, 65534)[v], "getuid", "geteuid", "getgid", "getegid")
    put(os, ("root", "nobody")[v], "getlogin")
    put(getpass, ("root", "nobody")[v], "getuser")
    put(os, (1, 1024)[v], "cpu_count")
    put(os, lambda *a: set(range((1, 1024)[v])), "sched_getaffinity")
    put(os, (lambda n: b"\0" * n, lambda n: b"\xff" * n)[v], "urandom", "getrandom")
    put(os, ((0.0, 0.0, 0.0), (99.0, 99.0, 99.0))[v], "getloadavg")
    put(os, os.terminal_size(((1, 1), (1000, 1000))[v]), "get_terminal_size")
    put(os, (True, False)[v], "isatty")
    put(shutil, os.terminal_size(((1, 1), (1000, 1000))[v]), "get_terminal_size")
    name = ("a", "zz.example.org")[v]
    put(socket, name, "gethostname", "getfqdn")
    put(platform, name, "node")
    put(platform, ("Windows", "Darwin")[v], "system")
    put(platform, ("mips", "AMD64")[v], "machine", "processor")
    put(platform, ("3.9.0", "3.99.0")[v], "python_version")
    put(platform, ("PyPy", "Jython")[v], "python_implementation")
    sys.platform = ("win32", "darwin")[v]
    put(random, (0.0, 1 - 2**-53)[v], "random")
    put(random, lambda a, b: (a, b)[v], "uniform", "randint")
    put(random, lambda n: (0, (1 << n) - 1)[v], "getrandbits")
    put(random, lambda a, b=None, step=1: (0 if b is None else a, (a if b is None else b) - 1)[v], "randrange")
    put(random, lambda x: x[(0, -1)[v]], "choice")
    put(secrets, lambda n: (0, n - 1)[v], "randbelow")
    put(uuid, uuid.UUID(int=(0, (1 << 128) - 1)[v]), "uuid1", "uuid4")
    put(uuid, (0, (1 << 48) - 1)[v], "getnode")
    put(gc, ((0, 0, 0), (699, 9, 9))[v], "get_count")
    put(sys, (2, 1000)[v], "getrefcount")
    if resource:
        put(resource, (4096, 65536)[v], "getpagesize")
    for n in ("pytest", "IPython", "numpy", "pandas", "can", "asammdf", "pydevd", "gevent", "pyi_splash") if v else ():
        sys.modules.setdefault(n, type(sys)(n))
    if v:
        sys.frozen, sys.ps1 = True, ">>> "


def main(result, how, order, first):
    if how == "nocwd":
        d = os.path.join(os.environ["WL_DIR"], "gone%d" % os.getpid())
        os.mkdir(d)
        os.chdir(d)
        os.rmdir(d)
    if how == "umask":
        os.umask(0o777 & ~0o600)
    if how == "fewfiles":
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (16, 16))
    if how == "locale":
        locale.setlocale(locale.LC_ALL, "C.UTF-8")
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    src = os.path.join(os.environ["VBLF_REPO"], "src")
    sys.path.insert(0, src)
    out = {"error": None}
    if how == "arguments":
        sys.argv[1:] = ["--debug", "-v", "--help"]
    seen = watch(src) if how == "watched" else (set(), set())
    if how == "debuglog":
        logging.getLogger("vblf")
    if how.startswith("elsewhere"):
        elsewhere(int(how[-1]))
    try:
        import mc  # noqa: F401
        before_import = process_state()
        import importlib
        for x in first.split(",") if first else ():
            importlib.import_module("vblf." + x)
        import vblf.reader  # noqa: F401
        import vblf.writer  # noqa: F401
        after_import = process_state()
        out["was"] = {k: repr(before_import[k])[:600] + " -> " + repr(after_import[k])[:600] for k in before_import if before_import[k] != after_import[k]}
        # the standard library's own modules may do what they like when they are imported
        out["import"] = [k for k in before_import if before_import[k] != after_import[k] and k not in ("at exit", "copyreg", "random")]
        from mc import blf, env, hist, layout, objs  # noqa: F401
        import asyncio, pathlib, pickle, tracemalloc  # noqa: E401, F401
        before = process_state()
        out["items"] = use(how, order)
        after = process_state()
        out["use"] = [k for k in before if before[k] != after[k]]
        out["was"].update((k, repr(before[k])[:600] + " -> " + repr(after[k])[:600]) for k in out["use"])
    except BaseException as e:  # noqa: BLE001
        import traceback
        out["error"] = "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    out["variables"], out["places"] = map(sorted, seen)
    with open(result, "w", encoding="ascii") as f:
        json.dump(out, f)


if __name__ == "__main__":
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(HERE, "mc")]
    main(*sys.argv[1:5])
