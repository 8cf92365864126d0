"""C17: what the reader accepts at open."""
import io
import os

from mc import blf, env, layout, objs
from mc.core import require, scratch, Violation

PROP = "C17"
LEVEL = "exploration"
RULE = ("A case is one input given to BlfReader; it must be accepted or rejected with ValueError / TypeError as the input demands. Non-trivial = "
        "distinct inputs.")
BOUNDS = {
    "quick": "every prefix length 0..160 of 8 logs, as stream, unbuffered file, path; every value of every signature byte (and all pairs of deviating "
             "signature bytes of 24 values); 19 foreign signatures; every value of every other header byte (35,840) of a log of six objects in three containers, stored and compressed, which must all be returned; every header field at its corner "
             "values, all pairs of fields; 30 objects that are neither path nor file",
    "thorough": "all pairs of signature bytes, all triples of header fields at corner values",
}
ASSUMPTIONS = ["streams deliver as many bytes as asked for unless they end"]
def give(data, kind):
    if kind == "mem":
        return io.BytesIO(data)
    path = os.path.join(scratch(), "x.blf")
    with open(path, "wb") as f:
        f.write(data)
    if kind == "raw":
        return open(path, "rb", buffering=0)  # noqa: SIM115
    if kind == "buf":
        return open(path, "rb")  # noqa: SIM115
    return path if kind == "path" else os.fsencode(path)


def case(data, kind):
    arg = give(data, kind)
    ok = len(data) >= 144 and data[:4] == b"LOGG"
    try:
        r = env.BlfReader(arg)
    except ValueError as e:
        require(not ok, "a file with complete header and signature was rejected:", e)
    else:
        require(ok, "accepted", len(data), "bytes starting with", data[:4])
        r.__exit__(None, None, None)
    finally:
        if hasattr(arg, "close"):
            arg.close()
    return (kind, hash(data))


def case_header(patches, level):
    """A complete log with changed header bytes: accepted, and the header shows the values."""
    data = bytearray(six()[1 + level])
    for off, b in patches:
        data[off:off + len(b)] = b
    r = env.BlfReader(io.BytesIO(bytes(data)))
    fs = r.file_statistics
    for off, fmt, p in layout.FILE_HEADER:
        v = layout.attr(fs, p)
        if p not in ("application_id", "compression_level"):
            want = layout.peek(data, off, fmt)
            require(v == want, p, "is", v, "instead of", want)
    # whatever the header says, the objects are those of the file
    raws = six()[0]
    got = [r.read_object(), r.read_object()]
    got += list(r)
    blf.same_objects(got, raws)
    require(r.read_object() is None, "an object beyond the end")
    return tuple(patches)


def case_type(i):
    x = not_files()[i]
    try:
        env.BlfReader(x)
    except TypeError:
        return ("type", i)
    except Exception as e:  # noqa: BLE001
        raise Violation("%r raised %s instead of TypeError" % (x, type(e).__name__)) from e
    raise Violation("%r was accepted" % (x,))


def case_writer_type(i):
    x = not_files()[i]
    if hasattr(x, "write"):
        return None
    try:
        env.BlfWriter(x)
    except TypeError:
        return ("wtype", i)
    except Exception as e:  # noqa: BLE001
        raise Violation("%r raised %s instead of TypeError in the writer" % (x, type(e).__name__)) from e
    raise Violation("%r was accepted by the writer" % (x,))


class Nothing:
    pass


class Callable:
    def __call__(self):
        return b"LOGG"


class Writable:
    def write(self, b):
        return len(b)

    def close(self):
        pass


class Iter:
    def __iter__(self):
        return iter([b"LOGG" + bytes(140)])


def not_files():
    return [None, True, False, 0, 1, -1, 3.5, 1j, [], [b"LOGG"], (), ("a",), {}, {"read": 1}, set(), frozenset(), object(), Nothing(), Nothing, Callable(),
            Writable(), Iter(), iter([]), range(3), slice(0), Ellipsis, NotImplemented, bytearray(b"LOGG" + bytes(140)), memoryview(b"LOGG" + bytes(140)), len]


_B = []
_S = []


def six():
    """Six objects, and a log of three stored and one of three compressed containers with them."""
    if not _S:
        raws = [objs.sample_bytes("CanMessage"), objs.opaque_bytes(40, b"LOGG"), objs.sample_bytes("AppText"), objs.opaque_bytes(24), objs.sample_bytes("CanErrorFrame"), objs.opaque_bytes(31, b"LOBJ")]
        s = b"".join(blf.pad(x, 8) for x in raws)
        parts = s[:50], s[50:120], s[120:]
        _S.extend([raws, blf.file_header(0) + b"".join(blf.pad(blf.container(x), 8) for x in parts), blf.file_header(6) + b"".join(blf.pad(blf.container(x, 6), 8) for x in parts)])
    return _S


def base_logs():
    if not _B:
        a = objs.sample_bytes("CanMessage")
        fh, c = blf.file_header, blf.container
        _B.extend([fh(0) + c(a), fh(6) + c(a, 6), fh(0), fh(9), fh(0) + a, fh(0) + c(a)[:20], fh(0, file_size=0, object_count=0) + c(a),
                   blf.write_log([objs.from_bytes(a)], 40, 6).final])
    return _B


SIGS = [b"LOBJ", b"GGOL", b"LOG ", b"LOGg", b"logg", b"\0\0\0\0", b"\x89PNG", b"PK\3\4", b"RIFF", b"LOG\0", b"OGGL", b"\xef\xbb\xbfL", b"MDF ", b"LOGH",
        b"LLOG", b"LOGF", b" LOG", b"GLOG", b"OLGG"]


def units(tier):
    return [("len",), ("sig", tier == "thorough"), ("types",)] + [("bytes", p) for p in range(8)] + [("fields", 3 if tier == "thorough" else 2, p) for p in range(8)]


def corner(fmt):
    w = layout.width(fmt)
    return [bytes(w), b"\xff" * w, b"\x01" + bytes(w - 1), bytes(w - 1) + b"\x80", b"\x03" + bytes(w - 1)]


def run_unit(u, ctx):
    if u[0] == "len":
        for data in base_logs():
            for n in range(161):
                for kind in ("mem", "raw", "buf", "path", "bpath"):
                    ctx.do(case, data[:n], kind)
    elif u[0] == "sig":
        d = base_logs()[0]
        for i in range(4):
            for b in range(256):
                ctx.do(case, d[:i] + bytes([b]) + d[i + 1:], "mem")
        vals = range(256) if u[1] else [0, 1, 0x20, 0x7F, 0x80, 0xFF] + [ord(c) + k for c in "LOG" for k in (-1, 0, 1, 32, -32, 128)]
        for i in range(4):
            for j in range(i):
                for a in vals:
                    for b in vals:
                        x = bytearray(d)
                        x[i], x[j] = a & 255, b & 255
                        ctx.do(case, bytes(x), "mem")
        for s in SIGS:
            for kind in ("mem", "raw", "buf", "path", "bpath"):
                ctx.do(case, s + d[4:], kind)
                ctx.do(case, s + d, kind)
                ctx.do(case, s, kind)
    elif u[0] == "types":
        for i in range(len(not_files())):
            ctx.do(case_type, i)
            ctx.do(case_writer_type, i)
    elif u[0] == "bytes":
        for off in range(4 + u[1], 144, 8):
            for b in range(256):
                ctx.do(case_header, ((off, bytes([b])),), 0)
                if off != 13 or b:  # (the level 0 announces no compression)
                    ctx.do(case_header, ((off, bytes([b])),), 1)
    else:
        from itertools import combinations, product
        fs = [f for f in layout.FILE_HEADER if f[0] >= 4]
        for i, group in enumerate(combinations(fs, u[1])):
            if i % 8 == u[2]:
                for vals in product(*(corner(f[1]) for f in group)):
                    p = tuple((f[0], v) for f, v in zip(group, vals))
                    ctx.do(case_header, p, 0)
                    if (13, b"\0") not in p:
                        ctx.do(case_header, p, 1)
