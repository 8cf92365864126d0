"""Independent BLF file builder/parser and the in-memory file the code under test writes to."""
import asyncio
import errno
import io
import os
import struct
import zlib

from mc import env
from mc.core import Hang, Violation, require

FILE_HEADER_SIZE = 144


class ValueFault(ValueError):
    pass


class RuntimeFault(RuntimeError):
    pass


class OtherFault(Exception):
    pass


class Interrupt(BaseException):
    """Like KeyboardInterrupt."""


class Ctrl(KeyboardInterrupt):
    """An interrupt of ours."""


FAULTS = (OSError, ValueFault, RuntimeFault, OtherFault, Interrupt)  # what a failing file may raise
KINDS = (lambda: OSError(28, "No space left on device"), lambda: BlockingIOError(11, "would block", 0), lambda: io.UnsupportedOperation("not now"),
         lambda: TimeoutError(110, "timed out"), lambda: ValueFault("bad"), lambda: RuntimeFault("not now"), lambda: OtherFault("other"), lambda: Interrupt("interrupted"))

MORE_KINDS = (lambda: EOFError("early"), lambda: zlib.error("Error -3"), lambda: struct.error("unpack"), lambda: KeyError("key"), lambda: IndexError("index"), lambda: TypeError("type"), lambda: AttributeError("attribute"),
         lambda: MemoryError(), lambda: ConnectionResetError(104, "reset"), lambda: PermissionError(13, "denied"), lambda: FileNotFoundError(2, "gone"), lambda: NotImplementedError("never"), lambda: AssertionError("never"),
         lambda: UnicodeDecodeError("ascii", b"x", 0, 1, "no"), lambda: ZeroDivisionError("zero"), lambda: Ctrl(), lambda: SystemExit(3), lambda: asyncio.CancelledError(), lambda: Warning("warned"), lambda: BufferError("exported"),
         lambda: RecursionError("too deep"), lambda: OSError("no number"), lambda: OSError(5, "I/O error"), lambda: ValueError("I/O operation on closed file"), lambda: StopAsyncIteration(), lambda: ExceptionGroup("many", [ValueError("one")]))
# every error number the system knows
ERRNO_KINDS = tuple((lambda n=n: OSError(n, os.strerror(n))) for n in sorted(errno.errorcode))
ALL_KINDS = KINDS + MORE_KINDS + ERRNO_KINDS


def injected(e, *files):
    """Lets the exception of a failing file pass, whatever its kind; any other goes on."""
    if not isinstance(e, FAULTS) and not any(e is x for f in files for x in f.raised):
        raise e


class Sink(io.BytesIO):
    """A binary file object that records every write and can fail chosen ones: fail maps the number of
    a write call to how much of its bytes is stored before OSError is raised (0 nothing, 1 the first
    byte, 2 half, 3 all but the last byte; plus 4 times the number of the kind of error). Its content stays readable after close."""

    def __init__(self, initial=b"", fail=None, limit=200000):
        super().__init__(initial)
        self.ops = []
        self.calls = 0
        self.fail = fail or {}
        self.failed = 0
        self.raised = []
        self.limit = limit
        self.final = None

    def write(self, b):
        i = self.calls
        self.calls += 1
        if i >= self.limit:
            raise Hang("more than %d file writes" % self.limit)
        if i in self.fail:
            self.failed += 1
            super().write(bytes(b)[:(0, 1, len(b) // 2, len(b) - 1)[self.fail[i] % 4]])
            self.raised.append(ALL_KINDS[self.fail[i] // 4]())
            raise self.raised[-1]
        pos = self.tell()
        n = super().write(b)
        self.ops.append((pos, bytes(b)))
        return n

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def close(self):
        if not self.closed:
            self.final = self.getvalue()
        super().close()

    def data(self):
        return self.final if self.closed else self.getvalue()


class OpsSink(io.BytesIO):
    """A binary file object of which any operation (write, seek, tell, flush, truncate, close) can fail: fail maps the number of the operation to a mode as in Sink; operations
    other than write fail before (even modes) or after (odd modes) their effect."""

    def __init__(self, fail=None):
        super().__init__()
        self.fail = fail or {}
        self.calls = self.failed = 0
        self.raised = []
        self.names = []
        self.final = None

    def _do(self, name, effect, partial=None):
        i = self.calls
        self.calls += 1
        self.names.append(name)
        if i > 20000:
            raise Hang("more than 20000 file operations")
        if i not in self.fail:
            return effect()
        self.failed += 1
        mode = self.fail[i]
        if partial:
            partial(mode % 4)
        elif mode & 1:
            effect()
        self.raised.append(ALL_KINDS[mode // 4]())
        raise self.raised[-1]

    def write(self, b):
        sup = super().write
        return self._do("write", lambda: sup(b), lambda m: sup(bytes(b)[:(0, 1, len(b) // 2, len(b) - 1)[m]]))

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def seek(self, *a):
        sup = super().seek
        return self._do("seek", lambda: sup(*a))

    def tell(self):
        sup = super().tell
        return self._do("tell", sup)

    def flush(self):
        sup = super().flush
        return self._do("flush", sup)

    def truncate(self, *a):
        sup = super().truncate
        return self._do("truncate", lambda: sup(*a))

    def close(self):
        if self.closed:
            return

        def effect():
            self.final = self.getvalue()
            io.BytesIO.close(self)
        self._do("close", effect)

    def __del__(self):
        self.fail = {}
        self.calls = 0
        io.BytesIO.close(self)


class RawSink(io.RawIOBase):
    """The operating system's side of a buffered file: failing writes store nothing."""

    def __init__(self, fail=None):
        super().__init__()
        self.mem = bytearray()
        self.pos = 0
        self.calls = 0
        self.failed = 0
        self.raised = []
        self.fail = fail or {}

    def writable(self):
        return True

    def seekable(self):
        return True

    def write(self, b):
        i = self.calls
        self.calls += 1
        if i > 100000:
            raise Hang("more than 100000 file writes")
        if i in self.fail:
            self.failed += 1
            self.raised.append(ALL_KINDS[self.fail[i] // 4]())
            raise self.raised[-1]
        b = bytes(b)
        if self.pos > len(self.mem):
            self.mem += bytes(self.pos - len(self.mem))
        self.mem[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, len(self.mem))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.mem[size:]
        return size


class Container:
    __slots__ = ("off", "size", "method", "declared", "raw", "payload")


def parse_containers(data, start=FILE_HEADER_SIZE, strict=True):
    """Splits a file written by the library into containers by the container fields alone (method at
    16, uncompressed length at 24). Between containers only zero padding up to alignment is accepted.
    Returns (containers, leftover bytes of an incomplete last container)."""
    out = []
    pos = start
    while pos < len(data):
        while pos < len(data) and data[pos] == 0:
            pos += 1
        if pos >= len(data):
            break
        if len(data) - pos < 32:
            return out, data[pos:]
        require(data[pos:pos + 4] == b"LOBJ", "no container at offset", pos, data[pos:pos + 16])
        size, otype = struct.unpack_from("<II", data, pos + 8)
        require(otype == 10, "top-level object is not a container:", otype, "at", pos)
        require(size >= 32, "container size", size)
        if pos + size > len(data):
            return out, data[pos:]
        c = Container()
        c.off, c.size = pos, size
        c.method = struct.unpack_from("<H", data, pos + 16)[0]
        c.declared = struct.unpack_from("<I", data, pos + 24)[0]
        c.raw = data[pos + 32:pos + size]
        c.payload = None
        out.append(c)
        pos += size
    return out, b""


def inflate(c, level):
    """Payload of a container, decoded by the level in the file header (the library's own rule)."""
    return zlib.decompress(c.raw) if level > 0 else c.raw


def split_objects(stream):
    """Cuts an uncompressed object stream into serialised objects (zero padding only between them).
    Returns (objects, incomplete tail)."""
    objs = []
    pos = 0
    n = len(stream)
    while pos < n:
        if stream[pos] == 0:
            pos += 1
            continue
        if n - pos < 16:
            return objs, stream[pos:]
        if stream[pos:pos + 4] != b"LOBJ":
            raise Violation("unexpected bytes in the object stream at %d: %r" % (pos, stream[pos:pos + 16]))
        size = struct.unpack_from("<I", stream, pos + 8)[0]
        if size < 16:
            raise Violation("object of size %d in the stream" % size)
        if pos + size > n:
            return objs, stream[pos:]
        objs.append(stream[pos:pos + size])
        pos += size
    return objs, b""


def file_header(level=0, **kw):
    """A reference file header."""
    from mc import layout
    b = bytearray(144)
    vals = {"signature": b"LOGG", "statistics_size": 144, "api_number": 0x3E4630, "application_id": 2,
            "compression_level": level, "application_major": 12, "object_count": 1, "file_size": 144,
            "measurement_start_time.year": 2024, "measurement_start_time.month": 2, "measurement_start_time.day": 3,
            "last_object_time.year": 2024, "last_object_time.month": 2, "last_object_time.day": 3}
    vals.update(kw)
    for off, fmt, p in layout.FILE_HEADER:
        if p in vals:
            layout.put(b, off, fmt, vals[p])
    return bytes(b)


def container(payload, compress=0, flavour="vector"):
    """A log container. flavour 'vector': header size 16, method and uncompressed length as in
    tests/data/LOG_CONTAINER.lobj. flavour 'legacy': as this library wrote them before it filled in
    these fields (method always 2, a timestamp instead of the length)."""
    raw = zlib.compress(payload, compress) if compress else bytes(payload)
    if flavour == "vector":
        return struct.pack("<4sHHIIHHIII", b"LOBJ", 16, 1, 32 + len(raw), 10, 2 if compress else 0, 0, 0, len(payload), 0) + raw
    return struct.pack("<4sHHIIIHHQ", b"LOBJ", 32, 1, 32 + len(raw), 10, 2, 0, 0, 123456789) + raw


def pad(b, n):
    return bytes(b) + bytes(-len(b) % n)


def read_all(data, limit=1000000):
    """Everything the reader returns for these bytes (the list grows before an exception escapes)."""
    return list(iter_read(data, limit))


def iter_read(data, limit=1000000):
    r = env.BlfReader(io.BytesIO(data))
    k = 0
    while True:
        o = r.read_object()
        if o is None:
            return
        k += 1
        if k > limit:
            raise Hang("more than %d objects" % limit)
        yield o


def write_log(objs, buffer_size, level=0, sink=None, close=True):
    sink = sink if sink is not None else Sink()
    w = env.BlfWriter(sink, compression_level=level, buffer_size=buffer_size)
    for o in objs:
        w.write(o)
    if close:
        w.close()
    return sink


def same_objects(got, want_raw, where=""):
    """got: library objects; want_raw: serialised bytes, in order."""
    if len(got) != len(want_raw):
        raise Violation("%s %d objects instead of %d: %s" % (where, len(got), len(want_raw), [o.pack()[:24] for o in got[:6]]))
    for i, (o, raw) in enumerate(zip(got, want_raw)):
        if o.pack() != raw:
            raise Violation("%s object %d differs: %r instead of %r" % (where, i, o.pack()[:80], raw[:80]))
