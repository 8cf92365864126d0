"""Write histories: the object alphabets, the run of one history on the real writer, and the
explicit-state search over the writer's reachable states.

State of a (writer, file, reader) system after a history, as far as its future can depend on it:
  pending  the bytes accepted but not yet in a container (observed: what close() still emits),
  carry    the tail of the flushed stream that is not yet a complete object (the reader's carry-over),
  fmod     the file length modulo 8 (container alignment).
Counters and clock readings only flow into header fields, which are compared exactly in every case.
States are computed from the bytes in the file, not from private attributes. Two histories with the
same state have the same futures because a container's content is cut from `pending` by length only;
the un-merged depth-bounded and long-run searches back this up."""
from collections import deque

from mc import env, objs
from mc.blf import Sink, inflate, parse_containers, split_objects
from mc.core import Violation, require
from mc.env import CLOCK, BlfWriter

LOOK = b"LOBJ\x10\x00\x01\x00\x10\x00\x00\x00\x17\x00\x00\x00"  # a whole serialised object, as payload


def alphabet(name):
    """Serialised objects of an alphabet (deterministic)."""
    ob, sm = objs.opaque_bytes, objs.sample_bytes
    if name == "tiny":  # every size class mod 8, minimal objects, signature look-alikes
        return [ob(16), ob(17, b"LOBJ"), ob(23, b"\x01OBJL"), ob(24, b"LOBJLOGG"), ob(33, LOOK)]
    if name == "typed":
        return [sm("CanMessage"), sm("AppText", 0, (10,)), ob(19, b"L"), sm("EnvironmentVariable", 0, (3, 2)), sm("EventComment", 1, (0,))]
    if name == "wide":
        return [ob(16), ob(18, b"LOB"), ob(21, b"J"), ob(40, LOOK), ob(70, b"LOBJ"), sm("CanMessage"), sm("LinMessage2"), sm("GlobalMarker", 0, (1, 0, 4))]
    if name == "large":  # many times the small buffers
        return [ob(16), ob(150, LOOK[1:]), ob(77, b"LOBJ")]
    if name == "zeros":  # payloads of equal bytes
        return [ob(16), ob(43, b"\0"), ob(96, b"\0"), ob(40, b"\xff")]
    if name == "dense":  # payloads that compression makes longer
        return [ob(16), ob(21, objs.noise(5)), ob(60, objs.noise(44)), ob(120, objs.noise(104))]
    if name == "pair":
        return [ob(16), ob(21, b"LOBJ")]
    if name == "trio":
        return [ob(16), ob(22, b"LOBJ"), ob(51, LOOK)]
    if name == "big":
        K = 131072
        return [ob(n, LOOK[1:] + b"z") for n in (K - 40, K - 1, K, K + 1, 2 * K, 300001)] + [ob(16), ob(65535), ob(65536)]
    if name == "all":
        return [sm(n, k) for n in objs.SPECS for k in range(2)] + [ob(17), ob(64, LOOK)]
    raise KeyError(name)


_CACHE = {}


def alpha(name):
    if name not in _CACHE:
        raws = alphabet(name)
        _CACHE[name] = (raws, [objs.from_bytes(r) for r in raws])
    return _CACHE[name]


class Run:
    """One history executed on the real writer over an in-memory file."""

    def __init__(self, aname, B, level, hist, each=None, close=True, clock=None):
        raws, obs = alpha(aname)
        self.raws = [raws[i] for i in hist]
        self.objs = [obs[i] for i in hist]
        self.B, self.level = B, level
        self.sink = Sink()
        CLOCK.reset()
        self.w = BlfWriter(self.sink, compression_level=level, buffer_size=B)
        self.flushed = []
        for i, o in enumerate(self.objs):
            if clock:
                CLOCK.step(clock[i])
            self.w.write(o)
            if each:
                self.flushed.append(len(self.sink.getvalue()))
        self.pre = self.sink.getvalue()
        if close:
            self.w.close()
            require(self.sink.closed, "close() left the file open")
            self.data = self.sink.final

    def streams(self):
        """(flushed-before-close stream, total stream, containers)"""
        cs, left = parse_containers(self.data)
        require(not left, "incomplete container in a closed file:", left[:40])
        total = b""
        npre = 0
        for c in cs:
            c.payload = inflate(c, self.level)
            if c.off + c.size <= len(self.pre):
                npre = len(total) + len(c.payload)
            total += c.payload
        return total[:npre], total, cs

    def state(self):
        flushed, total, _ = self.streams()
        _, carry = split_objects(flushed)
        return (total[len(flushed):], carry, len(self.pre) % 8)


def closure(ctx, case, aname, B, level, cap=30000):
    """Breadth-first search over the states; `case` must return the state it reached."""
    k = len(alpha(aname)[0])
    start = ctx.do(case, aname, B, level, ())
    seen = {start}
    frontier = deque([()])
    while frontier:
        h = frontier.popleft()
        for e in range(k):
            nxt = h + (e,)
            s = ctx.do(case, aname, B, level, nxt)
            ctx.count("transitions")
            if s is not None and s not in seen:
                seen.add(s)
                frontier.append(nxt)
        if len(seen) > cap:
            ctx.capped.append("alphabet %s buffer %d level %d: stopped at %d states" % (aname, B, level, cap))
            break
    ctx.count("states", len(seen))


def sequences(k, depth):
    """All tuples over range(k) of length 0..depth, shortest first."""
    level = [()]
    yield ()
    for _ in range(depth):
        level = [h + (e,) for h in level for e in range(k)]
        yield from level


def sequences_below(k, depth, first):
    """All tuples of length 1..depth that start with `first`."""
    for h in sequences(k, depth - 1):
        yield (first,) + h
