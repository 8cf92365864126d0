"""C04: crash at every byte of the produced file."""
from mc import blf, hist
from mc.blf import parse_containers, split_objects
from mc.core import Violation, require

PROP = "C04"
LEVEL = "fault_enumeration"
RULE = ("A case is one write history with one crash point: the file holds the bytes of the first k file writes and the first j bytes of the next "
        "one (for the closing header rewrite also the last j bytes); the real BlfReader must open it and return an exact prefix. "
        "Non-trivial = distinct (history, crashed file).")
BOUNDS = {
    "quick": "every byte of every file write after a BFS over all writer states: alphabet pair, buffers 1..40; trio 7..34; tiny 7..24; typed 7..36, level 0 "
             "(6 for some); unmerged histories of length <=2 over 8 objects x 6 buffers; every object type alone x 2 buffers; torn header rewrites with every prefix and every suffix",
    "thorough": "as quick with buffers to 96/72/56/72, histories of length <=3",
}
ASSUMPTIONS = ["file writes reach the file in program order, bytes of one write in ascending order (header rewrite: ascending or descending)"]

_last = [None, None, None]


def run(aname, B, level, h):
    key = (aname, B, level, h)
    if _last[0] != key:
        r = hist.Run(aname, B, level, h)
        _last[:] = [key, r, r.sink.ops]
    return _last[1]


def crashed(ops, k, j, suffix):
    """File contents after ops[:k] and the first (last, if suffix) j bytes of ops[k]."""
    data = bytearray()
    todo = list(ops[:k])
    if k < len(ops):
        pos, b = ops[k]
        todo.append((pos + len(b) - j, b[len(b) - j:]) if suffix else (pos, b[:j]))
    for pos, b in todo:
        if pos > len(data):
            data += bytes(pos - len(data))
        data[pos:pos + len(b)] = b
    return bytes(data)


def case(aname, B, level, h, k, j, suffix):
    r = run(aname, B, level, h)
    data = crashed(r.sink.ops, k, j, suffix)
    if len(data) < blf.FILE_HEADER_SIZE:
        try:
            blf.read_all(data)
        except ValueError:
            return ("short", len(data))
        raise Violation("a file with an incomplete header was opened")
    got = blf.read_all(data)
    packed = [o.pack() for o in got]
    require(packed == r.raws[:len(packed)], "not a prefix of the written objects:", packed[:6])
    cs, _ = parse_containers(data)
    stream = b"".join(blf.inflate(c, level) for c in cs)
    complete, _ = split_objects(stream)
    require(len(packed) >= len(complete), len(packed), "objects returned,", len(complete), "are in complete containers")
    return (hash(data), len(packed))


def crash_points(ctx, aname, B, level, h, skip_ops=0):
    r = run(aname, B, level, h)
    ops = r.sink.ops
    for k in range(skip_ops, len(ops)):
        pos, b = ops[k]
        for j in range(len(b)):
            ctx.do(case, aname, B, level, h, k, j, False)
        if pos < blf.FILE_HEADER_SIZE and k:
            for j in range(1, len(b)):
                ctx.do(case, aname, B, level, h, k, j, True)
    ctx.do(case, aname, B, level, h, len(ops), 0, False)


def case_plain(aname, B, level, h):
    """The history itself: needed by the search; its crash points follow."""
    return run(aname, B, level, h).state()


def closure(ctx, aname, B, level):
    from collections import deque
    n = len(hist.alpha(aname)[0])
    seen = {ctx.do(case_plain, aname, B, level, ())}
    crash_points(ctx, aname, B, level, ())
    q = deque([((), 1)])
    while q:
        h, nops = q.popleft()
        for e in range(n):
            nxt = h + (e,)
            s = ctx.do(case_plain, aname, B, level, nxt)
            r = run(aname, B, level, nxt)
            ops = r.sink.ops
            pre = sum(1 for p, b in ops if p and p + len(b) <= len(r.pre)) + 1
            crash_points(ctx, aname, B, level, nxt, nops)  # earlier crash points: the same files as for h
            if s is not None and s not in seen:
                seen.add(s)
                q.append((nxt, pre))
        if len(seen) > 3000:
            ctx.capped.append("%s %d %d" % (aname, B, level))
            break
    ctx.count("writer_states", len(seen))


def units(tier):
    th = tier == "thorough"
    u = []
    for aname, a, b in (("pair", 40, 96), ("trio", 34, 72), ("tiny", 24, 56), ("typed", 36, 72)):
        for B in range(1, (b if th else a) + 1):
            for lv in (0, 6):
                if B < 7 and aname != "pair":
                    continue  # a container per byte or so: pair decides these
                if th or not lv or B % 4 == 1:
                    u.append(("closure", aname, B, lv))
    for B in (9, 16, 33, 64, 100, 131072):
        for lv in (0, 6):
            u += [("flat", "wide", B, lv, 3 if th else 2, f) for f in range(8)]
    for B in (30, 131072):
        for lv in (0, 9):
            u.append(("each", "all", B, lv))
    return sorted(u, key=lambda x: (x[0] == "closure", -x[2]))


def run_unit(u, ctx):
    if u[0] == "closure":
        closure(ctx, u[1], u[2], u[3])
    elif u[0] == "flat":
        for h in hist.sequences_below(8, u[4], u[5]):
            if len(h) == u[4] or len(h) == 1:  # shorter histories' crash points are prefixes, except their close
                crash_points(ctx, u[1], u[2], u[3], h)
            else:
                crash_points(ctx, u[1], u[2], u[3], h, max(0, len(run(u[1], u[2], u[3], h).sink.ops) - 3))
    else:
        for e in range(len(hist.alpha("all")[0])):
            crash_points(ctx, u[1], u[2], u[3], (e, (e + 1) % 58))
    ctx.count("histories_crash_enumerated", 1)
