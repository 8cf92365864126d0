"""C08: file writes that fail, callers that carry on."""
import io
from itertools import combinations

from mc import blf, env, hist, layout
from mc.core import Hang, Violation, require
from mc.env import CLOCK

PROP = "C08"
LEVEL = "fault_enumeration"
RULE = ("A case is one write history, a set of failing file writes (each storing none, one, half or all but one of its bytes) and what the "
        "caller does next; after the first successful close the real BlfReader must return a sequence that contains every accepted "
        "object in order. Non-trivial = distinct (file, raised calls) in which a fault was hit.")
BOUNDS = {
    "quick": "unbuffered file: every single fault x 4 partial-store modes x 3 caller behaviours for all histories of length <=4 over 2 objects and <=3 "
             "over 3 (buffers 1..48) and <=2 over 8 objects; every pair of faults and every run of 2-5 faults for histories of length <=3; buffered "
             "file (buffer 1, 64, 8192): every single fault and pair; 34 kinds of exceptions (interrupts that are no Exception included) and OSErrors of all 130 error numbers; every other operation (seek, tell, flush, close) failing before or after its effect with every kind of exception, pairs and runs",
    "thorough": "as quick with histories of length <=5/4/3, all 16 mode combinations of pairs and every triple of faults",
}
ASSUMPTIONS = ["a failing file operation raises an exception of some kind, before or after its effect",
               "the buffered-file model is io.BufferedWriter (what open() returns) over a raw file whose failing writes store nothing"]

OPS = -1  # in place of a buffer size: a file of which every operation can fail
CALLERS = ("close", "more", "retry")


def carry_on(w, f, raw, raws, obs, caller, limit=40):
    """Performs the history; returns [(object, accepted)] in call order after the first successful close."""
    log = []

    def attempt(i):
        try:
            w.write(obs[i])
        except BaseException as e:  # noqa: BLE001
            blf.injected(e, raw)
            log.append((i, False))
            return False
        log.append((i, True))
        return True

    for i in range(len(obs)):
        if not attempt(i) and caller == "retry":
            attempt(i)
    for n in range(limit):
        try:
            w.close()
            return log
        except BaseException as e:  # noqa: BLE001
            blf.injected(e, raw)
            if caller == "more" and n < 2 and not f.closed:
                attempt(n % len(obs) if obs else 0) if obs else None
    raise Violation("close() keeps failing after the faults are over")


def matches(got, log, raws):
    """Is got = the accepted objects in order, with any subset of the refused ones at their places?"""
    states = {0}
    for i, ok in log:
        nxt = set()
        for s in states:
            if s < len(got) and got[s] == raws[i]:
                nxt.add(s + 1)
            if not ok:
                nxt.add(s)
        states = nxt
    return len(got) in states


def case(aname, B, level, h, faults, caller, buffered):
    araws, aobs = hist.alpha(aname)
    raws, obs = [araws[e] for e in h], [aobs[e] for e in h]
    CLOCK.reset()
    faults = {(f, 0) if isinstance(f, int) else f for f in faults}
    if buffered == OPS:
        f = raw = blf.OpsSink(dict(faults))
    elif buffered:
        raw = blf.RawSink(dict(faults))
        f = io.BufferedWriter(raw, buffered)
    else:
        f = raw = blf.Sink(fail=dict(faults), limit=4000)
    try:
        w = env.BlfWriter(f, compression_level=level, buffer_size=B)
    except BaseException as e:  # noqa: BLE001
        blf.injected(e, raw)
        return None
    log = carry_on(w, f, raw, raws, obs, caller)
    if not raw.failed:
        return None
    require(f.closed, "close() returned but the file is open")
    data = raw.final if buffered in (0, OPS) else bytes(raw.mem)
    got = [o.pack() for o in blf.read_all(data)]
    if not matches(got, log, raws):
        raise Violation("calls (object, accepted): %s; read back: %s of %s" % (log, [raws.index(g) if g in raws else g[:20] for g in got], len(got)))
    count = layout.peek(data, 32, "I")
    require(count == len(got), "object_count", count, "but", len(got), "objects in the file")
    return hash((data, tuple(log)))


def baseline(aname, B, level, h, buffered):
    """How many file writes the history needs without faults."""
    araws, aobs = hist.alpha(aname)
    CLOCK.reset()
    raw = blf.OpsSink() if buffered == OPS else blf.RawSink() if buffered else blf.Sink()
    w = env.BlfWriter(io.BufferedWriter(raw, buffered) if buffered > 0 else raw, compression_level=level, buffer_size=B)
    for e in h:
        w.write(aobs[e])
    w.close()
    return raw.calls


def units(tier):
    th = tier == "thorough"
    u = []
    for B in list(range(1, 49)) + [64, 100, 131072]:
        for lv in (0, 6):
            if lv and B % 8 not in (0, 1):
                continue
            u.append(("single", "pair", B, lv, 5 if th else 4 if B % 8 < 2 else 3))
            u.append(("single", "trio", B, lv, 4 if th else 3 if B % 8 < 2 else 2))
    for B in (16, 33, 64, 100, 131072):
        u.append(("single", "wide", B, 0, 3 if th else 2))
        u.append(("single", "typed", B, 6, 3 if th else 2))
    for B in (8, 16, 17, 24, 33, 40, 64, 100):
        u.append(("multi", "pair", B, 0, 4 if th else 3, th))
        u.append(("multi", "trio", B, 0, 3 if th else 2, th))
    for buf in (1, 64, 8192):
        for B in (16, 24, 33, 64, 100, 131072):
            u.append(("buffered", "pair", B, 0, 4, buf))
            u.append(("buffered", "trio", B, 6, 3, buf))
    for B in (16, 24, 40, 64, 131072):
        u.append(("kinds", "pair", B, 0, 4 if th else 3))
        u.append(("kinds", "trio", B, 6, 3 if th else 2))
    for B in (8, 16, 24, 33, 40, 64, 131072):
        u.append(("ops", "pair", B, 0, 4 if th else 3))
        u.append(("ops", "trio", B, 6, 3 if th else 2))
    return sorted(u, key=lambda x: (x[0] == "single", x[2]))


def run_unit(u, ctx):
    kind, aname, B, lv, depth = u[:5]
    k = len(hist.alpha(aname)[0])
    for h in hist.sequences(k, depth):
        if kind == "buffered":
            n = baseline(aname, B, lv, h, u[5])
            for i in range(n + 1):
                for c in CALLERS:
                    ctx.do(case, aname, B, lv, h, (i,), c, u[5])
            for p in combinations(range(n + 2), 2):
                ctx.do(case, aname, B, lv, h, p, "close", u[5])
            continue
        if kind == "ops":
            n = baseline(aname, B, lv, h, OPS)
            for i in range(n):
                for m in (0, 1, 2, 3, 5, 12, 4 * len(blf.KINDS) - 4, 4 * len(blf.KINDS) - 3):
                    for c in CALLERS:
                        ctx.do(case, aname, B, lv, h, ((i, m),), c, OPS)
            for p in combinations(range(n + 3), 2):
                for m in ((0, 0), (1, 1), (0, 1), (1, 0), (3, 1)):
                    ctx.do(case, aname, B, lv, h, tuple(zip(p, m)), "retry" if len(h) & 1 else "close", OPS)
            if len(h) <= 2 and B in (24, 131072):
                for i in range(n):
                    for kd in range(1, len(blf.ALL_KINDS)):
                        for m in (4 * kd, 4 * kd + 1):
                            ctx.do(case, aname, B, lv, h, ((i, m),), CALLERS[(kd + i) % 3], OPS)
            for i in range(n):
                for ln in range(3, 7):
                    ctx.do(case, aname, B, lv, h, tuple((x, ln & 1) for x in range(i, i + ln)), "close", OPS)
            continue
        n = baseline(aname, B, lv, h, 0)
        if kind == "kinds":
            for i in range(1, n + 1):
                for m in range(4, 4 * len(blf.KINDS)):
                    for c in CALLERS:
                        ctx.do(case, aname, B, lv, h, ((i, m),), c, 0)
                        if i < n:
                            ctx.do(case, aname, B, lv, h, ((i, 2), (i + 1, m)), c, 0)
                # the rarer kinds
                for kd in range(len(blf.KINDS), len(blf.ALL_KINDS)):
                    m = 4 * kd + (kd + i + len(h)) % 4
                    ctx.do(case, aname, B, lv, h, ((i, m),), CALLERS[(kd + i) % 3], 0)
                    ctx.do(case, aname, B, lv, h, ((i, 4 * kd + 1), (i + 1, 4 * kd)), CALLERS[(kd + i + 1) % 3], OPS)
            for i in range(n + 1 if B in (24, 131072) else 0):
                for m in range(4, 4 * len(blf.KINDS), 4):
                    for c in CALLERS:
                        ctx.do(case, aname, B, lv, h, ((i, m),), c, 64)
            continue
        if B < 8 and len(h) > 2:
            continue
        if kind == "single":
            for i in range(1, n + 1):
                for m in range(4):
                    for c in CALLERS:
                        ctx.do(case, aname, B, lv, h, ((i, m),), c, 0)
        else:
            for p in combinations(range(1, n + 3), 2):
                for m in (range(16) if u[5] else (0, 7, 13)):
                    for c in CALLERS:
                        ctx.do(case, aname, B, lv, h, ((p[0], m % 4), (p[1], m // 4)), c, 0)
            if u[5] and len(h) <= 3:
                for p in combinations(range(1, n + 3), 3):
                    ctx.do(case, aname, B, lv, h, tuple((x, x % 4) for x in p), "close", 0)
            for i in range(1, n + 2):
                for ln in range(2, 6):
                    for c in CALLERS:
                        ctx.do(case, aname, B, lv, h, tuple((x, ln % 4) for x in range(i, i + ln)), c, 0)
    ctx.count("fault_free_histories", sum(k ** d for d in range(depth + 1)))


_ = Hang
