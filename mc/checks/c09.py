"""C09: every behaviour of the system clock."""
from mc import blf, env, hist
from mc.env import CLOCK

PROP = "C09"
LEVEL = "fault_enumeration"
RULE = ("A case is one write history with one clock step before every call (open, each write, close); no call may fail and the real BlfReader "
        "must return all objects. Non-trivial = distinct (history, steps, buffer, level).")
BOUNDS = {
    "quick": "all sequences of up to 5 steps out of 9 (still, +-1 us, +1 ms, +-1 day, +30 years, -30 years, back to 1970) x 8 settings; all "
             "pairs of absolute times out of 12 (1901..9999) x 4 histories; 18 calendar boundaries from year 1 to 9999 x 14 fractions of a second; every object type alone",
    "thorough": "all sequences of up to 6 steps; all triples of absolute times",
}
ASSUMPTIONS = ["time readings stay within the years 1-9999 the calendar format and Python's datetime can express"]
YEAR = 365.25 * 86400
STEPS = (0.0, -1e-6, 1e-6, 1e-3, -86400.0, 86400.0, 30 * YEAR, -30 * YEAR, None)  # None: to 1970
ABS = (0.0, -1e9, -2177452800.0, 1.0, 1e9, env.T0, 2**31 - 1.0, 2**31 + 0.5, 2**32 + 0.25, 253402300799.0, 1e10, 951782400.0)

FRACS = (1e-7, 0.0004999, 0.0005, 0.4999995, 0.9989999, 0.9994999, 0.9995, 0.9995001, 0.9999, 0.9999989, 0.999999, 0.9999995, 0.99999999)
BASES = (-62135596800, -62135596799, -2208988801, -1, 0, 59, 86399, 951782399, 951868799, 978307199, 1709164799, 1709251199, 1711846799, 1735689599, 2147483647, 4102444799, 253402214399, 253402300799)


def move(s):
    if s is None:
        CLOCK.wall = 0.0
    else:
        CLOCK.step(s)


def case(aname, h, B, level, steps):
    raws, obs = hist.alpha(aname)
    CLOCK.reset()
    move(steps[0])
    sink = blf.Sink()
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    for i, e in enumerate(h):
        move(steps[i + 1])
        w.write(obs[e])
    move(steps[-1])
    w.close()
    blf.same_objects(blf.read_all(sink.final), [raws[e] for e in h])
    return (h, B, level, steps)


def case_abs(aname, h, B, level, walls):
    raws, obs = hist.alpha(aname)
    CLOCK.reset(walls[0])
    sink = blf.Sink()
    w = env.BlfWriter(sink, compression_level=level, buffer_size=B)
    for i, e in enumerate(h):
        CLOCK.wall = walls[(i + 1) % len(walls)]
        w.write(obs[e])
    CLOCK.wall = walls[-1]
    w.close()
    blf.same_objects(blf.read_all(sink.final), [raws[e] for e in h])
    return (aname, h, B, level, walls)


def units(tier):
    th = tier == "thorough"
    u = []
    for B in (1, 16, 24, 40, 100, 131072):
        for lv in (0, 6):
            if lv and B not in (16, 131072):
                continue
            for n in range(2, (6 if th else 5) + 1):
                u += [("steps", n, B, lv, f) for f in range(len(STEPS))]
            u.append(("abs", B, lv, th))
        u.append(("types", B))
        u.append(("fracs", B))
    return u[::-1]


def run_unit(u, ctx):
    if u[0] == "steps":
        _, n, B, lv, first = u
        h = tuple(i % 3 for i in range(n - 2))
        for s in hist.sequences_below(len(STEPS), n, first):
            if len(s) == n:
                ctx.do(case, "trio", h, B, lv, tuple(STEPS[i] for i in s))
    elif u[0] == "abs":
        for a in ABS:
            for b in ABS:
                for c in (ABS if u[3] else (a, b, 0.0)):
                    for h in ((), (0,), (1, 2), (2, 0, 1)):
                        ctx.do(case_abs, "trio", h, u[1], u[2], (a, b, c))
    elif u[0] == "fracs":
        for b in BASES:
            for f in (0.0, *FRACS):
                a = float(b) + f
                if a < 253402300800:
                    for h in ((), (0,), (1, 2)):
                        for walls in ((a, a, a), (a, env.T0, a), (env.T0, a, env.T0), (env.T0, env.T0, a)):
                            ctx.do(case_abs, "trio", h, u[1], 0, walls)
    else:
        for e in range(len(hist.alpha("all")[0])):
            for a in ABS:
                ctx.do(case_abs, "all", (e, 1), u[1], 0, (env.T0, a, 5.0))
