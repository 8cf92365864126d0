"""C19: the calendar, exhaustively."""
import datetime
import os
import struct
import time

from mc import env
from mc.core import require
from mc.env import CLOCK

PROP = "C19"
LEVEL = "exploration"
RULE = ("A case is one block of date-times (a year's days, a minute's seconds, a range of microseconds) or of stored calendar records; every single value is "
        "converted and compared with an independent computation. Non-trivial = distinct blocks; 'conversions' counts the single values.")
BOUNDS = {
    "quick": "every day of the years 1..9999; every second of a day on 12 dates; every microsecond of a second on 2 dates; all millisecond values 0..65535 and "
             "weekdays 0..65535 of stored records; 11 kinds of date-time objects (naive, 7 fixed zones, fold, subclass); the current time under 9 zone settings",
    "thorough": "every second of every day of a leap year and of a common year; every microsecond on 24 dates; every day x 24 hours",
}
ASSUMPTIONS = ["exactly between two milliseconds either neighbour is right", "the date is one datetime can represent (years 1..9999)"]
UTC = datetime.timezone.utc


class Sub(env.real_datetime):
    pass


def weekday(y, m, d):
    """0 = Sunday (Zeller, proleptic Gregorian)."""
    if m < 3:
        m, y = m + 12, y - 1
    h = (d + 13 * (m + 1) // 5 + y + y // 4 - y // 100 + y // 400) % 7  # 0 = Saturday
    return (h - 1) % 7


def check(S, dt):
    s = S.from_datetime(dt)
    got = (s.year, s.month, s.day_of_week, s.day, s.hour, s.minute, s.second)
    want = (dt.year, dt.month, weekday(dt.year, dt.month, dt.day), dt.day, dt.hour, dt.minute, dt.second)
    if got != want:
        require(False, dt, "is converted to", got, "instead of", want)
    us = dt.microsecond
    ms = s.milliseconds
    if ms != 999 or us < 999000:
        if not (0 <= ms <= 999 and abs(ms * 1000 - us) <= 500):
            require(False, us, "microseconds are converted to", ms, "milliseconds")
    back = s.to_datetime()
    if (back.year, back.month, back.day, back.hour, back.minute, back.second, back.microsecond) != (
            dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, ms * 1000):
        require(False, s, "is converted back to", back)
    return s


def kinds():
    tz = datetime.timezone
    td = datetime.timedelta
    return [lambda *a: env.real_datetime(*a), lambda *a: env.real_datetime(*a, tzinfo=UTC)] + [
        (lambda off: lambda *a: env.real_datetime(*a, tzinfo=tz(off)))(o) for o in (
            td(hours=1), td(hours=-1), td(hours=14), td(hours=-12), td(hours=5, minutes=30), td(hours=23, minutes=59), td(seconds=-1))
    ] + [lambda *a: env.real_datetime(*a, fold=1), lambda *a: Sub(*a)]


DATES = [(1, 1, 1), (9999, 12, 31), (2000, 2, 29), (1900, 2, 28), (1970, 1, 1), (2024, 2, 29), (2023, 12, 31), (2038, 1, 19), (1969, 12, 31), (2100, 3, 1),
         (1601, 1, 1), (2024, 10, 27)]


def case_year(year, hours):
    S = env.general.SystemTime
    day = datetime.date(year, 1, 1).toordinal()
    last = datetime.date(year, 12, 31).toordinal()
    n = 0
    for o in range(day, last + 1):
        d = datetime.date.fromordinal(o)
        for h in range(hours):
            check(S, env.real_datetime(d.year, d.month, d.day, (o + h) % 24, o * 7 % 60, o * 13 % 60, o * 7919 % 1000000))
            n += 1
    return (year, n)


def case_seconds(date, hour, kind):
    S = env.general.SystemTime
    mk = kinds()[kind]
    for m in range(60):
        for s in range(60):
            check(S, mk(*date, hour, m, s, (m * 60 + s) * 277))
    return (date, hour, kind)


def case_micro(date, lo, kind):
    S = env.general.SystemTime
    mk = kinds()[kind]
    for us in range(lo, lo + 10000):
        check(S, mk(*date, 23, 59, 59, us))
    return (date, lo, kind)


def case_stored(lo):
    """Stored records with any millisecond and weekday value."""
    S = env.general.SystemTime
    for v in range(lo, lo + 1024):
        for ms, wd in ((v, v % 7), (v % 1000, v)):
            raw = struct.pack("<8H", 2024, 2, wd, 29, 23, 59, 58, ms)
            t = S.unpack(raw)
            require((t.year, t.month, t.day_of_week, t.day, t.hour, t.minute, t.second, t.milliseconds) == (2024, 2, wd, 29, 23, 59, 58, ms), t)
            require(t.pack() == raw, "encodes", t.pack())
            d = t.to_datetime()
            require((d.year, d.month, d.day, d.hour, d.minute, d.second) == (2024, 2, 29, 23, 59, 58), ms, "milliseconds:", d)
            if ms <= 999:
                require(d.microsecond == ms * 1000, ms, "milliseconds:", d)
    return lo


def case_now(zone, wall):
    old = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    try:
        CLOCK.reset(wall)
        s = env.general.SystemTime.from_datetime()
        n = env.general.SystemTime.from_datetime(None)
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()
    e = env.real_datetime(1970, 1, 1) + datetime.timedelta(seconds=wall)
    for t in (s, n):
        got = (t.year, t.month, t.day_of_week, t.day, t.hour, t.minute, t.second)
        require(got == (e.year, e.month, weekday(e.year, e.month, e.day), e.day, e.hour, e.minute, e.second), "now is", got, "instead of", e)
        require(abs(t.milliseconds * 1000 - e.microsecond) <= 1000, t)
    return (zone, wall)


def units(tier):
    th = tier == "thorough"
    u = [("years", lo, min(lo + 250, 10000), 24 if th else 1) for lo in range(1, 10000, 250)]
    u += [("seconds", d, k) for d in DATES for k in range(11)]
    if th:
        u += [("fullyear", y, m) for y in (2023, 2024) for m in range(1, 13)]
    u += [("micro", d, k) for i, d in enumerate(DATES if th else [DATES[5], DATES[0]]) for k in ((0, 1, 4) if i == 0 else (0, 2))]
    return u + [("stored",), ("now",)]


def run_unit(u, ctx):
    if u[0] == "years":
        for y in range(u[1], u[2]):
            r = ctx.do(case_year, y, u[3])
            ctx.count("conversions", r[1])
    elif u[0] == "seconds":
        for h in range(24) if u[2] == 0 else (0, 12, 23):
            ctx.do(case_seconds, u[1], h, u[2])
            ctx.count("conversions", 3600)
    elif u[0] == "fullyear":
        d = datetime.date(u[1], u[2], 1)
        while d.month == u[2]:
            for h in range(24):
                ctx.do(case_seconds, (d.year, d.month, d.day), h, 0)
                ctx.count("conversions", 3600)
            d += datetime.timedelta(days=1)
    elif u[0] == "micro":
        for lo in range(0, 1000000, 10000):
            ctx.do(case_micro, u[1], lo, u[2])
            ctx.count("conversions", 10000)
    elif u[0] == "stored":
        for lo in range(0, 65536, 1024):
            ctx.do(case_stored, lo)
            ctx.count("conversions", 2048)
    else:
        for zone in ("UTC0", "XXX-14", "XXX12", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "XXX-5:30", "XXX+0:01", "XXX-23:59", "LMT-0:53:28"):
            for wall in (0.0, 1.5, 86399.999, 951827696.25, 1709251199.0, 1711846800.125, 1729994400.75, 1730597400.5, 4102444800.0, 253402300799.0, 1e9 + 0.9994):
                ctx.do(case_now, zone, wall)
                ctx.count("conversions", 2)
