"""Binds the checks to the code under test: /repo's working tree, never a copy or a stale .pyc.

Also owns the clock: time.* and datetime.datetime are replaced *before* vblf is imported, so whatever
clock the library asks, the answer is decided by the harness (CLOCK)."""
import datetime
import os
import sys
import time

REPO = os.environ.get("VBLF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"  # never read a __pycache__ directory of the tree
sys.path.insert(0, SRC)

real_time = time.time
real_monotonic = time.monotonic
real_datetime = datetime.datetime
_REAL = {n: getattr(time, n) for n in (
    "time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "gmtime", "localtime",
    "clock_gettime", "clock_gettime_ns")}
T0 = 1_700_000_000.125  # 2023-11-14 22:13:20.125 UTC


class Clock:
    """The only clock the library can see. `wall` may do anything; `mono` never steps back."""

    def __init__(self):
        self.reset()

    def reset(self, wall=T0):
        self.wall = wall
        self.mono = 1000.0

    def step(self, seconds):
        self.wall += seconds
        if seconds > 0:
            self.mono += min(seconds, 1e6)


CLOCK = Clock()


class FakeDatetime(real_datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(CLOCK.wall, tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(CLOCK.wall, datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(CLOCK.wall)


def install_clock():
    time.time = lambda: CLOCK.wall
    time.time_ns = lambda: int(CLOCK.wall * 1e9)
    time.monotonic = time.perf_counter = lambda: CLOCK.mono
    time.monotonic_ns = time.perf_counter_ns = lambda: int(CLOCK.mono * 1e9)
    time.gmtime = lambda secs=None: _REAL["gmtime"](CLOCK.wall if secs is None else secs)
    time.localtime = lambda secs=None: _REAL["localtime"](CLOCK.wall if secs is None else secs)
    time.clock_gettime = lambda clk: CLOCK.wall if clk == time.CLOCK_REALTIME else CLOCK.mono
    time.clock_gettime_ns = lambda clk: int(time.clock_gettime(clk) * 1e9)
    datetime.datetime = FakeDatetime


def uninstall_clock():
    for name, f in _REAL.items():
        setattr(time, name, f)
    datetime.datetime = real_datetime


install_clock()
try:
    import vblf  # noqa: E402
    from vblf import can, constants, ethernet, flexray, general, lin, reader, tp_diag, writer  # noqa: E402,F401
finally:
    uninstall_clock()  # the parent process only schedules work; case-running processes install it again
assert os.path.realpath(vblf.__file__).startswith(os.path.realpath(SRC) + os.sep), vblf.__file__
VBLF_DIR = os.path.dirname(os.path.realpath(vblf.__file__))
MODULES = {"can": can, "general": general, "lin": lin, "ethernet": ethernet, "flexray": flexray, "tp_diag": tp_diag}
BlfReader = reader.BlfReader
BlfWriter = writer.BlfWriter
