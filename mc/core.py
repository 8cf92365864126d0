"""Check runner: exhaustively runs every case of a check's units in worker processes, turns every
failing case into a replayable file, measures coverage, writes the evidence file.

A check module provides
  PROP, LEVEL, RULE           property id, evidence level, what a case is and when it is non-trivial
  units(tier) -> list         JSON-able work units (together they cover the stated space)
  run_unit(unit, ctx)         enumerates all cases of a unit, each through ctx.do(func, *args)
  and module-level case functions func(*args): raise Violation / any exception = the case fails;
  the return value is the case's observation (hashable; None = trivial).
"""
import atexit
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import signal
import sys
import tempfile
import traceback
from importlib import import_module

from mc import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")
CASE_CPU_SECONDS = 30.0
MAX_VIOLATIONS_PER_UNIT = 1
# Wall time after which a run stops and says so in its evidence. Never reached on the unchanged tree; a changed
# tree can make a search much larger.
DEADLINE = {"quick": 600, "thorough": 6 * 3600}


class Violation(Exception):
    """The property does not hold for this case. `key` identifies the input for known findings."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Hang(BaseException):
    """The code under test did not come to an end (step or CPU budget used up)."""


def require(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m)[:600] for m in msg))


def _on_vtalrm(signum, frame):
    raise Hang("no end within the CPU time limit (%s s unless stated)" % CASE_CPU_SECONDS)


def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {"$b": bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {"$d": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, int) and not isinstance(x, bool):
        return int(x)
    return x


def dec(x):
    if isinstance(x, dict):
        if "$b" in x:
            return bytes.fromhex(x["$b"])
        return {dec(k): dec(v) for k, v in x["$d"]}
    if isinstance(x, list):
        return tuple(dec(i) for i in x)
    return x


_SCRATCH = []


def scratch():
    """This process's scratch directory, below one that the parent process removes at its end."""
    if not _SCRATCH:
        _SCRATCH.append(tempfile.mkdtemp(prefix="vblf-mc-"))
        atexit.register(shutil.rmtree, _SCRATCH[0], True)
    d = os.path.join(_SCRATCH[0], str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return os.path.realpath(d)


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, known=frozenset()):
        self.n = 0
        self.seen = set()
        self.samples = []
        self.last = None
        self.cpu_seconds = CASE_CPU_SECONDS
        self.violations = []
        self.known_hit = {}
        self.known = known
        self.counters = {}
        self.capped = []
        self.st = set()
        self.tr = set()

    def state(self, *key):
        """Counts a distinct state; returns its number within this process."""
        self.st.add(hash(key))

    def trans(self, *key):
        """Counts a distinct transition."""
        self.tr.add(hash(key))

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def do(self, func, *args):
        self.n += 1
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, self.cpu_seconds)
            obs = func(*args)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except BaseException as e:  # noqa: BLE001 - anything the code under test does wrong
            if type(e) is KeyboardInterrupt:
                raise
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            key = getattr(e, "key", None)
            if key is not None and key in self.known:
                self.known_hit[key] = self.known_hit.get(key, 0) + 1
                return None
            tb = traceback.format_exc(limit=-6)
            self.violations.append(
                {"func": func.__name__, "args": enc(args), "key": key,
                 "error": "%s: %s" % (type(e).__name__, str(e)[:2000]), "trace": tb[-3000:]})
            if len(self.violations) >= MAX_VIOLATIONS_PER_UNIT:
                raise Stop from None
            return None
        if obs is not None:
            self.seen.add(hash(obs))
            self.last = (func, args, obs)
        return obs

    def export(self):
        if self.last:
            func, args, obs = self.last
            case = {"case": [func.__name__, enc(args)], "observed": repr(obs)[:300]}
            if len(json.dumps(case)) < 3000:
                self.samples.append(case)
        return (self.n, self.seen, self.samples, self.violations, self.known_hit, self.counters, self.capped,
                self.st, self.tr)


def limits():
    env.install_clock()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    signal.signal(signal.SIGVTALRM, _on_vtalrm)


def load_known(prop):
    keys = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for line in f:
                if line.startswith("finding: property=%s key=" % prop):
                    key, _, what = line.split(" key=", 1)[1].partition(" ")
                    keys[key] = what.strip()
    return keys


_MOD = None
_KNOWN = frozenset()


def _work(unit):
    ctx = Ctx(_KNOWN)
    env.CLOCK.reset()
    try:
        _MOD.run_unit(unit, ctx)
    except Stop:
        pass
    except Exception as e:  # noqa: BLE001 - the code under test fails where a unit prepares its cases
        ctx.violations.append(setup_failure(e, unit))
    return unit, ctx.export()


def setup_failure(e, unit):
    return {"func": "__unit__", "args": enc((unit,)), "key": None, "error": "preparing the cases: %s: %s" % (type(e).__name__, str(e)[:2000]),
            "trace": traceback.format_exc(limit=-6)[-3000:]}


def run_check(modname, tier, seed, jobs):
    global _MOD, _KNOWN
    tot = Ctx()
    try:
        mod = import_module("mc.checks." + modname)
        units = mod.units(tier)
    except Exception as e:  # noqa: BLE001 - the code under test fails where the check prepares its cases
        tot.violations.append(setup_failure(e, None))
        return report(tot, modname, modname.upper())
    prop = mod.PROP
    known = load_known(prop)
    _MOD, _KNOWN = mod, frozenset(known)
    t0 = env.real_monotonic()
    scratch()  # before the workers are started: they inherit the directory
    per_unit = []
    total_units = len(units)
    done = 0
    deadline = t0 + DEADLINE[tier]
    stopped = False
    with mp.get_context("fork").Pool(jobs, initializer=limits, maxtasksperchild=None) as pool:
        results = pool.imap_unordered(_work, units, 1)
        while True:
            try:
                unit, (n, seen, samples, viol, kh, counters, capped, st, tr) = results.next(deadline - env.real_monotonic())
            except StopIteration:
                break
            except mp.TimeoutError:
                pool.terminate()
                tot.capped.append("deadline of %d s: %d of %d units finished" % (DEADLINE[tier], done, total_units))
                break
            done += 1
            tot.n += n
            tot.seen |= seen
            tot.st |= st
            tot.tr |= tr
            tot.violations += viol
            for k, v in kh.items():
                tot.known_hit[k] = tot.known_hit.get(k, 0) + v
            for k, v in counters.items():
                tot.count(k, v)
            tot.capped += capped
            per_unit.append((json.dumps(enc(unit)), samples))
            if len(tot.violations) >= 5:
                stopped = True
                pool.terminate()
                break
    per_unit.sort()
    wall = env.real_monotonic() - t0
    samples = []
    step = max(1, len(per_unit) // 6)
    for i in range(seed % step, len(per_unit), step):
        samples += per_unit[i][1][:1]
    cov = {
        "evaluations": tot.n,
        "distinct_nontrivial": len(tot.seen),
        "rule": mod.RULE,
        "units": "%d of %d units of the stated space" % (done, total_units),
        "exhaustive": not stopped and not tot.capped,
        "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        "known_findings_hit": dict(sorted(tot.known_hit.items())),
        "samples": samples[:8] or [s for _, ss in per_unit for s in ss][:4],
    }
    if tot.st:
        tot.count("states", len(tot.st))
    if tot.tr:
        tot.count("transitions", len(tot.tr))
    cov.update(tot.counters)
    if mod.LEVEL == "model_checking":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
        if cov["traces_validated_against_impl"] == tot.n:
            del cov["evaluations"]  # every execution is a validated trace: the same count
    if tot.capped:
        cov["capped"] = tot.capped[:20]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": len(tot.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: evaluations=%d distinct=%d %s wall=%.1fs" % (
        prop, tier, tot.n, len(tot.seen), " ".join("%s=%s" % kv for kv in sorted(tot.counters.items())), wall))
    if tot.capped:
        print("capped:", tot.capped[:5])
    for k in sorted(tot.known_hit):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k]))
    return report(tot, modname, prop)


def report(tot, modname, prop):
    if not tot.violations:
        return 0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    tot.violations.sort(key=lambda v: len(json.dumps(v["args"])))  # simplest first
    for i, v in enumerate(tot.violations[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump(dict(v, check=modname, property=prop), f, indent=1)
        print("case %s%s" % (v["func"], json.dumps(v["args"])[:800]))
        print(v["error"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay(path):
    """Runs one recorded case again, without the explorer."""
    with open(path) as f:
        v = json.load(f)
    mod = import_module("mc.checks." + v["check"])
    args = dec(v["args"])
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    env.install_clock()
    ctx = Ctx(frozenset(load_known(v["property"])))
    try:
        if v["func"] != "__unit__":
            ctx.do(getattr(mod, v["func"]), *args)
        elif args[0] is None:
            mod.units("quick")
        else:
            mod.run_unit(args[0], ctx)
    except Stop:
        pass
    except Exception as e:  # noqa: BLE001
        ctx.violations.append(setup_failure(e, args[0]))
    if ctx.violations:
        print(ctx.violations[0]["trace"])
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    print("the case passes now")
    return 0


def selftest():
    """Loads every check and builds its work list: the framework itself is complete."""
    n = 0
    for f in sorted(os.listdir(os.path.join(VERIF, "mc", "checks"))):
        if re.fullmatch(r"c\d\d\.py", f):
            mod = import_module("mc.checks." + f[:-3])
            n += len(mod.units("quick"))
    print("%d work units" % n)
    return 0


def main(argv):
    if len(argv) == 2 and argv[0] == "--replay":
        return replay(argv[1])
    if argv == ["--selftest"]:
        return selftest()
    name = argv[0].lower()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = int(os.environ.get("MC_JOBS", "0") or 0) or len(os.sched_getaffinity(0))
    return run_check(name, "thorough" if tier == "thorough" else "quick", seed, jobs)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
