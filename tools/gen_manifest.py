"""Writes MANIFEST.json from the check modules."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "explicit-state search over write histories on the real writer and reader (closure + bounded sequences)",
    "C02": "exhaustive enumeration of container cuts, with a reader-state search, on the real reader",
    "C03": "explicit-state enumeration of filler words and look-alike payloads on the real reader",
    "C04": "exhaustive crash-point and torn-write enumeration over write histories",
    "C05": "explicit-state search over write histories with a controlled clock",
    "C06": "exhaustive enumeration of histories with refused writes at every position",
    "C07": "explicit-state search over write histories, invariant checked after every operation",
    "C08": "exhaustive fault injection: every file operation of every bounded history, every partial store",
    "C09": "exhaustive enumeration of clock behaviours at every clock reading",
    "C10": "bounded exhaustive enumeration of field values and field combinations",
    "C11": "bounded exhaustive enumeration against an independent layout model",
    "C12": "bounded exhaustive enumeration of part lengths and contents",
    "C13": "exhaustive enumeration of object type codes in bounded logs",
    "C14": "exhaustive enumeration of consumption operation sequences against a queue model",
    "C15": "stateless exploration of all thread schedules up to a preemption bound on the real code",
    "C16": "exhaustive enumeration of lifecycle operation sequences against a lifecycle model",
    "C17": "exhaustive enumeration of bounded inputs at open",
    "C18": "exhaustive single-byte (and size field) damage enumeration",
    "C19": "exhaustive enumeration of the calendar",
    "C20": "exhaustive enumeration of offsets, contents and surroundings",
    "C21": "bounded exhaustive enumeration of constructor arguments",
    "C22": "exhaustive enumeration of bounded source logs and copy parameters",
    "C23": "exhaustive enumeration of path and file forms, previous contents and histories",
    "C24": "explicit-state search over write histories with an independent container decoder",
    "C25": "exhaustive enumeration of enumerator values and text bytes",
    "C26": "exhaustive enumeration of declared sizes, offsets and section contents",
    "C29": "exhaustive enumeration of log layouts with read-ahead, live objects and memory measured at every step",
    "C28": "bounded exhaustive enumeration of single-bit and single-attribute differences and of ways to copy",
    "C30": "exhaustive enumeration of refused settings, contents and opening sequences with the file system and open files observed",
    "C31": "exhaustive enumeration of process configurations and orders of use, each compared with a plain process",
    "C32": "exhaustive exploration of the interleavings of a writer and readers on one file, with a state search",
    "C33": "exhaustive fault injection: every file operation of reading a log fails, in combinations",
    "C34": "exhaustive fault injection: an exception at every point of execution where the interpreter delivers signals, singly and in pairs",
    "C27": "exhaustive enumeration of codes, names and flag combinations against reference tables",
}


def module_value(src, name):
    m = re.search(r"^%s = (.*?)(?=^\w|\Z)" % name, src, re.S | re.M)
    ns = {}
    exec("%s = %s" % (name, m.group(1)), {}, ns)  # noqa: S102 - own files
    return ns[name]


checks = []
for c in sorted(TECH):
    with open(os.path.join(V, "mc", "checks", c.lower() + ".py")) as f:
        src = f.read()
    bounds = module_value(src, "BOUNDS")
    ass = module_value(src, "ASSUMPTIONS")
    checks.append({
        "property": c, "quick_cmd": "./check %s quick" % c, "thorough_cmd": "./check %s thorough" % c, "technique": TECH[c],
        "level": module_value(src, "LEVEL"),
        "level_note": "Executes the real code on every case of the bounded space. Quick: %s. Thorough: %s. Trusts the reference codec in mc/layout.py, mc/blf.py and "
                      "CPython. Assumes: %s." % (bounds["quick"], bounds["thorough"], "; ".join(ass) or "nothing further"),
    })
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": [],
               "notes": "No hooks in /repo: the checks drive the public interface only. Fixes are listed in known_findings.txt."}, f, indent=1)
    f.write("\n")
