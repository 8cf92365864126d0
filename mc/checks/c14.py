"""C14: every mixture of ways to consume a reader."""
import itertools
from collections import deque

from mc import blf, env, objs
from mc.core import Violation, require

PROP = "C14"
LEVEL = "model_checking"
RULE = ("A case is one sequence of consumption operations on one log, run on the real BlfReader and on a queue model step by step; every result "
        "must agree. A state is (log, objects left, iterators in use, end seen); non-trivial = distinct (log, sequence, results).")
BOUNDS = {
    "quick": "12 operations (single fetch, fresh / two held iterators, for+break after 1 and 2, abandoned generator, list, islice, next with default, "
             "re-entering the reader, membership-style scan, fetch after loop) in all sequences up to length 4 on 17 logs of 0-4 objects (also containers of filler only, empty and nested ones), length 5 on 4 logs; all patterns of up to 3 operations repeated over logs of 60 and 300 objects, of one over 1,250 and 5,000",
    "thorough": "length 5 on all logs, length 6 on 4 logs, 20,000 objects",
}
ASSUMPTIONS = ["an iterator the caller closes explicitly is only required not to lose objects if it was wrapped by 'yield from'"]

OPS = ("fetch", "fresh", "held_a", "held_b", "break1", "break2", "abandon", "list", "islice", "default", "gen", "scan")


def logs():
    ob = objs.opaque_bytes
    r = [ob(16), objs.sample_bytes("CanErrorFrame"), ob(21, b"LOBJ"), objs.sample_bytes("AppText", 0, (3,))]
    out = []
    fh, c = blf.file_header, blf.container
    for n in range(5):
        s = b"".join(blf.pad(x, 8) for x in r[:n])
        out.append((fh(0) + (c(s) if n else b""), n))
    s = b"".join(blf.pad(x, 8) for x in r)
    out.append((fh(6) + c(s[:20], 6) + blf.pad(c(s[20:70], 6), 4) + c(s[70:], 6), 4))
    out.append((fh(0) + c(s[:1]) + c(b"") + c(s[1:]), 4))
    out.append((fh(0) + c(s) + b"\0\0\0", 4))                   # trailing filler
    out.append((fh(0) + c(s) + c(b"LOBJ\x10\0"), 4))            # incomplete last object
    out.append((fh(0) + c(s[:16]) + c(s[16:64])[:40], 1))       # truncated container
    out.append((fh(0) + c(b""), 0))
    out.append((fh(0) + s[:16] + c(s[16:64]), 2))               # a bare object first
    out.append((fh(6) + c(s[:16]) + c(s[16:64], 6), 2))
    out.append((fh(0) + b"LOB" + c(b"\0\0" + s[:16]) + b"L", 1))
    # containers without an object of their own: filler only, a part of an object only, nothing, containers within a container
    out.append((fh(0) + c(b"\0" * 4) + c(s[:16]) + c(b"\0" * 40) + c(b"") + c(s[16:64]) + c(b"\0"), 2))
    out.append((fh(6) + c(s[:16], 6) + c(s[16:21], 6) + c(b"", 6) + c(s[21:23], 6) + c(s[23:56] + b"\0\0", 6) + c(b"\0" * 9, 6) + c(s[56:], 6), 4))
    out.append((fh(0) + c(blf.pad(c(s[:16]), 8) + blf.pad(c(b"\0" * 8), 8) + c(s[16:56])) + c(blf.pad(c(b""), 8) + s[56:]), 4))
    return out, r


_L = []


def case(li, ops):
    if not _L:
        _L.append(logs())
    (data, n), raws = _L[0][0][li], _L[0][1]
    return (li, *run(data, raws[:n], ops, li))


def case_long(n, layout_, pattern):
    """A pattern of operations repeated until a long log is used up."""
    raws = [objs.opaque_bytes(17 + i % 23, b"%d" % i) for i in range(n)]
    stream = b"".join(blf.pad(x, 8) for x in raws)
    cut = {"one": len(stream) + 1, "small": 100, "tiny": 7}[layout_]
    level = 6 if layout_ == "one" else 0
    data = blf.file_header(level) + b"".join(blf.pad(blf.container(stream[i:i + cut], level), 8) for i in range(0, len(stream), cut))
    return (n, layout_, *run(data, raws, itertools.islice(itertools.cycle(pattern), 2 * n + 2), n)[:0], pattern)


def run(data, raws, ops, li):
    left = deque(raws)
    reader = env.BlfReader(blf.io.BytesIO(data))
    held = {}
    end_seen = False

    def give(o, what):
        nonlocal end_seen
        if o is None:
            require(not left, what, "reports the end, left:", len(left))
            end_seen = True
            return
        require(left, what, "delivers an object after the end")
        want = left.popleft()
        require(o.pack() == want, what, "delivers", o.pack()[:24], "instead of", want[:24])

    states = []
    for op in ops:
        if op == "fetch":
            give(reader.read_object(), op)
        elif op == "fresh":
            give(next(iter(reader), None), op)
        elif op in ("held_a", "held_b"):
            if op not in held:
                held[op] = iter(reader)
            give(next(held[op], None), op)
        elif op in ("break1", "break2"):
            k = 0
            for o in reader:
                give(o, op)
                k += 1
                if k == int(op[-1]):
                    break
            else:
                give(None, op)
        elif op == "abandon":
            def wrapper():
                yield from reader
            g = wrapper()
            give(next(g, None), op)
            g.close()
        elif op == "list":
            for o in list(reader):
                give(o, op)
            give(None, op)
        elif op == "islice":
            got = list(itertools.islice(reader, 2))
            for o in got:
                give(o, op)
            if len(got) < 2:
                give(None, op)
        elif op == "default":
            give(next(iter(reader), None), op)
            give(reader.read_object(), op)
        elif op == "gen":
            def inner():
                for o in reader:
                    yield o
            g = inner()
            give(next(g, None), op)
            del g
        else:  # scan: a loop that stops at the first object of a class
            for o in reader:
                give(o, op)
                if type(o).__name__ == "CanErrorFrame":
                    break
            else:
                give(None, op)
        states.append((li, len(left), tuple(sorted(held)), end_seen))
        if end_seen and li > 100:
            break
    for _ in range(len(left) + 1):
        give(reader.read_object(), "final fetch")
    for _ in range(2):
        require(reader.read_object() is None and list(reader) == [], "objects after the end")
    return ops, tuple(states)


def units(tier):
    th = tier == "thorough"
    u = []
    for li in range(17):
        for first in OPS:
            u.append((li, (5 if th else 4) + (li in (3, 5, 8, 11)), first))
    for lay, n in (("one", 300), ("small", 300), ("tiny", 60 if not th else 300), ("one", 5000), ("small", 20000)):
        for first in OPS:
            u.append(("long", lay, n if n < 5000 or th else n // 4, first, 2 if n < 5000 else 1))
    return sorted(u, key=lambda x: x[0] != "long")


def run_unit(u, ctx):
    if u[0] == "long":
        _, lay, n, first, depth = u
        for rest in itertools.chain.from_iterable(itertools.product(OPS, repeat=k) for k in range(depth + (depth > 1))):
            if n < 5000 or len(rest) < 2:
                ctx.do(case_long, n, lay, (first, *rest))
        ctx.count("traces_validated_against_impl", ctx.n)
        return
    li, depth, first = u
    for n in range(depth):
        for rest in itertools.product(OPS, repeat=n):
            obs = ctx.do(case, li, (first,) + rest)
            prev = (li, None)
            for op, s in zip((first,) + rest, obs[2] if obs else ()):
                ctx.state(s)
                ctx.trans(prev, op, s)
                prev = s
    ctx.count("traces_validated_against_impl", ctx.n)


_ = Violation
