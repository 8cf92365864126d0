"""C28: objects behave as values."""
import copy
import dataclasses
import pickle
from itertools import product

from mc import blf, env, fields, layout, objs
from mc.core import require
from mc.layout import SPECS

PROP = "C28"
LEVEL = "exploration"
RULE = ("A case is a pair of objects (decoded from bytes that differ in one bit, or an object and a changed one, or objects of two classes) compared with ==, or one object "
        "copied in one way, compared, encoded, and changed attribute by attribute. Non-trivial = distinct pairs / copies.")
BOUNDS = {
    "quick": "28 types, the file header, containers and opaque objects x 3 samples: every bit of every field and part flipped; pairs of bytes at 10 distances changed so that sums, multisets and exclusive-ors stay the same; 5 bytes so that CRCs do; "
             "every attribute (nested ones included) replaced; the values of every two attributes exchanged; "
             "all ordered pairs of classes; copy, deepcopy, replace, construction from the attributes, 6 pickle protocols, attributes set in other orders, anew, or with further ones attached x 4 contents, then every attribute of the copy changed; "
             "copies of copies; every copy through a log",
    "thorough": "8 samples, every pair of attributes changed",
}
ASSUMPTIONS = ["bits of the size and type fields are left out (they change what the other bytes mean)", "a shallow copy shares its header"]
G = env.general
NAMES = list(SPECS) + ["FileStatistics", "LogContainer", "NotImplementedObject"]


def raw_of(name, k):
    if name == "FileStatistics":
        b = bytearray(objs.pattern(144, 7 + k, 3 + 2 * k))
        layout.put(b, 0, "4s", b"LOGG")
        b[12:14] = bytes((k % 6, k % 10))
        b[80:112] = objs.pattern(32, 3)
        return bytes(b)
    if name == "LogContainer":
        return blf.container(objs.opaque_bytes(40 + k), (0, 6)[k & 1])
    if name == "NotImplementedObject":
        return objs.opaque_bytes(16 + 5 * k, b"LOBJ")
    if k >= 100:  # all fields zero / all ones
        return fields.background(name, ("zero", "ones")[k - 100])
    return objs.sample_bytes(name, k)


def cls_of(name):
    return objs.cls_of(SPECS[name]) if name in SPECS else getattr(G, name)


def decode(name, raw):
    return cls_of(name).unpack(raw)


def equal(a, b, what):
    require(a == b and b == a and not (a != b) and not (b != a), what, ": objects that hold the same are unequal:", a, b)


def unequal(a, b, what):
    require(a != b and b != a and not (a == b) and not (b == a), what, ": objects that differ are equal:", a, b)


def skip(name, i):
    """Bytes whose value decides what other bytes mean, or that are no attribute."""
    if name == "FileStatistics":
        return i in (12,)  # unknown application ids are one value
    return 8 <= i < 16 or name == "LogContainer" and 16 <= i < 32 and False


def case_bit(name, k, i):
    raw = raw_of(name, k)
    a = decode(name, raw)
    equal(a, decode(name, bytes(bytearray(raw))), name)
    for bit in range(8):
        other = raw[:i] + bytes([raw[i] ^ 1 << bit]) + raw[i + 1:]
        b = decode(name, other)
        unequal(a, b, "%s, bit %d of byte %d" % (name, bit, i))
    return (name, k, i)


def case_two(name, k, i, j):
    """Two bytes changed so that sums and multisets of bytes stay the same."""
    raw = raw_of(name, k)
    a = decode(name, raw)
    for x, y in ((raw[j], raw[i]), (raw[i] + 1 & 255, raw[j] - 1 & 255), (raw[i] ^ 0x40, raw[j] ^ 0x40)):
        other = bytearray(raw)
        other[i], other[j] = x, y
        if other != raw:
            unequal(a, decode(name, bytes(other)), "%s, bytes %d and %d" % (name, i, j))
    return (name, k, i, j)


CRC32 = bytes.fromhex("410671db01")  # flipping these bits leaves every CRC-32 as it is


def case_crc(name, k, i):
    raw = raw_of(name, k)
    other = bytearray(raw)
    for j in range(5):
        other[i + j] ^= CRC32[j]
    unequal(decode(name, raw), decode(name, bytes(other)), "%s, bytes %d.. with the same CRC-32" % (name, i))
    return (name, k, i)


def case_swap(name, k, p, q):
    """The values of two attributes exchanged."""
    raw = raw_of(name, k)
    a, b = decode(name, raw), decode(name, raw)
    x, y = get(b, p), get(b, q)
    put(b, p, y)
    put(b, q, x)
    if x != y:
        unequal(a, b, "%s.%s and %s exchanged" % (name, ".".join(p), ".".join(q)))
    put(a, p, y)
    put(a, q, x)
    equal(a, b, name)
    return (name, k, p, q)


def leaves(o, path=()):
    """Paths of all attributes; sequence elements by index."""
    for f in dataclasses.fields(o):
        v = getattr(o, f.name)
        yield path + (f.name,)
        if dataclasses.is_dataclass(v):
            yield from leaves(v, path + (f.name,))


def get(o, path):
    for p in path:
        o = getattr(o, p)
    return o


def put(o, path, v):
    setattr(get(o, path[:-1]), path[-1], v)


def different(v):
    """A value of the same kind that is not v."""
    if dataclasses.is_dataclass(v):
        w = copy.deepcopy(v)
        p = [x for x in leaves(w) if not dataclasses.is_dataclass(get(w, x))][-1]
        put(w, p, different(get(w, p)))
        return w
    if isinstance(v, bool) or v is None:
        return not v
    if isinstance(v, int):
        return int(v) ^ 1
    if isinstance(v, float):
        return v + 1.0
    if isinstance(v, str):
        return v[:-1] + chr(ord(v[-1]) ^ 1) if v else "x"
    if isinstance(v, (bytes, bytearray)):
        return bytes(v[:-1]) + bytes([v[-1] ^ 1]) if v else b"x"
    if isinstance(v, (tuple, list)):
        return type(v)([*v[:-1], different(v[-1])])
    raise TypeError(type(v))


def changes(v):
    yield different(v)
    if isinstance(v, (tuple, list)):
        for i in range(len(v)):
            w = list(v)
            w[i] = different(v[i])
            yield type(v)(w)
    elif isinstance(v, (bytes, str)) and v:
        yield v[1:]
        yield v + v[:1]


def case_attr(name, k, path):
    raw = raw_of(name, k)
    a, b = decode(name, raw), decode(name, raw)
    v = get(b, path)
    for w in changes(v):
        put(b, path, w)
        unequal(a, b, "%s.%s" % (name, ".".join(path)))
    put(b, path, v)
    equal(a, b, name)
    require(a.pack() == raw, name, "changed by comparing")
    return (name, k, path)


def case_attrs(name, k, p, q):
    raw = raw_of(name, k)
    a, b = decode(name, raw), decode(name, raw)
    for path in (p, q):
        put(a, path, different(get(a, path)))
    unequal(a, b, name)
    for path in (p, q):
        put(b, path, different(get(b, path)))
    equal(a, b, name)
    return (name, k, p, q)


def case_classes(m, n, k):
    a, b = decode(m, raw_of(m, k)), decode(n, raw_of(n, k))
    if m != n:
        unequal(a, b, m + ", " + n)
    for x in (None, 0, b"", "", raw_of(m, k), (), object(), a.pack, type(a)):
        require(a != x and not (a == x), m, "is equal to", x)
    require(type(a).__name__ in repr(a), "repr", repr(a))
    return (m, n, k)


def rebuild(o):
    return type(o)(**{f.name: getattr(o, f.name) for f in dataclasses.fields(o)})


def positional(o):
    return type(o)(*[getattr(o, f.name) for f in dataclasses.fields(o)])


def anew(o, order):
    """The object put together attribute by attribute in another order, as deserialisers (YAML, JSON) do."""
    if not dataclasses.is_dataclass(o):
        return copy.deepcopy(o)
    new = type(o).__new__(type(o))
    names = [f.name for f in dataclasses.fields(o)]
    for n in order(names):
        setattr(new, n, anew(getattr(o, n), order))
    return new


def set_again(o):
    """A copy whose attributes were all deleted and set again, the last one first."""
    o = copy.deepcopy(o)

    def redo(o):
        for f in reversed(dataclasses.fields(o)):
            v = getattr(o, f.name)
            delattr(o, f.name)
            setattr(o, f.name, v)
            if dataclasses.is_dataclass(v):
                redo(v)
    redo(o)
    return o


def noted(o):
    """A copy to which the user has attached remarks."""
    o = copy.deepcopy(o)

    def note(o):
        try:
            o.a_remark_of_the_user = "seen"
        except AttributeError:  # objects need not take further attributes
            return
        for f in dataclasses.fields(o):
            if dataclasses.is_dataclass(getattr(o, f.name)):
                note(getattr(o, f.name))
    note(o)
    return o


WAYS = {"sorted": lambda o: anew(o, sorted), "reversed": lambda o: anew(o, lambda n: n[::-1]), "rotated": lambda o: anew(o, lambda n: n[1:] + n[:1]),
        "set again": set_again, "noted": noted,
        "copy": copy.copy, "deepcopy": copy.deepcopy, "replace": dataclasses.replace, "rebuild": rebuild, "positional": positional,
        **{"pickle%d" % p: (lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in range(6)}}
DEEP = [w for w in WAYS if w in ("deepcopy", "sorted", "reversed", "rotated", "set again", "noted") or w.startswith("pickle")]


def same(a, b, raw, what):
    require(type(a) is type(b), what, "has class", type(a))
    equal(a, b, what)
    require(a.pack() == raw and b.pack() == raw, what, "encodes differently")
    for p in leaves(b):
        x, y = get(a, p), get(b, p)
        require(type(x) is type(y), what, ".".join(p), "is a", type(x), "instead of", type(y))


def case_copy(name, k, way, again):
    raw = raw_of(name, k)
    o = decode(name, raw)
    c = WAYS[way](o)
    require(c is not o, way, "returned the object itself")
    same(c, o, raw, name + " " + way)
    if again:
        same(WAYS[again](c), o, raw, "%s %s %s" % (name, way, again))
    if name in SPECS or name == "NotImplementedObject":
        sink = blf.write_log([o, c, o, c], 40)
        blf.same_objects(blf.read_all(sink.final), [raw] * 4)
    # changes of the copy do not reach the original (below its own attributes only for deep copies)
    for p in list(leaves(c)):
        if len(p) == 1 or way in DEEP:
            v = get(c, p)
            put(c, p, different(v))
            same(o, decode(name, raw), raw, "%s after changing %s of its %s" % (name, ".".join(p), way))
            unequal(o, c, name + " " + way)
            put(c, p, v)
    equal(o, c, name + " " + way)
    return (name, k, way, again)


def samples(name, th):
    ks = list(range(8 if th else 3))
    return ks + [100, 101] if name in SPECS else ks


def units(tier):
    th = tier == "thorough"
    return [(kind, n, th) for n in NAMES for kind in ("bit", "two", "attr", "swap", "classes", "copy")]


def run_unit(u, ctx):
    kind, name, th = u
    if kind == "classes":
        for n, k in product(NAMES, range(3)):
            ctx.do(case_classes, name, n, k)
        return
    for k in samples(name, th):
        if kind == "bit":
            for i in range(len(raw_of(name, k))):
                if not skip(name, i) and not (k >= 100 and any(
                        f == "d" and o <= i < o + 8 for o, f, _ in SPECS[name].fields)):
                    ctx.do(case_bit, name, k, i)
        elif kind == "two":
            doubles = {i for o, f, _ in SPECS[name].fields if f == "d" for i in range(o, o + 8)} if name in SPECS else set()
            ok = [i for i in range(len(raw_of(name, k))) if not skip(name, i) and i not in doubles]
            if k >= 100 or k and not th:
                continue
            for i in ok:
                for d in (1, 2, 3, 4, 5, 7, 8, 12, 16, 32):
                    if i + d in ok:
                        ctx.do(case_two, name, k, i, i + d)
                if all(i + j in ok for j in range(5)):
                    ctx.do(case_crc, name, k, i)
        elif kind == "swap":
            ps = [p for p in leaves(decode(name, raw_of(name, k))) if not dataclasses.is_dataclass(get(decode(name, raw_of(name, k)), p))]
            for p, q in product(ps, ps):
                if p < q:
                    ctx.do(case_swap, name, k, p, q)
        elif kind == "attr":
            ps = list(leaves(decode(name, raw_of(name, k))))
            for p in ps:
                ctx.do(case_attr, name, k, p)
            if th:
                for p, q in product(ps, ps):
                    if p < q and p != q[:len(p)]:
                        ctx.do(case_attrs, name, k, p, q)
        else:
            for way in WAYS:
                for again in (None, *WAYS):
                    ctx.do(case_copy, name, k, way, again)
