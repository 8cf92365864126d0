"""Builds library objects from the reference codec's values, through public names only."""
import hashlib

from mc import env, layout
from mc.layout import SPECS

G = env.general
K = env.constants


def cls_of(spec):
    return getattr(env.MODULES[spec.module], spec.name)


def make_header(spec, v):
    base = G.ObjectHeaderBase(
        signature=v["header.base.signature"], header_size=v["header.base.header_size"],
        header_version=v["header.base.header_version"], object_size=v["header.base.object_size"],
        object_type=K.ObjType(v["header.base.object_type"]))
    kw = {"object_flags": K.ObjFlags(v["header.object_flags"]), "object_version": v["header.object_version"],
          "object_time_stamp": v["header.object_time_stamp"]}
    if spec.header is layout.VHEADER:
        return G.VarObjectHeader(base=base, object_static_size=v["header.object_static_size"], **kw)
    return G.ObjectHeader(base=base, client_index=v["header.client_index"], **kw)


def construct(spec, v):
    """The object whose attributes are v (path -> user-visible value), via the class's constructor."""
    header = make_header(spec, v)
    if spec.special == "lin2":
        L = env.lin
        p = "lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event."
        bus = L.LinBusEvent(**{k: v[p + k] for k in ("sof", "event_baudrate", "channel", "reserved")})
        p = "lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event."
        syn = L.LinSynchFieldEvent(lin_bus_event=bus, **{k: v[p + k] for k in ("synch_break_length", "synch_del_length")})
        p = "lin_timestamp_event.lin_msg_descr_event."
        dsc = L.LinMessageDescriptor(lin_synch_field_event=syn, **{
            k: v[p + k] for k in ("supplier_id", "message_id", "nad", "id", "dlc", "checksum_model")})
        ts = L.LinDatabyteTimestampEvent(lin_msg_descr_event=dsc, databyte_timestamps=tuple(
            v["lin_timestamp_event.databyte_timestamps[%d]" % i] for i in range(9)))
        kw = {p: v[p] for _, _, p in spec.fields if not p.startswith("lin_timestamp_event")}
        return L.LinMessage2(header=header, lin_timestamp_event=ts, **kw)
    kw = {}
    for p in layout.paths(spec):
        if p.startswith("header."):
            continue
        if p.endswith("]"):
            kw.setdefault(p.split("[")[0], []).append(v[p])
        elif p in spec.enums:
            e = getattr(K, spec.enums[p])
            kw[p] = e(v[p]) if v[p] in set(e) else v[p]
        else:
            kw[p] = v[p]
    for p in ("canfd_flags",):
        if p in kw:
            kw[p] = K.CanFdFlags(kw[p])
    if spec.name == "CanFdMessage64":
        kw["flags"] = K.CanFdFlags(kw["flags"])
    if spec.name == "AppTrigger":
        kw["flags"] = K.TriggerFlag(kw["flags"])
    return cls_of(spec)(header=header, **kw)


OPAQUE_TYPES = [t for t in range(0, 129) if t not in layout.BY_TYPE and t != 10]


def opaque_bytes(size, payload=b"", otype=23):
    """A serialised object of an unsupported type: 16-byte base header plus payload, `size` bytes."""
    body = (payload * (1 + size // max(1, len(payload))) if payload else b"\xa5" * size)[: size - 16]
    b = bytearray(16)
    layout.put(b, 0, "4s", b"LOBJ")
    layout.put(b, 4, "H", 16)
    layout.put(b, 6, "H", 1)
    layout.put(b, 8, "I", size)
    layout.put(b, 12, "I", otype)
    return bytes(b) + body


def opaque(size, payload=b"", otype=23):
    return G.NotImplementedObject.unpack(opaque_bytes(size, payload, otype))


def from_bytes(raw):
    """Library object for serialised bytes, chosen by the reference table (not by the reader)."""
    t = layout.peek(raw, 12, "I")
    spec = layout.BY_TYPE.get(t)
    return cls_of(spec).unpack(raw) if spec else G.NotImplementedObject.unpack(raw)


_SAMPLES = {}


def pattern(n, start=0x11, step=7):
    return bytes((start + step * i) & 0xFF for i in range(n))


def noise(n, seed=1):
    """Incompressible bytes (the same ones every time)."""
    out = b""
    while len(out) < n:
        out += hashlib.sha256(b"%d %d" % (seed, len(out))).digest()
    return out[:n]


def sample_bytes(name, k=0, lens=None):
    """A serialised object of a supported type with pairwise different field bytes."""
    key = (name, k, lens)
    if key not in _SAMPLES:
        spec = SPECS[name]
        vals = {}
        pos = 3 + 101 * k
        for off, fmt, p in spec.header + spec.fields:
            if p.startswith("header.base") or p in spec.lenfields or p == "ext_data_offset":
                continue
            raw = pattern(layout.width(fmt), pos & 0xFF, 13)
            pos += 17
            v = layout.peek(raw, 0, fmt)
            if p in spec.enums:
                m = sorted(int(x) for x in getattr(K, spec.enums[p]))
                v = m[k % len(m)]
            if fmt == "d":
                v = 1.5 + k
            vals[p] = v
        parts = {}
        for i, (a, _, kind) in enumerate(spec.parts):
            n = lens[i] if lens else (5 + 3 * i + k)
            raw = bytes(65 + (i * 7 + j * 3 + k) % 26 for j in range(n))
            if kind == "textz" and n:
                raw = raw[:-1] + b"\0"
            parts[a] = raw
        ext = (0x01020304 + k, 0x0A0B0C0D + k) if spec.special in ("fd64", "fde64") else None
        _SAMPLES[key] = layout.encode(spec, vals, parts, otype=spec.types[k % len(spec.types)], ext=ext)
    return _SAMPLES[key]


def sample(name, k=0, lens=None):
    raw = sample_bytes(name, k, lens)
    return construct(SPECS[name], layout.expected(SPECS[name], raw))
