"""Independent reference codec for the BLF objects (never imports the library's formats).

Every type is a table of (offset, little-endian format, attribute path); offsets are counted from the
start of the object, whose 32-byte header is the same for all supported types. Variable parts follow.
"""
import struct
from functools import reduce

HEADER = [
    (0, "4s", "header.base.signature"), (4, "H", "header.base.header_size"),
    (6, "H", "header.base.header_version"), (8, "I", "header.base.object_size"),
    (12, "I", "header.base.object_type"), (16, "I", "header.object_flags"),
    (20, "H", "header.client_index"), (22, "H", "header.object_version"),
    (24, "Q", "header.object_time_stamp"),
]
VHEADER = [(o, f, "header.object_static_size" if o == 20 else p) for o, f, p in HEADER]
WIDTH = {"B": 1, "H": 2, "I": 4, "Q": 8, "h": 2, "d": 8}


def width(fmt):
    return int(fmt[:-1]) if fmt[-1] == "s" else WIDTH[fmt]


class Spec:
    def __init__(self, name, module, types, fields, parts=(), header=HEADER, enums=None, special=None):
        self.name, self.module, self.types = name, module, types
        self.header = header
        self.fields = []
        off = 32
        for item in fields.split():
            path, fmt = item.split(":")
            self.fields.append((off, fmt, path))
            off += width(fmt)
        self.end = off  # end of the fixed part
        self.parts = list(parts)  # (attribute, length field or None, kind)
        self.enums = enums or {}
        self.special = special
        self.lenfields = {p[1] for p in self.parts if p[1]}
        self.fmt = {p: f for _, f, p in self.header + self.fields}
        self.off = {p: o for o, _, p in self.header + self.fields}

    def __repr__(self):
        return "<%s>" % self.name


_LIN2 = ("{b}.sof:Q {b}.event_baudrate:I {b}.channel:H {b}.reserved:2s "
         "{s}.synch_break_length:Q {s}.synch_del_length:Q "
         "{m}.supplier_id:H {m}.message_id:H {m}.nad:B {m}.id:B {m}.dlc:B {m}.checksum_model:B ").format(
    m="lin_timestamp_event.lin_msg_descr_event",
    s="lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event",
    b="lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event") + " ".join(
    "lin_timestamp_event.databyte_timestamps[%d]:Q" % i for i in range(9)) + (
    " data:8s crc:H direction:B simulated:B is_etf:B etf_assoc_index:B etf_assoc_etf_id:B fsm_id:B fsm_state:B"
    " reserved:3s resp_baudrate:I exact_header_baudrate:d early_stopbit_offset:I early_stopbit_offset_response:I")

SPECS = {s.name: s for s in [
    Spec("CanMessage", "can", [1], "channel:H flags:B dlc:B frame_id:I data:8s"),
    Spec("CanMessage2", "can", [86], "channel:H flags:B dlc:B frame_id:I data:8s frame_length:I bit_count:B reserved1:B reserved2:H"),
    Spec("CanFdMessage", "can", [100], "channel:H flags:B dlc:B frame_id:I frame_length:I arb_bit_count:B canfd_flags:B"
         " valid_data_bytes:B reserved1:B reserved2:I data:64s reserved3:I"),
    Spec("CanFdMessage64", "can", [101], "channel:B dlc:B valid_data_bytes:B tx_count:B frame_id:I frame_length:I flags:I"
         " btr_cfg_arb:I btr_cfg_data:I time_offset_brs_ns:I time_offset_crc_del_ns:I bit_count:H dir:B"
         " ext_data_offset:B crc:I", [("data", None, "fd64")], special="fd64"),
    Spec("CanDriverStatistic", "can", [4], "channel:H bus_load:H standard_data_frames:I extended_data_frames:I"
         " standard_remote_frames:I extended_remote_frames:I error_frames:I overload_frames:I reserved:I"),
    Spec("CanDriverError", "can", [31], "channel:H tx_errors:B rx_errors:B error_code:I"),
    Spec("CanDriverErrorExt", "can", [74], "channel:H tx_errors:B rx_errors:B error_code:I flags:I state:B reserved1:B"
         " reserved2:H reserved3[0]:I reserved3[1]:I reserved3[2]:I reserved3[3]:I"),
    Spec("CanErrorFrame", "can", [2], "channel:H length:H reserved:I"),
    Spec("CanErrorFrameExt", "can", [73], "channel:H length:H flags:I ecc:B position:B dlc:B reserved1:B"
         " frame_length_in_ns:I frame_id:I flags_ext:H reserved2:H data:8s"),
    Spec("CanFdErrorFrame64", "can", [104], "channel:B dlc:B valid_data_bytes:B ecc:B flags:H error_code_ext:H ext_flags:H"
         " ext_data_offset:B reserved1:B frame_id:I frame_length:I btr_cfg_arb:I btr_cfg_data:I time_offset_brs_ns:I"
         " time_offset_crc_del_ns:I crc:I error_position:H reserved2:H", [("data", "valid_data_bytes", "bytes")], special="fde64"),
    Spec("CanDriverHwSync", "can", [44], "channel:H flags:B reserved1:B reserved2:I"),
    Spec("CanOverloadFrame", "can", [3], "channel:H reserved1:H reserved2:I"),
    Spec("LinMessage", "lin", [11], "channel:H id:B dlc:B data:8s fsm_id:B fsm_state:B header_time:B full_time:B crc:H dir:B reserved:5s"),
    Spec("LinMessage2", "lin", [57], _LIN2, special="lin2"),
    Spec("EthernetFrameEx", "ethernet", [120], "struct_length:H flags:H channel:H hardware_channel:H frame_duration:Q"
         " frame_checksum:I dir:H frame_length:H frame_handle:I reserved:I", [("frame_data", "frame_length", "bytes")]),
    Spec("EthernetStatistic", "ethernet", [114], "channel:H reserved_1:H reserved_2:I rcv_ok_hw:Q xmit_ok_hw:Q"
         " rcv_error_hw:Q xmit_error_hw:Q rcv_bytes_hw:Q xmit_bytes_hw:Q rcv_no_buffer_hw:Q sqi:h hardware_channel:H reserved_3:I"),
    Spec("FlexrayVFrReceiveMsgEx", "flexray", [66], "channel:H version:H channel_mask:H dir_flags:H client_index:I cluster_no:I"
         " frame_id:H header_crc1:H header_crc2:H byte_count:H data_count:H cycle:H tag:I data:I frame_flags:I"
         " app_parameter:I frame_crc:I frame_length_ns:I frame_id1:H pdu_offset:H blf_log_mask:H reserved:26s",
         [("data_bytes", "data_count", "bytes")]),
    Spec("DiagRequestInterpretation", "tp_diag", [119], "diag_description_handle:I diag_variant_handle:I diag_service_handle:I"
         " ecu_qualifier_length:I variant_qualifier_length:I service_qualifier_length:I",
         [("ecu_qualifier", "ecu_qualifier_length", "utf8"), ("variant_qualifier", "variant_qualifier_length", "utf8"),
          ("service_qualifier", "service_qualifier_length", "utf8")]),
    Spec("AppText", "general", [65], "source:I reserved1:I text_length:I reserved2:I", [("text", "text_length", "textz")],
         enums={"source": "AppTextSource"}),
    Spec("AppTrigger", "general", [5], "pre_trigger_time:Q post_trigger_time:Q channel:H flags:H app_specific:I"),
    Spec("EnvironmentVariable", "general", [6, 7, 8, 9], "name_length:I data_length:I reserved:Q",
         [("name", "name_length", "text"), ("data", "data_length", "bytes")]),
    Spec("SystemVariable", "general", [72], "type:I representation:I reserved1:Q name_length:I data_length:I reserved2:Q",
         [("name", "name_length", "text"), ("data", "data_length", "bytes")], enums={"type": "SysVarType"}),
    Spec("RealTimeClock", "general", [51], "time:Q logging_offset:Q"),
    Spec("DriverOverrun", "general", [91], "bus_type:I channel:H reserved:H", enums={"bus_type": "BusType"}),
    Spec("EventComment", "general", [92], "commented_event_type:I text_length:I reserved:Q", [("text", "text_length", "text")]),
    Spec("GlobalMarker", "general", [96], "commented_event_type:I foreground_color:I background_color:I is_relocatable:B"
         " reserved1:B reserved2:H group_name_length:I marker_name_length:I description_length:I reserved3:I reserved4:Q",
         [("group_name", "group_name_length", "text"), ("marker_name", "marker_name_length", "text"),
          ("description", "description_length", "text")]),
    Spec("FunctionBus", "general", [124], "object_type:I ve_type:I name_length:I data_length:I",
         [("name", "name_length", "text"), ("data", "data_length", "bytes")], header=VHEADER,
         enums={"object_type": "FunctionBusType"}),
    Spec("TriggerCondition", "general", [128], "state:I trigger_block_name_length:I trigger_condition_length:I",
         [("trigger_block_name", "trigger_block_name_length", "text"), ("trigger_condition", "trigger_condition_length", "text")],
         header=VHEADER, enums={"state": "TriggerConditionStatus"}),
]}
BY_TYPE = {t: s for s in SPECS.values() for t in s.types}
TEXT_CODEC = {"text": "cp1252", "textz": "cp1252", "utf8": "utf-8"}
FILE_HEADER = [
    (0, "4s", "signature"), (4, "I", "statistics_size"), (8, "I", "api_number"), (12, "B", "application_id"),
    (13, "B", "compression_level"), (14, "B", "application_major"), (15, "B", "application_minor"),
    (16, "Q", "file_size"), (24, "Q", "uncompressed_file_size"), (32, "I", "object_count"), (36, "I", "application_build"),
] + [(b + 2 * i, "H", "%s.%s" % (t, n)) for b, t in ((40, "measurement_start_time"), (56, "last_object_time"))
     for i, n in enumerate("year month day_of_week day hour minute second milliseconds".split())] + [
    (72, "Q", "restore_points_offset"), (80, "64s", "reserved")]
FILE_HEADER_SIZE = 144


def put(buf, off, fmt, v):
    struct.pack_into("<" + fmt, buf, off, v)


def peek(buf, off, fmt):
    return struct.unpack_from("<" + fmt, buf, off)[0]


def encode(spec, values=None, parts=None, otype=None, ext=None, size=None):
    """Reference encoder. values: path -> value; parts: attribute -> bytes; ext: two extension words
    (CAN FD types), placed after the data; size: declared size (lin2: 164/168/184)."""
    values = dict(values or {})
    parts = parts or {}
    body = bytearray(spec.end)
    tail = b""
    if spec.special == "lin2":
        size = size or 184
        body = bytearray(max(size, 164))
    for attr, lf, _kind in spec.parts:
        raw = parts.get(attr, b"")
        if lf:
            values.setdefault(lf, len(raw))
        tail += raw
    if spec.special in ("fd64", "fde64") and ext is not None:
        values.setdefault("ext_data_offset", (spec.end + len(tail)) & 0xFF)
        tail += struct.pack("<II", *ext)
    values.setdefault("header.base.signature", b"LOBJ")
    values.setdefault("header.base.header_size", 32)
    values.setdefault("header.base.header_version", 1)
    values.setdefault("header.base.object_size", size or len(body) + len(tail))
    values.setdefault("header.base.object_type", otype if otype is not None else spec.types[0])
    values.setdefault("header.object_flags", 2)
    for off, fmt, path in spec.header + spec.fields:
        if path in values and off + width(fmt) <= len(body):
            put(body, off, fmt, values[path])
    return bytes(body) + tail


def decode(spec, raw):
    """Reference decoder: path -> value (parts as bytes)."""
    out = {}
    for off, fmt, path in spec.header + spec.fields:
        out[path] = peek(raw, off, fmt) if off + width(fmt) <= len(raw) else 0
    if spec.special == "lin2":
        size = out["header.base.object_size"]
        if size < 168:
            out["resp_baudrate"] = 0
        if size < 184:
            out["exact_header_baudrate"] = out["early_stopbit_offset"] = out["early_stopbit_offset_response"] = 0
        return out
    pos = spec.end
    size = out["header.base.object_size"]
    for attr, lf, kind in spec.parts:
        if kind == "fd64":
            e = out["ext_data_offset"] or size
            out[attr] = raw[pos:e]
            continue
        n = out[lf]
        out[attr] = raw[pos:pos + n]
        pos += n
    if spec.special in ("fd64", "fde64"):
        e = out["ext_data_offset"]
        out["btr_ext_arb"], out["btr_ext_data"] = (
            struct.unpack_from("<II", raw, e) if e and size >= e + 8 else (0, 0))
    return out


def attr(obj, path):
    if path.endswith("]"):
        path, _, i = path[:-1].rpartition("[")
        return reduce(getattr, path.split("."), obj)[int(i)]
    return reduce(getattr, path.split("."), obj)


def part_text(kind, raw):
    """What a user must see for a variable part with these bytes."""
    if kind == "textz":
        return (raw[:-1] if raw.endswith(b"\0") else raw).decode("cp1252")
    if kind in TEXT_CODEC:
        return raw.decode(TEXT_CODEC[kind])
    return raw


def expected(spec, raw):
    """path -> value as the user sees it."""
    out = decode(spec, raw)
    for a, _, kind in spec.parts:
        out[a] = part_text(kind, out[a])
    return out


def paths(spec):
    ps = [p for _, _, p in spec.header + spec.fields] + [p[0] for p in spec.parts]
    if spec.special in ("fd64", "fde64"):
        ps += ["btr_ext_arb", "btr_ext_data"]
    return ps
