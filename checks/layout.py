"""The BLF record layouts, written down independently of the code (Vector BLF object formats).

Fixed fields are (attribute, offset from the start of the record, width, kind):
kind "u" unsigned, "s" signed, "d" float64, "b" raw bytes, or an enumeration/flag class;
attribute paths use '.', and '[i]' for list elements."""
from vblf.can import (
    CanDriverError, CanDriverErrorExt, CanDriverHwSync, CanDriverStatistic, CanErrorFrame, CanErrorFrameExt,
    CanFdErrorFrame64, CanFdMessage, CanFdMessage64, CanMessage, CanMessage2, CanOverloadFrame,
)
from vblf.constants import (
    AppTextSource, BusType, CanFdFlags, FunctionBusType, ObjFlags, SysVarType, TriggerConditionStatus, TriggerFlag,
)
from vblf.ethernet import EthernetFrameEx, EthernetStatistic
from vblf.flexray import FlexrayVFrReceiveMsgEx
from vblf.general import (
    AppText, AppTrigger, DriverOverrun, EnvironmentVariable, EventComment, FunctionBus, GlobalMarker, LogContainer,
    RealTimeClock, SystemVariable, TriggerCondition,
)
from vblf.lin import LinMessage, LinMessage2
from vblf.tp_diag import DiagRequestInterpretation

FLAG_BITS = {"ObjFlags": 32, "TriggerFlag": 16, "CanFdFlags": 32}


def seqn(start, *fields):
    """Fields following each other from an offset."""
    out = []
    off = start
    for attr, w, *kind in fields:
        out.append((attr, off, w, kind[0] if kind else "u"))
        off += w
    return out


HEADER = [
    ("header.base.signature", 0, 4, "b"),
    ("header.base.header_size", 4, 2, "u"),
    ("header.base.header_version", 6, 2, "u"),
    ("header.base.object_size", 8, 4, "u"),
    ("header.base.object_type", 12, 4, "u"),
    ("header.object_flags", 16, 4, ObjFlags),
    ("header.client_index", 20, 2, "u"),
    ("header.object_version", 22, 2, "u"),
    ("header.object_time_stamp", 24, 8, "u"),
]
VAR_HEADER = [(("header.object_static_size" if a == "header.client_index" else a), o, w, k) for a, o, w, k in HEADER]


class Spec:
    """One object type.

    var: variable parts after the fixed fields: (attribute, length attribute or None, "bytes"/"cp1252"/"utf-8").
    tail: zero bytes may follow the content within the declared size (kept by the codec)."""

    def __init__(self, cls, types, fixed, size, var=(), tail=False, var_header=False, rule=None):
        self.cls = cls
        self.name = cls.__name__
        self.types = types
        self.fixed = fixed
        self.size = size
        self.var = var
        self.tail = tail
        self.header = VAR_HEADER if var_header else HEADER
        self.var_header = var_header
        self.rule = rule
        off = 32
        for _, o, w, _k in fixed:
            assert o >= off, (self.name, o)
            off = o + w
        assert off == size, (self.name, off, size)

    @property
    def lens(self):
        return {n: v for v, n, _ in self.var if n}

    def gaps(self):
        """Bytes of the fixed part that belong to no field: none in these layouts."""
        off = 32
        out = []
        for _, o, w, _k in self.fixed:
            if o > off:
                out.append((off, o))
            off = o + w
        return out


SPECS = [
    Spec(CanMessage, [1], seqn(32, ("channel", 2), ("flags", 1), ("dlc", 1), ("frame_id", 4), ("data", 8, "b")), 48),
    Spec(CanErrorFrame, [2], seqn(32, ("channel", 2), ("length", 2), ("reserved", 4)), 40),
    Spec(CanOverloadFrame, [3], seqn(32, ("channel", 2), ("reserved1", 2), ("reserved2", 4)), 40),
    Spec(CanDriverStatistic, [4], seqn(
        32, ("channel", 2), ("bus_load", 2), ("standard_data_frames", 4), ("extended_data_frames", 4),
        ("standard_remote_frames", 4), ("extended_remote_frames", 4), ("error_frames", 4), ("overload_frames", 4),
        ("reserved", 4)), 64),
    Spec(AppTrigger, [5], seqn(
        32, ("pre_trigger_time", 8), ("post_trigger_time", 8), ("channel", 2), ("flags", 2, TriggerFlag),
        ("app_specific", 4)), 56),
    Spec(EnvironmentVariable, [6, 7, 8, 9], seqn(
        32, ("name_length", 4), ("data_length", 4), ("reserved", 8)), 48,
        var=(("name", "name_length", "cp1252"), ("data", "data_length", "bytes")), tail=True),
    Spec(LogContainer, [10], [], 32, var=(("data", None, "bytes"),)),
    Spec(LinMessage, [11], seqn(
        32, ("channel", 2), ("id", 1), ("dlc", 1), ("data", 8, "b"), ("fsm_id", 1), ("fsm_state", 1), ("header_time", 1),
        ("full_time", 1), ("crc", 2), ("dir", 1), ("reserved", 5, "b")), 56),
    Spec(CanDriverError, [31], seqn(32, ("channel", 2), ("tx_errors", 1), ("rx_errors", 1), ("error_code", 4)), 40),
    Spec(CanDriverHwSync, [44], seqn(32, ("channel", 2), ("flags", 1), ("reserved1", 1), ("reserved2", 4)), 40),
    Spec(RealTimeClock, [51], seqn(32, ("time", 8), ("logging_offset", 8)), 48),
    Spec(LinMessage2, [57], seqn(
        32,
        ("lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.sof", 8),
        ("lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.event_baudrate", 4),
        ("lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.channel", 2),
        ("lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.reserved", 2, "b"),
        ("lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.synch_break_length", 8),
        ("lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.synch_del_length", 8),
        ("lin_timestamp_event.lin_msg_descr_event.supplier_id", 2),
        ("lin_timestamp_event.lin_msg_descr_event.message_id", 2),
        ("lin_timestamp_event.lin_msg_descr_event.nad", 1),
        ("lin_timestamp_event.lin_msg_descr_event.id", 1),
        ("lin_timestamp_event.lin_msg_descr_event.dlc", 1),
        ("lin_timestamp_event.lin_msg_descr_event.checksum_model", 1),
        *[(f"lin_timestamp_event.databyte_timestamps[{i}]", 8) for i in range(9)],
        ("data", 8, "b"), ("crc", 2), ("direction", 1), ("simulated", 1), ("is_etf", 1), ("etf_assoc_index", 1),
        ("etf_assoc_etf_id", 1), ("fsm_id", 1), ("fsm_state", 1), ("reserved", 3, "b")), 164, tail=True, rule="lin2"),
    Spec(AppText, [65], seqn(
        32, ("source", 4, AppTextSource), ("reserved1", 4), ("text_length", 4), ("reserved2", 4)), 48,
        var=(("text", "text_length", "cp1252"),), tail=True, rule="apptext"),
    Spec(FlexrayVFrReceiveMsgEx, [66], seqn(
        32, ("channel", 2), ("version", 2), ("channel_mask", 2), ("dir_flags", 2), ("client_index", 4), ("cluster_no", 4),
        ("frame_id", 2), ("header_crc1", 2), ("header_crc2", 2), ("byte_count", 2), ("data_count", 2), ("cycle", 2),
        ("tag", 4), ("data", 4), ("frame_flags", 4), ("app_parameter", 4), ("frame_crc", 4), ("frame_length_ns", 4),
        ("frame_id1", 2), ("pdu_offset", 2), ("blf_log_mask", 2), ("reserved", 26, "b")), 116,
        var=(("data_bytes", "data_count", "bytes"),), tail=True),
    Spec(SystemVariable, [72], seqn(
        32, ("type", 4, SysVarType), ("representation", 4), ("reserved1", 8), ("name_length", 4), ("data_length", 4),
        ("reserved2", 8)), 64,
        var=(("name", "name_length", "cp1252"), ("data", "data_length", "bytes")), tail=True),
    Spec(CanErrorFrameExt, [73], seqn(
        32, ("channel", 2), ("length", 2), ("flags", 4), ("ecc", 1), ("position", 1), ("dlc", 1), ("reserved1", 1),
        ("frame_length_in_ns", 4), ("frame_id", 4), ("flags_ext", 2), ("reserved2", 2), ("data", 8, "b")), 64),
    Spec(CanDriverErrorExt, [74], seqn(
        32, ("channel", 2), ("tx_errors", 1), ("rx_errors", 1), ("error_code", 4), ("flags", 4), ("state", 1),
        ("reserved1", 1), ("reserved2", 2), *[(f"reserved3[{i}]", 4) for i in range(4)]), 64),
    Spec(CanMessage2, [86], seqn(
        32, ("channel", 2), ("flags", 1), ("dlc", 1), ("frame_id", 4), ("data", 8, "b"), ("frame_length", 4),
        ("bit_count", 1), ("reserved1", 1), ("reserved2", 2)), 56),
    Spec(DriverOverrun, [91], seqn(32, ("bus_type", 4, BusType), ("channel", 2), ("reserved", 2)), 40),
    Spec(EventComment, [92], seqn(
        32, ("commented_event_type", 4), ("text_length", 4), ("reserved", 8)), 48,
        var=(("text", "text_length", "cp1252"),), tail=True),
    Spec(GlobalMarker, [96], seqn(
        32, ("commented_event_type", 4), ("foreground_color", 4), ("background_color", 4), ("is_relocatable", 1),
        ("reserved1", 1), ("reserved2", 2), ("group_name_length", 4), ("marker_name_length", 4),
        ("description_length", 4), ("reserved3", 4), ("reserved4", 8)), 72,
        var=(("group_name", "group_name_length", "cp1252"), ("marker_name", "marker_name_length", "cp1252"),
             ("description", "description_length", "cp1252"))),
    Spec(CanFdMessage, [100], seqn(
        32, ("channel", 2), ("flags", 1), ("dlc", 1), ("frame_id", 4), ("frame_length", 4), ("arb_bit_count", 1),
        ("canfd_flags", 1, CanFdFlags), ("valid_data_bytes", 1), ("reserved1", 1), ("reserved2", 4), ("data", 64, "b"),
        ("reserved3", 4)), 120),
    Spec(CanFdMessage64, [101], seqn(
        32, ("channel", 1), ("dlc", 1), ("valid_data_bytes", 1), ("tx_count", 1), ("frame_id", 4), ("frame_length", 4),
        ("flags", 4, CanFdFlags), ("btr_cfg_arb", 4), ("btr_cfg_data", 4), ("time_offset_brs_ns", 4),
        ("time_offset_crc_del_ns", 4), ("bit_count", 2), ("dir", 1), ("ext_data_offset", 1), ("crc", 4)), 72,
        var=(("data", None, "bytes"),), rule="fd64"),
    Spec(CanFdErrorFrame64, [104], seqn(
        32, ("channel", 1), ("dlc", 1), ("valid_data_bytes", 1), ("ecc", 1), ("flags", 2), ("error_code_ext", 2),
        ("ext_flags", 2), ("ext_data_offset", 1), ("reserved1", 1), ("frame_id", 4), ("frame_length", 4),
        ("btr_cfg_arb", 4), ("btr_cfg_data", 4), ("time_offset_brs_ns", 4), ("time_offset_crc_del_ns", 4), ("crc", 4),
        ("error_position", 2), ("reserved2", 2)), 76,
        var=(("data", "valid_data_bytes", "bytes"),), tail=True, rule="fderr64"),
    Spec(EthernetStatistic, [114], seqn(
        32, ("channel", 2), ("reserved_1", 2), ("reserved_2", 4), ("rcv_ok_hw", 8), ("xmit_ok_hw", 8),
        ("rcv_error_hw", 8), ("xmit_error_hw", 8), ("rcv_bytes_hw", 8), ("xmit_bytes_hw", 8), ("rcv_no_buffer_hw", 8),
        ("sqi", 2, "s"), ("hardware_channel", 2), ("reserved_3", 4)), 104, tail=True),
    Spec(DiagRequestInterpretation, [119], seqn(
        32, ("diag_description_handle", 4), ("diag_variant_handle", 4), ("diag_service_handle", 4),
        ("ecu_qualifier_length", 4), ("variant_qualifier_length", 4), ("service_qualifier_length", 4)), 56,
        var=(("ecu_qualifier", "ecu_qualifier_length", "utf-8"),
             ("variant_qualifier", "variant_qualifier_length", "utf-8"),
             ("service_qualifier", "service_qualifier_length", "utf-8")), tail=True),
    Spec(EthernetFrameEx, [120], seqn(
        32, ("struct_length", 2), ("flags", 2), ("channel", 2), ("hardware_channel", 2), ("frame_duration", 8),
        ("frame_checksum", 4), ("dir", 2), ("frame_length", 2), ("frame_handle", 4), ("reserved", 4)), 64,
        var=(("frame_data", "frame_length", "bytes"),), tail=True),
    Spec(FunctionBus, [124], seqn(
        32, ("object_type", 4, FunctionBusType), ("ve_type", 4), ("name_length", 4), ("data_length", 4)), 48,
        var=(("name", "name_length", "cp1252"), ("data", "data_length", "bytes")), var_header=True),
    Spec(TriggerCondition, [128], seqn(
        32, ("state", 4, TriggerConditionStatus), ("trigger_block_name_length", 4), ("trigger_condition_length", 4)), 44,
        var=(("trigger_block_name", "trigger_block_name_length", "cp1252"),
             ("trigger_condition", "trigger_condition_length", "cp1252")), var_header=True),
]
BY_NAME = {s.name: s for s in SPECS}
TYPES = [n for n in BY_NAME if n != "LogContainer"]  # what a log consists of
SUPPORTED = sorted(t for s in SPECS for t in s.types)
assert len(SUPPORTED) == len(set(SUPPORTED))


def get(obj, path):
    """Attribute by path."""
    for part in path.split("."):
        if part.endswith("]"):
            part, i = part[:-1].split("[")
            obj = getattr(obj, part)[int(i)]
        else:
            obj = getattr(obj, part)
    return obj
