"""Headers, sub-records, times, constructors, type dispatch, the file header (C14-C17, C22)."""
import datetime

from checks.api import harness
from checks.c_codec import put
from checks.c_log import is_time, raw_bytes
from checks.layout import BY_NAME, HEADER, SPECS, SUPPORTED, VAR_HEADER, get, seqn
from checks.lib import MAXLEN, check_fields, encode_value, field_value, oracle_field, record
from vblf.can import CanFdMessage, CanMessage, CanMessage2
from vblf.constants import CanFdFlags, AppId, Compression, ObjFlags, ObjType
from vblf.general import (
    FileStatistics, LogContainer, NotImplementedObject, ObjectHeader, ObjectHeaderBase, SystemTime, VarObjectHeader,
)
from vblf.lin import LinBusEvent, LinDatabyteTimestampEvent, LinMessageDescriptor, LinSynchFieldEvent
from vblf.reader import BlfReader
from vblf.writer import BlfWriter


def strip(fields, prefix):
    return [(a[len(prefix):], o, w, k) for a, o, w, k in fields]


TIME = seqn(0, ("year", 2), ("month", 2), ("day_of_week", 2), ("day", 2), ("hour", 2), ("minute", 2), ("second", 2),
            ("milliseconds", 2))
BUS = seqn(0, ("sof", 8), ("event_baudrate", 4), ("channel", 2), ("reserved", 2, "b"))
SYNCH = [("lin_bus_event." + a, o, w, k) for a, o, w, k in BUS] + seqn(16, ("synch_break_length", 8), ("synch_del_length", 8))
DESCR = [("lin_synch_field_event." + a, o, w, k) for a, o, w, k in SYNCH] + seqn(
    32, ("supplier_id", 2), ("message_id", 2), ("nad", 1), ("id", 1), ("dlc", 1), ("checksum_model", 1))
STAMPS = [("lin_msg_descr_event." + a, o, w, k) for a, o, w, k in DESCR] + [
    (f"databyte_timestamps[{i}]", 40 + 8 * i, 8, "u") for i in range(9)]


def make_bus(v, p=""):
    return LinBusEvent(sof=v[p + "sof"], event_baudrate=v[p + "event_baudrate"], channel=v[p + "channel"], reserved=v[p + "reserved"])


def make_synch(v, p=""):
    return LinSynchFieldEvent(lin_bus_event=make_bus(v, p + "lin_bus_event."), synch_break_length=v[p + "synch_break_length"],
                              synch_del_length=v[p + "synch_del_length"])


def make_descr(v, p=""):
    return LinMessageDescriptor(lin_synch_field_event=make_synch(v, p + "lin_synch_field_event."), supplier_id=v[p + "supplier_id"],
                                message_id=v[p + "message_id"], nad=v[p + "nad"], id=v[p + "id"], dlc=v[p + "dlc"],
                                checksum_model=v[p + "checksum_model"])


def make_stamps(v):
    return LinDatabyteTimestampEvent(lin_msg_descr_event=make_descr(v, "lin_msg_descr_event."),
                                     databyte_timestamps=tuple([v[f"databyte_timestamps[{i}]"] for i in range(9)]))


def make_base(v, p=""):
    return ObjectHeaderBase(signature=v[p + "signature"], header_size=v[p + "header_size"], header_version=v[p + "header_version"],
                            object_size=v[p + "object_size"], object_type=v[p + "object_type"])


def make_header(v):
    return ObjectHeader(base=make_base(v, "base."), object_flags=v["object_flags"], client_index=v["client_index"],
                        object_version=v["object_version"], object_time_stamp=v["object_time_stamp"])


def make_var(v):
    return VarObjectHeader(base=make_base(v, "base."), object_flags=v["object_flags"], object_static_size=v["object_static_size"],
                           object_version=v["object_version"], object_time_stamp=v["object_time_stamp"])


CODECS = {
    "SystemTime": (SystemTime, TIME, 16, lambda v: SystemTime(**v)),
    "ObjectHeaderBase": (ObjectHeaderBase, strip(HEADER[:5], "header.base."), 16, make_base),
    "ObjectHeader": (ObjectHeader, strip(HEADER, "header."), 32, make_header),
    "VarObjectHeader": (VarObjectHeader, strip(VAR_HEADER, "header."), 32, make_var),
    "LinBusEvent": (LinBusEvent, BUS, 16, make_bus),
    "LinSynchFieldEvent": (LinSynchFieldEvent, SYNCH, 32, make_synch),
    "LinMessageDescriptor": (LinMessageDescriptor, DESCR, 40, make_descr),
    "LinDatabyteTimestampEvent": (LinDatabyteTimestampEvent, STAMPS, 112, make_stamps),
}
EACH = [{"codec": n} for n in CODECS]
PLACE = "any offset and any rest of the buffer up to 2**24 bytes, any content, bytes and bytearrays"


def known_type(c, rec, off, name):
    """The decoded object type: the number itself when the enumeration knows it, else UNKNOWN (0)."""
    v = c.le_int(rec, off, 4)
    return c.ite(c.any([v == int(m) for m in ObjType]), v, 0)


def check_record(c, codec, fields, rec, obj, msg):
    for attr, off, w, kind in fields:
        if attr.endswith("object_type"):
            want = known_type(c, rec, off, attr)
        else:
            want = oracle_field(c, rec, off, w, kind)
        c.check(c.eq(get(obj, attr), want), f"{codec}.{attr} {msg}")


@harness("C15", quick=EACH, bounds=PLACE, covers=("bytes", "bytearray"))
def decode_at(c, codec):
    """Decoding at an offset is decoding the bytes there."""
    cls, fields, size, make = CODECS[codec]
    a, b = c.length("before", 0, MAXLEN), c.length("after", 0, MAXLEN)
    rec = c.bytes("rec", size)
    buf = c.concat(c.bytes("head", a), rec, c.bytes("tail", b))
    form = c.choice("form", ["bytes", "bytearray"])
    given = bytearray(buf) if form == "bytearray" else buf
    obj = cls.unpack_from(given, a)
    check_record(c, codec, fields, rec, obj, "is read at the offset")
    c.check(type(obj) is cls, "the codec's class")
    c.check(c.eq(bytes(given), buf), "the buffer is unchanged")
    c.check(c.eq(cls.unpack_from(rec), obj), "same as on the isolated bytes")
    c.check(c.eq(cls.unpack_from(rec, 0), obj), "same as at offset 0")
    if codec in ("SystemTime", "ObjectHeaderBase", "ObjectHeader", "VarObjectHeader"):
        c.check(c.eq(cls.unpack(rec), obj), "same as decoding the bytes")
    c.cover(form)


def values(c, fields):
    out = {}
    for attr, off, w, kind in fields:
        if attr.endswith("object_type"):
            out[attr] = c.enum(attr, ObjType)
        elif attr.endswith("signature"):
            out[attr] = c.bytes(attr, 4)
        else:
            out[attr] = field_value(c, attr, w, kind)
    return out


@harness("C15", quick=EACH, bounds=PLACE, covers=("encoded",))
def encode_at(c, codec):
    """Encoding at an offset writes the encoding there and nothing else."""
    cls, fields, size, make = CODECS[codec]
    vals = values(c, fields)
    obj = make(vals)
    want = c.concat(*[encode_value(c, vals[a], w, k) for a, o, w, k in fields])
    if hasattr(cls, "pack"):
        c.check(c.eq(obj.pack(), want), "the encoding")
    a, b = c.length("before", 0, MAXLEN), c.length("after", 0, MAXLEN)
    head, tail = c.bytes("head", a), c.bytes("tail", b)
    buf = bytearray(c.concat(head, c.bytes("old", size), tail))
    obj.pack_into(buf, a)
    c.check(c.eq(len(buf), a + size + b), "the buffer keeps its length")
    c.check(c.eq(bytes(buf), c.concat(head, want, tail)), "exactly the encoding at the offset")
    c.check(c.eq(obj, make(vals)), "encoding leaves the record unchanged")
    c.check(c.eq(cls.unpack_from(bytes(buf), a), obj), "decoding gives the record back")
    c.cover("encoded")


@harness("C15", quick=EACH, bounds=PLACE, covers=("short",))
def short_at(c, codec):
    """Data too short for the record is refused."""
    cls, fields, size, make = CODECS[codec]
    a = c.length("before", 0, MAXLEN)
    n = c.length("n", 0, MAXLEN)
    c.assume(n < a + size)
    buf = c.bytes("buf", n)
    _, exc = c.attempt(cls.unpack_from, buf, a)
    c.check(exc is not None, "decoding beyond the end is refused")
    if hasattr(cls, "unpack"):
        m = c.length("m", 0, size - 1)
        _, exc = c.attempt(cls.unpack, c.bytes("short", m))
        c.check(exc is not None, "decoding too few bytes is refused")
    vals = values(c, fields)
    _, exc = c.attempt(make(vals).pack_into, bytearray(buf), a)
    c.check(exc is not None, "encoding beyond the end is refused")
    c.cover("short")


@harness("C15", "C22", quick=[{"spec": s.name} for s in SPECS] + [{"spec": "FileStatistics"}, {"spec": "raw"}],
         bounds="every length below the fixed part, any content", covers=("short",))
def short_object(c, spec):
    """An object type's decoder refuses data that ends within its fixed fields."""
    if spec == "FileStatistics":
        n = c.length("n", 0, 143)
        _, exc = c.attempt(FileStatistics.unpack, c.bytes("short", n))
    elif spec == "raw":
        n = c.length("n", 0, 15)
        _, exc = c.attempt(NotImplementedObject.unpack, c.bytes("short", n))
    else:
        s = BY_NAME[spec]
        rec, _ = record(c, s, maxlen=0)
        n = c.length("n", 0, s.size - 1)
        _, exc = c.attempt(s.cls.unpack, c.sub(rec, 0, n))
    c.check(exc is not None, "data that ends within the fixed fields is refused")
    c.cover("short")


# --------------------------------------------------------------------------- C16


def fields_of(st):
    return [st.year, st.month, st.day, st.hour, st.minute, st.second]


def rounded(c, ms, us):
    near = c.all(ms * 1000 - us <= 500, us - ms * 1000 <= 500)
    return c.any(c.all(us < 999500, near), c.all(us >= 999500, ms == 999))


@harness("C16", quick=[{"zone": z} for z in ("naive", "utc", "offset")], bounds="every datetime of the years 1-9999", covers=("converted",))
def from_datetime(c, zone):
    """A datetime as a system time."""
    tz = {"naive": None, "utc": datetime.timezone.utc, "offset": datetime.timezone(datetime.timedelta(hours=-7, minutes=-30))}[zone]
    d = c.datetime("d", tz)
    st = SystemTime.from_datetime(d)
    for a, b, n in zip(fields_of(st), (d.year, d.month, d.day, d.hour, d.minute, d.second),
                       ("year", "month", "day", "hour", "minute", "second")):
        c.check(c.eq(a, b), f"the {n} of the datetime")
    c.check(c.eq(st.day_of_week, (d.weekday() + 1) % 7), "Sunday is day 0")
    c.check(c.all(0 <= st.milliseconds, st.milliseconds <= 999), "milliseconds within the second")
    c.check(rounded(c, st.milliseconds, d.microsecond), "microseconds rounded to the nearest millisecond")
    back = st.to_datetime()
    c.check(c.eq(back.microsecond, st.milliseconds * 1000), "back within half a millisecond")
    c.check(c.all(c.eq(back.year, d.year), c.eq(back.month, d.month), c.eq(back.day, d.day), c.eq(back.hour, d.hour),
                  c.eq(back.minute, d.minute), c.eq(back.second, d.second)), "back to the same second")
    c.check(c.eq(SystemTime.unpack(st.pack()), st), "a converted time can be stored")
    for n in ("year", "month", "day", "milliseconds"):
        c.observe(n, getattr(st, n))
    c.cover("converted")


@harness("C16", quick=[{"how": h} for h in ("zone", "fold", "again")], bounds="every datetime of the years 1-9999 (zones: 2-9998), at UTC and UTC+5:30",
         covers=("converted",))
def same_instant(c, how):
    """Equal datetimes that read differently, or one converted twice."""
    d = c.datetime("d", datetime.timezone.utc if how == "zone" else None)
    if how == "zone":
        c.assume(c.all(2 <= d.year, d.year <= 9998))
        off = datetime.timedelta(hours=5, minutes=30)
        e = (d + off).replace(tzinfo=datetime.timezone(off))
    else:
        e = d.replace(fold=1) if how == "fold" else d
    a, b = SystemTime.from_datetime(d), SystemTime.from_datetime(e)
    for st, x in ((a, d), (b, e)):
        for got, want, n in zip(fields_of(st), (x.year, x.month, x.day, x.hour, x.minute, x.second), ("year", "month", "day", "hour", "minute", "second")):
            c.check(c.eq(got, want), f"the {n} of its own datetime")
    c.check(c.eq(a.milliseconds, b.milliseconds), "the same milliseconds")
    a.year, a.hour, a.milliseconds = 1, 2, 3
    c.check(c.eq(b.year, e.year) and c.eq(SystemTime.from_datetime(e), b), "a changed system time changes no other")
    c.cover("converted")


@harness("C16", quick=({},), bounds="every valid system time, milliseconds 0-65535", covers=("converted",))
def to_datetime(c):
    """A system time as a datetime and back."""
    d = c.datetime("d")
    ms = c.u16("ms")
    dow = c.u16("dow")
    st = SystemTime(d.year, d.month, dow, d.day, d.hour, d.minute, d.second, ms)
    got = st.to_datetime()
    for n in ("year", "month", "day", "hour", "minute", "second"):
        c.check(c.eq(getattr(got, n), getattr(d, n)), f"the {n} of the system time")
    c.check(got.tzinfo is None, "system times carry no zone")
    us = got.microsecond
    c.check(c.any(c.all(ms <= 999, us == ms * 1000), c.all(ms > 999, us == 999999)), "milliseconds as microseconds, capped")
    c.check(c.eq(st, SystemTime(d.year, d.month, dow, d.day, d.hour, d.minute, d.second, ms)), "the system time is unchanged")
    again = SystemTime.from_datetime(got)
    for n in ("year", "month", "day", "hour", "minute", "second"):
        c.check(c.eq(getattr(again, n), getattr(st, n)), f"the {n} survives")
    c.check(c.implies(ms <= 999, c.eq(again.milliseconds, ms)), "milliseconds survive")
    c.check(c.eq(again.day_of_week, (got.weekday() + 1) % 7), "the day of week is computed")
    c.observe("us", us)
    c.cover("converted")


@harness("C16", quick=({},), bounds="any clock reading 1970-2100 in steps of 2**-20 s", covers=("now",))
def now(c):
    """Without a datetime the current UTC time is taken."""
    c.clock("free")
    st = SystemTime.from_datetime()
    c.check(c.any([is_time(c, st, n) for n in c.clock_readings()]), "the current time in UTC")
    st2 = SystemTime.from_datetime(None)
    c.check(c.any([is_time(c, st2, n) for n in c.clock_readings()]), "the current time in UTC")
    c.cover("now")


# --------------------------------------------------------------------------- C17


def standard(c, header, size, otype, flags, stamp, version=0):
    b = header.base
    c.check(c.eq(b.signature, b"LOBJ"), "object signature")
    c.check(c.eq(b.header_size, 32), "header size")
    c.check(c.eq(b.header_version, 1), "header version")
    c.check(c.eq(b.object_size, size), "true size")
    c.check(c.eq(b.object_type, otype), "own type")
    c.check(c.eq(header.object_flags, flags), "given flags")
    c.check(c.eq(header.object_time_stamp, stamp), "given time stamp")
    c.check(c.eq(header.object_version, version), "object version")


def through_log(c, obj):
    """What a reader returns for the object after it was written."""
    f = c.memfile()
    w = BlfWriter(f, 0, c.length("bufsize", 4096, 1 << 17))
    w.write(obj)
    w.close()
    r = BlfReader(c.memfile(c.content(f)))
    got = r.read_object()
    c.check(got is not None, "the object is found")
    c.check(r.read_object() is None, "nothing else is found")
    c.check(type(got) is type(obj), "the object keeps its type")
    return got


CAN_ARGS = {
    "CanMessage": (CanMessage, 1, 8, ("channel", "flags", "dlc", "frame_id", "data"), {}),
    "CanMessage2": (CanMessage2, 86, 8, ("channel", "flags", "dlc", "frame_id", "data", "frame_length", "bit_count"), {}),
    "CanFdMessage": (CanFdMessage, 100, 64, ("channel", "flags", "dlc", "frame_id", "frame_length", "arb_bit_count", "canfd_flags",
                                             "data"), {}),
}


def next_of(name):
    names = list(CAN_ARGS)
    return names[(names.index(name) + 1) % len(names)]


@harness("C17", quick=[{"name": n, "how": h} for n in CAN_ARGS for h in ("positional", "keyword")],
         bounds="all in-range arguments, payloads of every length up to the field's", covers=("made",))
def new_frame(c, name, how):
    """CAN frames made by their constructor."""
    cls, otype, width, params, _ = CAN_ARGS[name]
    spec = BY_NAME[name]
    kinds = {a: (w, k) for a, o, w, k in spec.fixed}
    flags = c.flags("object_flags", ObjFlags, 32)
    stamp = c.u64("object_time_stamp")
    n = c.length("n", 0, width)
    vals = {}
    for p in params:
        vals[p] = c.bytes("data", n) if p == "data" else field_value(c, p, *kinds[p])
    if how == "keyword":
        obj = cls.new(object_flags=flags, object_time_stamp=stamp, **vals)
    else:
        obj = cls.new(flags, stamp, *[vals[p] for p in params])
    c.check(type(obj) is cls, "the type's class")
    standard(c, obj.header, spec.size, otype, flags, stamp)
    first = obj.pack()
    c.check(c.eq(len(first), spec.size), "declares its encoded size")
    for i, other in enumerate((name, next_of(name))):
        ocls, _type, _width, names, _ = CAN_ARGS[other]
        ocls.new(ObjFlags(0), c.u64(f"stamp{i}"), **{p: b"abc" if p == "data" else CanFdFlags(1) if p == "canfd_flags" else 3 for p in names})
    c.check(c.eq(obj.pack(), first), "making other frames does not change it")
    got = through_log(c, obj)
    standard(c, got.header, spec.size, otype, flags, stamp)
    c.check(c.eq(got.header, obj.header), "the header is kept")
    for p in params:
        if p == "data":
            c.check(c.eq(got.data, c.concat(vals[p], c.zeros(width - n))), "the payload, padded with zeros")
        else:
            c.check(c.eq(getattr(got, p), vals[p]), f"{p} is kept")
            c.check(c.eq(getattr(obj, p), vals[p]), f"{p} is taken over")
    if name == "CanFdMessage":
        c.check(c.eq(got.valid_data_bytes, n), "the length of the payload")
    for a, _o, _w, _k in spec.fixed:
        if a.startswith("reserved"):
            c.check(c.eq(getattr(got, a), 0), f"{a} is zero")
    c.cover("made")


@harness("C17", quick=[{"how": h} for h in ("all", "default", "bytearray")], bounds="all in-range arguments, any data up to 2**24 bytes",
         covers=("made",))
def new_container(c, how):
    """Log containers made by their constructor."""
    data = c.bytes("data", c.length("n", 0, MAXLEN))
    stamp = c.u64("stamp")
    if how == "all":
        flags, client = c.flags("flags", ObjFlags, 32), c.u16("client")
        obj = LogContainer.new(data, stamp, flags, client)
    elif how == "bytearray":
        flags, client = 1, c.u16("client")
        obj = LogContainer.new(bytearray(data), stamp, client_index=client, flags=ObjFlags(1))
    else:
        flags, client = 2, 0
        obj = LogContainer.new(data=data, time_stamp=stamp)
    standard(c, obj.header, 32 + len(data), 10, flags, stamp)
    c.check(c.eq(obj.header.client_index, client), "client index")
    want = c.concat(b"LOBJ", c.le_bytes(32, 2), c.le_bytes(1, 2), c.le_bytes(32 + len(data), 4), c.le_bytes(10, 4), c.le_bytes(flags, 4),
                    c.le_bytes(client, 2), c.le_bytes(0, 2), c.le_bytes(stamp, 8), data)
    c.check(c.eq(obj.pack(), want), "the encoding")
    other = LogContainer.new(c.bytes("data2", c.length("n2", 0, MAXLEN)), c.u64("stamp2"), c.flags("flags2", ObjFlags, 32), c.u16("client2"))
    c.check(c.eq(other.header.base.object_size, 32 + len(other.data)), "a second container declares its own size")
    c.check(c.eq(obj.pack(), want), "the encoding, after another container was made")
    back = LogContainer.unpack(obj.pack())
    c.check(c.eq(back, obj), "decodes to the same container")
    c.check(c.eq(back.data, data), "the data is kept")
    c.cover("made")


@harness("C17", quick=({},), bounds="all in-range arguments", covers=("made",))
def new_header(c):
    """Headers made by their constructor."""
    size, otype = c.u32("size"), c.enum("type", ObjType)
    flags, version, stamp = c.flags("flags", ObjFlags, 32), c.u16("version"), c.u64("stamp")
    h = ObjectHeader.new(size, otype, flags, version, stamp)
    standard(c, h, size, otype, flags, stamp, version)
    c.check(c.eq(h.client_index, 0), "client index")
    want = c.concat(b"LOBJ", c.le_bytes(32, 2), c.le_bytes(1, 2), c.le_bytes(size, 4), c.le_bytes(otype, 4), c.le_bytes(flags, 4),
                    c.le_bytes(0, 2), c.le_bytes(version, 2), c.le_bytes(stamp, 8))
    c.check(c.eq(h.pack(), want), "the encoding")
    other = ObjectHeader.new(c.u32("size2"), c.enum("type2", ObjType), c.flags("flags2", ObjFlags, 32), c.u16("version2"), c.u64("stamp2"))
    c.check(c.eq(h.pack(), want), "the encoding, after another header was made")
    c.check(c.eq(other.client_index, 0), "client index of the second")
    c.check(c.eq(ObjectHeader.unpack(h.pack()), h), "decodes to the same header")
    c.cover("made")


@harness("C17", "C22", quick=({},), bounds="any clock readings 1970-2100", covers=("made",))
def new_statistics(c):
    """The file header of a new log."""
    c.clock("free")
    st = FileStatistics.new()
    data = st.pack()
    c.check(c.eq(len(data), 144), "144 bytes")
    c.check(c.eq(c.sub(data, 0, 4), b"LOGG"), "file signature")
    c.check(c.eq(c.le_int(data, 4, 4), 144), "declares its size")
    c.check(c.eq(FileStatistics.unpack(data), st), "decodes to the same header")
    c.check(c.eq(st.object_count, 0), "no objects")
    c.check(c.all(c.eq(st.file_size, 144), c.eq(st.uncompressed_file_size, 144)), "sizes of an empty log")
    rs = c.clock_readings()
    c.check(c.any([is_time(c, st.measurement_start_time, n) for n in rs]), "measurement start")
    c.check(c.any([is_time(c, st.last_object_time, n) for n in rs]), "last object")
    c.cover("made")


# --------------------------------------------------------------------------- C14


def file_header(c, level, name="fh"):
    """Any valid file header."""
    return c.concat(b"LOGG", c.bytes(name + "0", 9), c.le_bytes(level, 1), c.bytes(name + "1", 130))


def wrapped(c, stream):
    """An uncompressed container."""
    return c.concat(b"LOBJ", c.le_bytes(32, 2), c.bytes("ch0", 2), c.le_bytes(32 + len(stream), 4), c.le_bytes(10, 4), c.bytes("ch1", 16),
                    stream)


TYPES = [{"spec": s.name, "t": t} for s in SPECS if s.name != "LogContainer" for t in s.types]


@harness("C14", quick=[dict(d, place=p) for i, d in enumerate(TYPES) for p in (("file",) if i % 2 else ("container",))],
         thorough=[dict(d, place=p) for d in TYPES for p in ("file", "container")],
         bounds="any well-formed record of the type (variable parts any length up to 2**24), any file header", covers=("delivered",))
def delivered(c, spec, t, place):
    """A supported type is delivered as its class."""
    s = BY_NAME[spec]
    rec, vals = record(c, s, otype=t)
    r = BlfReader(c.memfile(c.concat(file_header(c, 0), rec if place == "file" else wrapped(c, rec))))
    obj = r.read_object()
    c.check(type(obj) is s.cls, "the type's class")
    check_fields(c, s, rec, obj, vals)
    c.check(c.eq(obj.header.base.object_type, t), "the type number")
    c.check(c.eq(obj.pack(), rec), "encodes to the same bytes")
    c.check(r.read_object() is None, "nothing else")
    c.cover("delivered")


@harness("C14", quick=[{"place": p, "next_": n} for p in ("file", "container") for n in ("CanMessage", "opaque")],
         bounds="all 2**32 type numbers that have no class, sizes 16..2**24, any content", covers=("opaque", "copied"))
def opaque(c, place, next_):
    """Any other type is delivered verbatim."""
    t = c.u32("type")
    c.assume(c.all([c.neg(t == x) for x in SUPPORTED]))
    size = c.length("size", 16, MAXLEN)
    rec = raw_bytes(c, "o", size, t)
    if next_ == "CanMessage":
        rec2, _ = record(c, BY_NAME["CanMessage"], "n.")
    else:
        rec2 = raw_bytes(c, "n", c.length("size2", 16, MAXLEN), 0xFFFFFFFF)
    pad = c.zeros(c.length("pad", 0, 7))
    body = c.concat(rec, pad, rec2)
    r = BlfReader(c.memfile(c.concat(file_header(c, 0), body if place == "file" else wrapped(c, body))))
    obj = r.read_object()
    c.check(type(obj) is NotImplementedObject, "an opaque object")
    c.check(c.eq(obj.buffer, rec), "carries its bytes")
    c.check(c.eq(obj.pack(), rec), "encodes to its bytes")
    c.check(c.eq(obj.header.base.object_type, known_type(c, rec, 12, "t")), "known numbers are named, others UNKNOWN")
    c.check(c.eq(obj.header.base.object_size, size), "its size")
    obj2 = r.read_object()
    c.check(obj2 is not None, "the next object is found")
    c.check(c.eq(obj2.pack(), rec2), "the next object is unchanged")
    c.check(r.read_object() is None, "nothing else")
    c.cover("opaque")
    # copying object by object
    f = c.memfile()
    w = BlfWriter(f, 0, c.length("bufsize", 4 * MAXLEN, 8 * MAXLEN))
    w.write(obj)
    w.write(obj2)
    w.close()
    r2 = BlfReader(c.memfile(c.content(f)))
    c.check(c.eq(r2.read_object(), obj), "the copy is the same")
    c.check(c.eq(r2.read_object(), obj2), "the copy of the next is the same")
    c.check(r2.read_object() is None, "nothing else in the copy")
    c.cover("copied")


@harness("C14", quick=({},), bounds="all numbers from -2**72 to 2**72", covers=("named", "unnamed"))
def numbers(c):
    """Unknown type numbers, application ids and compression levels never raise."""
    v = c.int("v", -(1 << 72), 1 << 72)
    which = c.choice("which", [ObjType, AppId, Compression])
    got = which.from_int(v)
    if c.choice("known", [True, False]):
        c.assume(c.any([v == int(m) for m in which]))
        c.check(c.eq(got, v), "a known number keeps its value")
        c.check(c.is_a(got, which), "a known number is a member")
        c.cover("named")
    else:
        c.assume(c.all([c.neg(v == int(m)) for m in which]))
        c.check(c.eq(got, v if which is Compression else 0), "an unknown number")
        c.cover("unnamed")


# --------------------------------------------------------------------------- C22

STATS = [("signature", 0, 4, "b"), ("statistics_size", 4, 4, "u"), ("api_number", 8, 4, "u"), ("application_id", 12, 1, AppId),
         ("compression_level", 13, 1, "u"), ("application_major", 14, 1, "u"), ("application_minor", 15, 1, "u"),
         ("file_size", 16, 8, "u"), ("uncompressed_file_size", 24, 8, "u"), ("object_count", 32, 4, "u"), ("application_build", 36, 4, "u"),
         *[("measurement_start_time." + a, 40 + o, w, k) for a, o, w, k in TIME],
         *[("last_object_time." + a, 56 + o, w, k) for a, o, w, k in TIME],
         ("restore_points_offset", 72, 8, "u"), ("reserved", 80, 64, "b")]


def header_bytes(c, signature=b"LOGG"):
    """Any file header with a known application id."""
    return c.concat(signature, c.bytes("h0", 8), c.le_bytes(c.enum("app", AppId), 1), c.bytes("h1", 131))


def make_stats(vals):
    kw = {a: v for a, v in vals.items() if "." not in a}
    for p in ("measurement_start_time", "last_object_time"):
        kw[p] = SystemTime(**{a: vals[f"{p}.{a}"] for a, _o, _w, _k in TIME})
    return FileStatistics(**kw)


@harness("C22", quick=({},), bounds="all 144-byte headers with a known application id", covers=("same",))
def header_codec(c):
    """A file header decodes to the values at its places and encodes back."""
    rec = header_bytes(c, c.bytes("sig", 4))
    st = FileStatistics.unpack(rec)
    for a, o, w, k in STATS:
        c.check(c.eq(get(st, a), oracle_field(c, rec, o, w, k)), f"{a} is read from its place")
    c.check(c.eq(st.pack(), rec), "encodes back to the same bytes")
    c.check(c.eq(FileStatistics.unpack(rec), st), "decoding again gives the same")
    c.observe("count", st.object_count)
    c.cover("same")


@harness("C22", quick=({},), bounds="all in-range values", covers=("same",))
def header_values(c):
    """A file header built from values."""
    vals = {a: field_value(c, a, w, k) for a, o, w, k in STATS}
    st = make_stats(vals)
    data = st.pack()
    c.check(c.eq(data, c.concat(*[encode_value(c, vals[a], w, k) for a, o, w, k in STATS])), "every value at its place")
    back = FileStatistics.unpack(data)
    c.check(c.eq(back, st), "decodes to the same header")
    for a, o, w, k in STATS:
        c.check(c.eq(get(st, a), vals[a]), f"encoding leaves {a} unchanged")
        c.check(c.eq(get(back, a), vals[a]), f"{a} is found again")
    c.check(c.eq(st.pack(), data), "encoding is repeatable")
    c.cover("same")


@harness("C22", quick=({},), bounds="every integer value of the header, any number from -2**72 to 2**72 outside its field",
         covers=("refused",))
def header_refuse(c):
    """A value that does not fit is refused."""
    fields = [f for f in STATS if f[3] != "b"]
    attr, off, w, kind = fields[c.choice("field", list(range(len(fields))))]
    v = c.int("value", -(1 << 72), 1 << 72)
    c.assume(c.any(v < 0, v >= 1 << (8 * w)))
    st = FileStatistics.unpack(header_bytes(c))
    put(st, attr, v)
    _, exc = c.attempt(st.pack)
    c.check(exc is not None, f"an out-of-range {attr} is refused")
    c.cover("refused")


@harness("C22", quick=[{"how": h} for h in ("memory", "path")], bounds="any header with a known application id, any bytes behind it",
         covers=("exposed",))
def exposed(c, how):
    """A reader exposes exactly the decoded header."""
    rec = header_bytes(c)
    rest = c.bytes("rest", c.length("n", 0, 3))
    data = c.concat(rec, rest)
    r = BlfReader(c.memfile(data) if how == "memory" else c.path("a.blf", data))
    c.check(c.eq(r.file_statistics, FileStatistics.unpack(rec)), "the decoded header")
    for a, o, w, k in STATS:
        c.check(c.eq(get(r.file_statistics, a), oracle_field(c, rec, o, w, k)), f"{a} as in the file")
    c.check(r.read_object() is None, "no objects")
    c.check(c.eq(r.file_statistics, FileStatistics.unpack(rec)), "reading leaves the header alone")
    c.cover("exposed")


@harness("C22", "C03", quick=[{"how": h, "bad": b} for h in ("memory", "path") for b in ("short", "signature", "both")],
         bounds="any data shorter than a header, any data (up to 2**24 bytes) without the signature", covers=("refused",))
def not_a_log(c, how, bad):
    """Data that is too short or does not start with the signature is refused."""
    if bad == "short":
        n = c.length("n", 0, 143)
        data = c.sub(c.concat(b"LOGG", c.bytes("rest", 139)), 0, n) if c.choice("signed", [True, False]) else c.bytes("data", n)
    else:
        n = c.length("n", 4, 143) if bad == "both" else c.length("n", 144, MAXLEN)
        data = c.bytes("data", n)
        c.assume(c.neg(c.eq(c.sub(data, 0, 4), b"LOGG")))
    _, exc = c.attempt(BlfReader, c.memfile(data) if how == "memory" else c.path("a.blf", data))
    c.check(isinstance(exc, ValueError), "refused with ValueError")
    c.cover("refused")
