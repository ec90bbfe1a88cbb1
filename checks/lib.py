"""Building symbolic records and objects from the layouts."""
from checks.layout import get
from vblf.constants import ObjType
from vblf.general import ObjectHeader, ObjectHeaderBase, VarObjectHeader
from vblf.lin import LinBusEvent, LinDatabyteTimestampEvent, LinMessageDescriptor, LinSynchFieldEvent

MAXLEN = 1 << 24  # longest variable part considered


def var_part(c, name, codec, n=None, hi=MAXLEN):
    """(value, encoded bytes, encoded length) of any content."""
    if codec == "bytes":
        if n is None:
            n = c.length(name + ".len", 0, hi)
        v = c.bytes(name, n)
        return v, v, n
    if n is None:
        n = c.length(name + ".len", 0, hi)
    t, _ = c.text(name, n, codec=codec)
    return t, t.encode(codec), n


def ends_nul(c, b, n):
    return c.all(n > 0, c.eq(c.sub(b, n - 1, n), b"\0")) if not (isinstance(n, int) and n == 0) else False


class Narrow:
    """Stands in for the texts of a record: UTF-8 ones are ASCII."""

    def __init__(self, c):
        self.c = c

    def __getattr__(self, name):
        return getattr(self.c, name)

    def text(self, name, n, hi=None, codec="cp1252"):
        return self.c.text(name, n, hi, "ascii" if codec == "utf-8" else codec)


class Plain:
    """Stands in for the free shape of a record: every variable part 3 elements long, all optional parts present."""

    def __init__(self, c):
        self.c = c

    def __getattr__(self, name):
        return getattr(self.c, name)

    def length(self, name, lo, hi):
        return 20 if hi == 60 else (0 if name.endswith("tail") else 3)

    def choice(self, name, options):
        return options[1] if options[0] == "none" else options[0]

    def bool(self, name):
        return True


def contents(c, spec, prefix="", maxlen=MAXLEN, tail=True):
    """Symbolic variable parts: (values by attribute, length-field values, encoded bytes of everything behind the fixed part)."""
    vals, lens, parts = {}, {}, []
    rule = spec.rule
    extra = {}
    cap = {"data_bytes": 0xFFFF, "frame_data": 0xFFFF, "valid_data_bytes": 255}
    if rule == "lin2":
        n = c.length(prefix + "tail", 0, 60)
        extra["size"] = n
        return vals, lens, parts, extra, n
    if rule == "fd64":
        case = c.choice(prefix + "ext", ["none", "present", "short"])
        extra["case"] = case
        if case == "none":
            v, b, n = var_part(c, prefix + "data", "bytes", hi=maxlen)
            vals["data"] = v
            extra["ext_data_offset"] = 0
            return vals, lens, [b], extra, n
        n = c.length(prefix + "data.len", 0, 255 - 72)
        v = c.bytes(prefix + "data", n)
        vals["data"] = v
        extra["ext_data_offset"] = 72 + n
        if case == "present":
            e = c.bytes(prefix + "extdata", 8)
            t = c.length(prefix + "tail", 0, maxlen)
            extra["ext"] = e
            return vals, lens, [v, e, c.zeros(t)], extra, n + 8 + t
        t = c.length(prefix + "tail", 0, 7)
        return vals, lens, [v, c.zeros(t)], extra, n + t
    if rule == "fderr64":
        case = c.choice(prefix + "ext", ["none", "present", "short"])
        extra["case"] = case
        n = c.length(prefix + "data.len", 0, 255 if case == "none" else 255 - 76)
        v = c.bytes(prefix + "data", n)
        vals["data"] = v
        lens["valid_data_bytes"] = n
        if case == "none":
            t = c.length(prefix + "tail", 0, maxlen)
            extra["ext_data_offset"] = 0
            return vals, lens, [v, c.zeros(t)], extra, n + t
        gap = c.length(prefix + "gap", 0, 255 - 76)
        c.assume(n + gap <= 255 - 76)
        extra["ext_data_offset"] = 76 + n + gap
        if case == "present":
            e = c.bytes(prefix + "extdata", 8)
            t = c.length(prefix + "tail", 0, maxlen)
            extra["ext"] = e
            return vals, lens, [v, c.zeros(gap), e, c.zeros(t)], extra, n + gap + 8 + t
        t = c.length(prefix + "tail", 0, 7)
        return vals, lens, [v, c.zeros(gap), c.zeros(t)], extra, n + gap + t
    total = 0
    for attr, lattr, codec in spec.var:
        v, b, n = var_part(c, prefix + attr, codec, hi=min(maxlen, cap.get(attr, maxlen)))
        vals[attr] = v
        parts.append(b)
        if rule == "apptext":
            nul = c.bool(prefix + "nul")
            if nul:
                parts.append(b"\0")
                n = n + 1
            else:
                c.assume(c.neg(ends_nul(c, b, n)))
        if lattr:
            lens[lattr] = n
        total = total + n
    if spec.tail and tail:
        t = c.length(prefix + "tail", 0, maxlen)
        parts.append(c.zeros(t))
        total = total + t
    return vals, lens, parts, extra, total


def record(c, spec, prefix="", maxlen=MAXLEN, tail=True, otype=None):
    """(record bytes, values): any well-formed record of the type."""
    if maxlen == 0:
        c = Plain(c)
    vals, lens, parts, extra, rest = contents(c, spec, prefix, maxlen, tail)
    if otype is None:
        otype = c.choice(prefix + "type", spec.types) if len(spec.types) > 1 else spec.types[0]
    size = spec.size + rest
    head = [b"LOBJ", c.bytes(prefix + "head", 4), c.le_bytes(size, 4), c.le_bytes(otype, 4), c.bytes(prefix + "head2", 16)]
    body = []
    run = 0
    k = 0

    def flush():
        nonlocal run, k
        if run:
            body.append(c.bytes(f"{prefix}f{k}", run))
            k += 1
            run = 0

    for attr, off, w, kind in spec.fixed:
        if attr in lens:
            flush()
            body.append(c.le_bytes(lens[attr], w))
        elif attr == "ext_data_offset":
            flush()
            body.append(c.le_bytes(extra["ext_data_offset"], w))
        elif isinstance(kind, type) and kind.__name__ not in ("ObjFlags", "TriggerFlag", "CanFdFlags"):
            flush()
            body.append(c.le_bytes(c.enum(prefix + attr, kind), w))
        else:
            run += w
    flush()
    if spec.rule == "lin2":
        n = extra["size"]
        # V2 adds 4 bytes, V3 another 16; a shorter rest is reserved (zero)
        if n < 4:
            parts = [c.zeros(n)]
        elif n < 20:
            parts = [c.bytes(prefix + "v2", 4), c.zeros(n - 4)]
        else:
            parts = [c.bytes(prefix + "v2", 4), c.bytes(prefix + "v3", 16), c.zeros(n - 20)]
    vals["_extra"] = extra
    vals["_size"] = size
    vals["_lens"] = lens
    return c.concat(*head, *body, *parts), vals


def oracle_field(c, rec, off, w, kind):
    """The value the layout gives to a field of a record."""
    if kind == "b":
        return c.sub(rec, off, off + w)
    if kind == "d":
        return c.float_from(c.sub(rec, off, off + w))
    return c.le_int(rec, off, w, kind == "s")


def check_fields(c, spec, rec, obj, vals):
    for attr, off, w, kind in spec.header + spec.fixed:
        c.check(c.eq(get(obj, attr), oracle_field(c, rec, off, w, kind)), f"{spec.name}.{attr} is read from its place")
    for attr, _l, _codec in spec.var:
        c.check(c.eq(getattr(obj, attr), vals[attr]), f"{spec.name}.{attr} is read from its place")
    extra = vals["_extra"]
    if spec.rule in ("fd64", "fderr64"):
        if extra["case"] == "present":
            c.check(c.all(c.eq(obj.btr_ext_arb, c.le_int(extra["ext"], 0, 4)),
                          c.eq(obj.btr_ext_data, c.le_int(extra["ext"], 4, 4))), "bit-rate extension is read")
        else:
            c.check(c.all(c.eq(obj.btr_ext_arb, 0), c.eq(obj.btr_ext_data, 0)), "absent extension reads as zero")
    if spec.rule == "lin2":
        n = extra["size"]
        c.check(c.eq(obj.resp_baudrate, c.le_int(rec, 164, 4) if n >= 4 else 0), "LinMessage2.resp_baudrate")
        if n >= 20:
            c.check(c.eq(obj.exact_header_baudrate, c.float_from(c.sub(rec, 168, 176))), "LinMessage2.exact_header_baudrate")
            c.check(c.eq(obj.early_stopbit_offset, c.le_int(rec, 176, 4)), "LinMessage2.early_stopbit_offset")
            c.check(c.eq(obj.early_stopbit_offset_response, c.le_int(rec, 180, 4)), "LinMessage2.early_stopbit_offset_response")
        else:
            c.check(obj.exact_header_baudrate == 0 and obj.early_stopbit_offset == 0 and
                    obj.early_stopbit_offset_response == 0, "absent V3 part reads as zero")


def int_value(c, name, w, kind):
    if kind == "s":
        return c.int(name, -(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1)
    return c.int(name, 0, (1 << (8 * w)) - 1)


def field_value(c, name, w, kind):
    """Any in-range value of a field."""
    if kind == "b":
        return c.bytes(name, w)
    if kind == "d":
        return c.float64(name)
    if isinstance(kind, type):
        if kind.__name__ in ("ObjFlags", "TriggerFlag", "CanFdFlags"):
            return c.flags(name, kind, 8 * w)
        return c.enum(name, kind)
    return int_value(c, name, w, kind)


def encode_value(c, v, w, kind):
    if kind == "b":
        return v
    if kind == "d":
        return c.float_bytes(v)
    return c.le_bytes(v, w)


def make_header(c, spec, size, otype, vals):
    base = ObjectHeaderBase(vals["header.base.signature"], vals["header.base.header_size"], vals["header.base.header_version"],
                            size, otype)
    cls = VarObjectHeader if spec.var_header else ObjectHeader
    third = "header.object_static_size" if spec.var_header else "header.client_index"
    return cls(base, vals["header.object_flags"], vals[third], vals["header.object_version"],
               vals["header.object_time_stamp"])


def fill(vals, prefix):
    """Keyword arguments of the constructor from values by attribute path."""
    return {a: v for a, v in vals.items() if "." not in a and "[" not in a}


def build(spec, header, vals):
    """The object with the given values (by attribute path)."""
    kw = {"header": header}
    if spec.name == "LinMessage2":
        p = "lin_timestamp_event.lin_msg_descr_event."
        s = p + "lin_synch_field_event."
        b = s + "lin_bus_event."
        bus = LinBusEvent(sof=vals[b + "sof"], event_baudrate=vals[b + "event_baudrate"], channel=vals[b + "channel"],
                          reserved=vals[b + "reserved"])
        syn = LinSynchFieldEvent(lin_bus_event=bus, synch_break_length=vals[s + "synch_break_length"],
                                 synch_del_length=vals[s + "synch_del_length"])
        des = LinMessageDescriptor(lin_synch_field_event=syn, supplier_id=vals[p + "supplier_id"],
                                   message_id=vals[p + "message_id"], nad=vals[p + "nad"], id=vals[p + "id"],
                                   dlc=vals[p + "dlc"], checksum_model=vals[p + "checksum_model"])
        kw["lin_timestamp_event"] = LinDatabyteTimestampEvent(
            lin_msg_descr_event=des,
            databyte_timestamps=tuple([vals[f"lin_timestamp_event.databyte_timestamps[{i}]"] for i in range(9)]))
    if spec.name == "CanDriverErrorExt":
        kw["reserved3"] = [vals[f"reserved3[{i}]"] for i in range(4)]
    for a, v in vals.items():
        if "." not in a and "[" not in a and not a.startswith("_"):
            kw[a] = v
    return spec.cls(**kw)


def object_(c, spec, prefix="", maxlen=MAXLEN, tail=True, otype=None, signature=b"LOBJ", override=None):
    """(object, expected encoding, values): any object of the type with consistent lengths."""
    if maxlen == 0:
        c = Plain(c)
    parts_vals, lens, parts, extra, rest = contents(c, spec, prefix, maxlen, tail)
    size = spec.size + rest
    vals = {}
    if otype is None:
        otype = c.choice(prefix + "type", spec.types) if len(spec.types) > 1 else spec.types[0]
    for attr, off, w, kind in spec.header:
        if attr == "header.base.signature":
            vals[attr] = signature
        elif attr == "header.base.object_size":
            vals[attr] = size
        elif attr == "header.base.object_type":
            vals[attr] = ObjType(otype)
        else:
            vals[attr] = field_value(c, prefix + attr, w, kind)
    for attr, off, w, kind in spec.fixed:
        if attr in lens:
            vals[attr] = lens[attr]
        elif attr == "ext_data_offset":
            vals[attr] = extra["ext_data_offset"]
        else:
            vals[attr] = field_value(c, prefix + attr, w, kind)
    more = {}
    if spec.rule in ("fd64", "fderr64"):
        if extra["case"] == "present":
            a = c.u32(prefix + "btr_ext_arb")
            d = c.u32(prefix + "btr_ext_data")
            more = {"btr_ext_arb": a, "btr_ext_data": d}
            i = [k for k, x in enumerate(parts) if x is extra["ext"]][0]
            parts[i] = c.concat(c.le_bytes(a, 4), c.le_bytes(d, 4))
        else:
            more = {"btr_ext_arb": 0, "btr_ext_data": 0}
    if spec.rule == "lin2":
        n = extra["size"]
        more = {"resp_baudrate": 0, "exact_header_baudrate": 0, "early_stopbit_offset": 0, "early_stopbit_offset_response": 0}
        if n < 4:
            parts = [c.zeros(n)]
        else:
            more["resp_baudrate"] = c.u32(prefix + "resp_baudrate")
            parts = [c.le_bytes(more["resp_baudrate"], 4)]
            if n < 20:
                parts.append(c.zeros(n - 4))
            else:
                more["exact_header_baudrate"] = c.float64(prefix + "exact_header_baudrate")
                more["early_stopbit_offset"] = c.u32(prefix + "early_stopbit_offset")
                more["early_stopbit_offset_response"] = c.u32(prefix + "early_stopbit_offset_response")
                parts += [c.float_bytes(more["exact_header_baudrate"]), c.le_bytes(more["early_stopbit_offset"], 4),
                          c.le_bytes(more["early_stopbit_offset_response"], 4), c.zeros(n - 20)]
    if override:
        vals.update(override)
    header = make_header(c, spec, vals["header.base.object_size"], vals["header.base.object_type"], vals)
    body = {a: v for a, v in vals.items() if not a.startswith("header.")}
    obj = build(spec, header, {**body, **parts_vals, **more})
    expected = None
    if not override:
        expected = c.concat(*[encode_value(c, vals[a], w, k) for a, o, w, k in spec.header],
                            *[encode_value(c, vals[a], w, k) for a, o, w, k in spec.fixed], *parts)
    allv = {**vals, **parts_vals, **more}
    return obj, expected, allv
