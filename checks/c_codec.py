"""Object codecs: decoding, encoding, re-encoding, text and payload, optional parts (C09-C13)."""
from checks.api import harness
from checks.c_log import put
from checks.layout import BY_NAME, SPECS, get
from checks.lib import check_fields, object_, record

NAMES = [s.name for s in SPECS]
ONE = [{"spec": n} for n in NAMES]
VAR = [{"spec": s.name} for s in SPECS if s.var]
BOUNDS = "every field value; variable parts and zero tails of every length 0..2**24 (or what the length field can express)"


@harness("C09", "C13", quick=ONE, bounds=BOUNDS, covers=("decoded",))
def decode(c, spec):
    """Every decoded attribute is the little-endian value at its place."""
    s = BY_NAME[spec]
    rec, vals = record(c, s)
    obj = s.cls.unpack(rec)
    c.check(type(obj) is s.cls, "the type's class")
    check_fields(c, s, rec, obj, vals)
    c.observe("channel", getattr(obj, "channel", None))
    c.cover("decoded")


@harness("C09", quick=ONE, bounds=BOUNDS, covers=("decoded",))
def decode_pure(c, spec):
    """Decoding depends on nothing but the bytes: other records decoded before do not matter."""
    s = BY_NAME[spec]
    rec, vals = record(c, s)
    first = s.cls.unpack(rec)
    other, _ = record(c, s, prefix="o.", maxlen=0)
    s.cls.unpack(other)
    again = s.cls.unpack(rec)
    c.check(c.eq(first, again), "decoding the same bytes again gives an equal object")
    check_fields(c, s, rec, first, vals)
    c.cover("decoded")


@harness("C09", quick=ONE, bounds=BOUNDS, covers=("decoded",))
def decode_fresh(c, spec):
    """What a caller does to an object never shows up in the next one decoded from the same bytes."""
    s = BY_NAME[spec]
    rec, vals = record(c, s)
    first = s.cls.unpack(rec)
    for attr, _o, _w, _k in s.header + s.fixed:
        put(first, attr, 1)
    for attr, _l, _codec in s.var:
        put(first, attr, b"")
    check_fields(c, s, rec, s.cls.unpack(rec), vals)
    c.cover("decoded")


@harness("C10", "C12", "C13", quick=ONE, bounds=BOUNDS, covers=("encoded",))
def encode(c, spec):
    """Every attribute is written at its place, nothing else is; decoding gives an equal object."""
    s = BY_NAME[spec]
    obj, expected, vals = object_(c, s)
    data = obj.pack()
    c.check(c.eq(len(data), vals["header.base.object_size"]), "exactly the declared number of bytes")
    c.check(c.eq(data, expected), "every attribute at its place")
    for attr, _o, _w, _k in s.header + s.fixed:
        c.check(c.eq(get(obj, attr), vals[attr]), f"encoding leaves {attr} unchanged")
    for attr, _l, _codec in s.var:
        c.check(c.eq(getattr(obj, attr), vals[attr]), f"encoding leaves {attr} unchanged")
    c.check(c.eq(obj.pack(), data), "encoding again gives the same bytes")
    back = s.cls.unpack(data)
    c.check(c.eq(back, obj), "decoding gives an equal object")
    for attr, _l, _codec in s.var:
        c.check(c.eq(getattr(back, attr), vals[attr]), f"{attr} is found again")
    c.observe("size", len(data))
    c.cover("encoded")


@harness("C10", quick=ONE, bounds="every integer attribute, any value from -2**72 to 2**72 outside its field", covers=("refused",))
def refuse(c, spec):
    """A value that does not fit its field is refused."""
    s = BY_NAME[spec]
    fields = [f for f in s.header + s.fixed if f[3] not in ("b", "d")]
    extra = {"lin2": [("resp_baudrate", 164, 4, "u"), ("early_stopbit_offset", 176, 4, "u"),
                      ("early_stopbit_offset_response", 180, 4, "u")],
             "fd64": [("btr_ext_arb", 0, 4, "u"), ("btr_ext_data", 4, 4, "u")],
             "fderr64": [("btr_ext_arb", 0, 4, "u"), ("btr_ext_data", 4, 4, "u")]}.get(s.rule, [])
    k = c.choice("field", list(range(len(fields) + len(extra))))
    attr, off, w, kind = (fields + extra)[k]
    v = c.int("value", -(1 << 72), 1 << 72)
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if kind == "s" else (0, (1 << (8 * w)) - 1)
    c.assume(c.any(v < lo, v > hi))
    obj, _, vals = object_(c, s, maxlen=0)
    put(obj, attr, v)
    data, exc = c.attempt(obj.pack)
    c.check(exc is not None, f"an out-of-range {attr} is refused")
    c.cover("refused")


@harness("C11", "C12", "C13", quick=ONE, bounds=BOUNDS, covers=("same",))
def reencode(c, spec):
    """Decoding and encoding a well-formed record gives the identical bytes."""
    s = BY_NAME[spec]
    rec, vals = record(c, s)
    obj = s.cls.unpack(rec)
    data = obj.pack()
    c.check(c.eq(len(data), len(rec)), "same length")
    c.check(c.eq(data, rec), "same bytes")
    again = s.cls.unpack(data)
    c.check(c.eq(again.pack(), rec), "same bytes the second time")
    c.observe("size", len(data))
    c.cover("same")


@harness("C13", "C10", quick=[{"spec": n} for n in ("CanFdMessage64", "CanFdErrorFrame64", "LinMessage2")],
         bounds="all extension offsets behind the fixed fields, all declared sizes, all attribute values", covers=("absent",))
def absent_part(c, spec):
    """Attributes of a part that is absent do not touch the encoding."""
    s = BY_NAME[spec]
    obj, expected, vals = object_(c, s)
    size = vals["header.base.object_size"]
    if spec == "LinMessage2":
        c.assume(size < 184)
        obj.exact_header_baudrate = c.float64("x.baud")
        obj.early_stopbit_offset = c.u32("x.early")
        obj.early_stopbit_offset_response = c.u32("x.resp")
        if size < 168:
            obj.resp_baudrate = c.u32("x.baudrate")
    else:
        off = vals["ext_data_offset"]
        c.assume(c.any(off == 0, off + 8 > size))
        obj.btr_ext_arb = c.u32("x.arb")
        obj.btr_ext_data = c.u32("x.data")
    data = obj.pack()
    c.check(c.eq(data, expected), "an absent part leaves everything else untouched")
    c.cover("absent")


TEXTS = [{"spec": s.name, "attr": a} for s in SPECS for a, _l, codec in s.var if codec in ("cp1252", "utf-8")]
HIGH = [ord(bytes([b]).decode("cp1252")) for b in range(0x80, 0xA0) if b not in (0x81, 0x8D, 0x8F, 0x90, 0x9D)]


@harness("C12", quick=TEXTS, bounds="texts of three characters one of which is any character the encoding lacks", covers=("refused",))
def refuse_text(c, spec, attr):
    """A text the encoding cannot express is refused, not altered."""
    s = BY_NAME[spec]
    x = c.int("char", 0, 0x10FFFF)
    if spec == "DiagRequestInterpretation":
        c.assume(c.all(x >= 0xD800, x <= 0xDFFF))
    else:
        c.assume(c.all(x >= 0x80, c.any(x < 0xA0, x > 0xFF), *[x != h for h in HIGH]))
    obj, _, _ = object_(c, s, maxlen=0)
    put(obj, attr, c.choice("where", [chr(x) + "ab", "a" + chr(x) + "b", "ab" + chr(x)]))
    _, exc = c.attempt(obj.pack)
    c.check(exc is not None, f"{attr} with a character the encoding lacks is refused")
    c.cover("refused")


UTF8 = [s.name for s in SPECS for v in s.var if v[2] == "utf-8"]
SHORT = [{"spec": "DiagRequestInterpretation", "attr": a, "n": n}
         for a in ("ecu_qualifier", "variant_qualifier", "service_qualifier") for n in (1, 2, 3, 4)]


@harness("C12", "C09", quick=SHORT, thorough=SHORT + [{**p, "n": n} for p in SHORT[::4] for n in (5, 6)],
         bounds="UTF-8 texts of every length up to the instance's n bytes, byte by byte", covers=("text",))
def short_text(c, spec, attr, n):
    """A short UTF-8 text has exactly the characters of its bytes, and is written back as those bytes."""
    s = BY_NAME[spec]
    bs = [c.u8(f"b{i}") for i in range(n)]
    chars = utf8_chars(c, bs)
    parts = {a: c.text(a, 2, codec="ascii")[0].encode("ascii") if a != attr else c.concat(*[c.le_bytes(b, 1) for b in bs])
             for a, _l, _c in s.var}
    lens = {lat: n if a == attr else 2 for a, lat, _c in s.var}
    body = [c.le_bytes(lens[a], w) if a in lens else c.bytes(f"f{off}", w) for a, off, w, _k in s.fixed]
    rec = c.concat(b"LOBJ", c.bytes("head", 4), c.le_bytes(s.size + n + 4, 4), c.le_bytes(s.types[0], 4), c.bytes("head2", 16),
                   *body, *parts.values())
    obj = s.cls.unpack(rec)
    t = getattr(obj, attr)
    c.check(c.eq(len(t), len(chars)), "as many characters as the bytes stand for")
    for i, ch in enumerate(chars):
        c.check(c.eq(c.code(t, i), ch), "the characters of the bytes")
    c.check(c.eq(obj.pack(), rec), "written back as the same bytes")
    c.observe("n", len(t))
    c.cover("text")


def utf8_chars(c, bs):
    """The code points of well-formed UTF-8 (RFC 3629), ill-formed sequences assumed away."""
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        if b < 0x80:
            out.append(b)
            i += 1
            continue
        c.assume(c.all(b >= 0xC2, b <= 0xF4))
        k = 1 if b < 0xE0 else 2 if b < 0xF0 else 3
        c.assume(i + k < len(bs))
        v = b - (0xC0, 0xE0, 0xF0)[k - 1]
        for x in bs[i + 1:i + k + 1]:
            c.assume(c.all(x >= 0x80, x <= 0xBF))
            v = v * 64 + (x - 0x80)
        if k == 2:
            c.assume(c.all(v >= 0x800, c.any(v < 0xD800, v > 0xDFFF)))
        if k == 3:
            c.assume(c.all(v >= 0x10000, v <= 0x10FFFF))
        out.append(v)
        i += k + 1
    return out
