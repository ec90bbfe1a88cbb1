"""Writing and reading back whole logs (C01, C04-C08, C21)."""
import dataclasses
import zlib

from checks.api import harness
from checks.layout import BY_NAME, TYPES
from checks.lib import Narrow, encode_value, field_value, object_
from vblf.constants import ObjType
from vblf.general import HeaderWithBase, NotImplementedObject, ObjectHeaderBase, ObjectWithHeader
from vblf.reader import BlfReader
from vblf.writer import BlfWriter

QMAX = 1 << 21  # symbolic sizes reach 16 MiB
RAW_TYPES = (2, 24, 36, 61, 100)
HEADER = 144


def symsize(c, name, r, lo=0):
    """Any size up to 16 MiB that leaves the remainder r on division by 8."""
    k = lo if lo * 8 + r >= 0 else 1
    return c.length(name, k, QMAX) * 8 + r


def raw_bytes(c, name, size, otype=36):
    """The bytes of an object of a type the library does not know in detail: any content."""
    return c.concat(b"LOBJ", c.bytes(name + ".hd", 4), c.le_bytes(size, 4), c.le_bytes(otype, 4),
                    c.bytes(name + ".body", size - 16))


def raw_object(c, name, r, otype=36):
    size = symsize(c, name + ".q", r, 2)
    return NotImplementedObject.unpack(raw_bytes(c, name, size, otype)), size


def thing(c, name, kind):
    """(object, its size).  kind: a number = opaque object with that remainder, or a type name."""
    if isinstance(kind, int):
        return raw_object(c, name, kind)
    if kind in ("EventComment", "EthernetFrameEx", "AppText"):
        # one variable part, remainder free
        obj, exp, vals = object_(c, BY_NAME[kind], name + ".", maxlen=0)
        return obj, len(exp)
    obj, exp, vals = object_(c, BY_NAME[kind], name + ".", maxlen=0)
    return obj, len(exp)


def bufsize(c, rb, name="buf"):
    return symsize(c, name, rb, 0 if rb else 1)


def padded(total, size):
    """Stream position after an object of the given size placed at the next multiple of 8."""
    return total + (-total) % 8 + size


def write_all(c, w, things):
    end = 0
    for obj, size in things:
        w.write(obj)
        end = padded(end, size)
    return end


def few_containers(c, bs, sizes, most):
    """The bound on the number of containers."""
    end = 0
    for s in sizes:
        end = padded(end, s)
    c.assume(end <= bs * most)
    return end


def read_all(c, data, things, msg):
    r = BlfReader(c.memfile(data))
    for i, (obj, _s) in enumerate(things):
        got = r.read_object()
        c.check(got is not None, f"{msg}: object {i + 1} is found")
        c.check(c.eq(got, obj), f"{msg}: object {i + 1} is what was written")
    c.check(r.read_object() is None, f"{msg}: nothing else is found")
    return r


RESIDUES = [(0, 0, 0, 0), (1, 0, 0, 0), (4, 3, 0, 0), (0, 7, 5, 1), (3, 0, 2, 4), (7, 7, 7, 7), (2, 4, 6, 3), (5, 1, 4, 6),
            (6, 6, 1, 5), (0, 1, 0, 2), (1, 2, 3, 0), (4, 4, 4, 1)]
QUICK3 = [{"kinds": list(r[:3]), "rb": r[3], "zr": [r[1], (r[0] + 3) % 8, r[2]], "most": 2, "_w": 5} for r in RESIDUES]
QUICK2 = [{"kinds": list(r[:2]), "rb": r[3], "zr": [(r[2] + 1) % 8, r[0], 5, 2], "most": 4, "_w": 3} for r in RESIDUES[1:9]]
QUICK1 = [{"kinds": [r], "rb": (3 * r + 1) % 8, "zr": [r, 1, 6, 3, 4], "most": 5} for r in range(8)]
TYPED = [{"kinds": k, "rb": rb, "zr": [rb, 3, 4], "most": 3, "_w": 2} for k, rb in
         ((["CanMessage", "EventComment"], 0), (["EventComment", "CanMessage"], 5), (["AppText", 3], 1), ([2, "EthernetFrameEx"], 4),
          (["CanFdMessage64", "CanMessage"], 7))]
NONE = [{"kinds": [], "rb": 0, "zr": [0], "most": 1}]


def deep3():
    out = []
    for a in range(8):
        for b in range(8):
            out.append({"kinds": [a, b, (3 * a + 5 * b + 1) % 8], "rb": (a + 2 * b) % 8, "zr": [(a + b) % 8, a, b, 7 - a],
                        "most": 3, "_w": 8})
    return out


BOUNDS = ("0-3 objects of any size 16..2**24 and any content (sizes through their remainder mod 8 per instance), any buffer size "
          "1..2**24 with at most 5 containers, all compression levels, any length and content of compressed data")


@harness("C01", quick=NONE + QUICK1 + QUICK2 + QUICK3 + TYPED, thorough=lambda: NONE + QUICK1 + QUICK2 + QUICK3 + TYPED + deep3(),
         bounds=BOUNDS, covers=("read back", "several containers"))
def roundtrip(c, kinds, rb, zr, most):
    """Writing and closing, then reading, gives the same objects in the same order."""
    bs = bufsize(c, rb)
    level = c.int("level", 0, 9)
    c.zlib_residues(zr)
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    things = [thing(c, f"o{i}", k) for i, k in enumerate(kinds)]
    few_containers(c, bs, [s for _, s in things], most)
    end = write_all(c, w, things)
    w.close()
    data = c.content(f)
    r = read_all(c, data, things, "read back")
    c.check(r.read_object() is None, "the end stays the end")
    if things:
        c.observe("length", len(data))
    c.observe("end", end)
    if things and end > bs:
        c.cover("several containers")
    c.cover("read back")


HUGE = 1 << 24


@harness("C01", "C04", "C14", quick=[{"r": r, "rb": b, "level": v} for r, b, v in ((3, 0, 0), (0, 5, 6))],
         thorough=[{"r": r, "rb": b, "level": v} for r in (0, 3, 6) for b in (0, 5) for v in (0, 1, 6, 9)],
         bounds="an object of 1 to 128 MiB in at most 2 containers of up to 128 MiB, a small one behind it", covers=("read back",))
def huge(c, r, rb, level):
    """Very large objects and containers."""
    size = c.length("q", 1 << 17, HUGE) * 8 + r
    bs = c.length("buf", 1 << 16, HUGE) * 8 + rb
    c.zlib_residues([1, 4, 3])
    c.assume(size + 64 <= bs * 2)
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    a = NotImplementedObject.unpack(raw_bytes(c, "a", size))
    b, n = raw_object(c, "b", 4)
    c.assume(n <= 48)
    w.write(a)
    w.write(b)
    w.close()
    data = c.content(f)
    things = [(a, size), (b, n)]
    reader = read_all(c, data, things, "read back")
    check_counts(c, reader.file_statistics, data, level, [size, n], "after close")
    c.cover("read back")


MANY = [{"n": 40, "b": 23, "d": 3}, {"n": 40, "b": 64, "d": 3}, {"n": 120, "b": 90, "d": 2}, {"n": 300, "b": 4000, "d": 2}]
MORE = [{"n": 40, "b": b, "d": 12} for b in (36, 100, 256)] + [{"n": 300, "b": 48, "d": 2}, {"n": 600, "b": 6000, "d": 2}]


@harness("C01", "C04", "C07", quick=MANY, thorough=MANY + MORE, covers=("read back",),
         bounds="40-300 (600) objects of sizes 16..38 and any content in up to 300 containers, windows of 2-12 buffer sizes, all levels")
def many(c, n, b, d):
    """Logs of many objects and containers."""
    bs = c.length("buf", b, b + d - 1)
    level = c.choice("level", [0, 1, 9])
    c.zlib_residues([0, 3, 6, 1, 4, 7, 2, 5] * 75)
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    things = []
    for i in range(n):
        size = 16 + (7 * i + i // 9) % 23
        things.append((NotImplementedObject.unpack(raw_bytes(c, f"o{i}", size, (36, 77, 34)[i % 3])), size))
    write_all(c, w, things)
    w.close()
    data = c.content(f)
    r = read_all(c, data, things, "read back")
    check_counts(c, r.file_statistics, data, level, [s for _, s in things], "after close")
    c.cover("read back")


@harness("C01", "C02", quick=[{"n": 1500, "size": 24, "d": 2}], thorough=[{"n": 1500, "size": 24, "d": 2}, {"n": 2000, "size": 32, "d": 2}],
         bounds="1500 (2000) objects of 24 (32) bytes in as many containers, the first and the last of any content", covers=("read back",))
def containers_many(c, n, size, d):
    """Logs of more containers than functions can call each other."""
    f = c.memfile()
    w = BlfWriter(f, 0, c.length("buf", size, size + d - 1))
    same = NotImplementedObject.unpack(b"LOBJ\x10\0\1\0" + size.to_bytes(4, "little") + b"\x4d\0\0\0" + bytes(size - 16))
    things = [NotImplementedObject.unpack(raw_bytes(c, "a", size)), *[same] * (n - 2), NotImplementedObject.unpack(raw_bytes(c, "b", size))]
    for obj in things:
        w.write(obj)
    w.close()
    got = list(BlfReader(c.memfile(c.content(f))))
    c.check(len(got) == n, "all objects are found")
    for a, b in ((got[0], things[0]), (got[1], same), (got[n // 2], same), (got[-2], same), (got[-1], things[-1])):
        c.check(c.eq(a, b), "an object is unchanged")
    c.cover("read back")


# --------------------------------------------------------------------------- C04


def check_counts(c, st, data, level, sizes, msg):
    c.check(c.eq(st.object_count, len(sizes)), f"{msg}: object count")
    c.check(c.eq(st.file_size, len(data)), f"{msg}: file size")
    total = HEADER
    for s in sizes:
        total = total + s
    c.check(c.eq(st.uncompressed_file_size, total), f"{msg}: uncompressed size")
    c.check(c.eq(st.compression_level, level), f"{msg}: compression level")


STATS = NONE + QUICK1[:4] + QUICK2[:3] + QUICK3[1:4] + TYPED[:2]


@harness("C04", quick=STATS, thorough=lambda: NONE + QUICK1 + QUICK2 + QUICK3 + TYPED, bounds=BOUNDS,
         covers=("header",))
def statistics(c, kinds, rb, zr, most):
    """Counters, sizes and level in the header of a closed log."""
    bs = bufsize(c, rb)
    level = c.int("level", 0, 9)
    c.zlib_residues(zr)
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    things = [thing(c, f"o{i}", k) for i, k in enumerate(kinds)]
    few_containers(c, bs, [s for _, s in things], most)
    write_all(c, w, things)
    w.close()
    data = c.content(f)
    check_counts(c, BlfReader(c.memfile(data)).file_statistics, data, level, [s for _, s in things], "after close")
    c.cover("header")


def is_time(c, st, n):
    """The system time denotes the clock reading, rounded to milliseconds."""
    d = c.instant(n)
    us = d.microsecond
    ms = st.milliseconds
    near = c.any(c.all(us >= 999500, ms == 999), c.all(us < 999500, ms * 1000 - us <= 500, us - ms * 1000 <= 500))
    return c.all(c.eq(st.year, d.year), c.eq(st.month, d.month), c.eq(st.day, d.day), c.eq(st.hour, d.hour),
                 c.eq(st.minute, d.minute), c.eq(st.second, d.second), c.eq(st.day_of_week, (d.weekday() + 1) % 7), near)


@harness("C04", quick=[{"steps": s} for s in ((), ("ok",), ("ok", "ok"), ("bad",), ("ok", "bad"))],
         thorough=[{"steps": s} for s in ((), ("ok",), ("ok", "ok"), ("bad",), ("ok", "bad"), ("bad", "ok"), ("ok", "bad", "ok"),
                                          ("ok", "ok", "ok"), ("ok", "ok", "bad"))],
         bounds="up to 3 writes, accepted or rejected, any clock readings (1970..2100, 2**-20 s steps, in any order)",
         covers=("time",))
def last_time(c, steps):
    """The last-object time is the time of the last accepted write, in UTC."""
    c.clock("free")
    f = c.memfile()
    w = BlfWriter(f, 0, 64)
    a, b = 0, len(c.clock_readings())
    for i, s in enumerate(steps):
        obj, size = raw_object(c, f"o{i}", 0)
        c.assume(size <= 80)
        n = len(c.clock_readings())
        if s == "ok":
            w.write(obj)
            a, b = n, len(c.clock_readings())
        else:
            obj.header.base.object_size = size + 8
            c.attempt(w.write, obj)
    during = c.clock_readings()[a:b]
    w.close()
    st = BlfReader(c.memfile(c.content(f))).file_statistics.last_object_time
    if during:
        c.check(c.any([is_time(c, st, n) for n in during]), "time of the last accepted write")
    for x in ("year", "month", "day", "hour", "minute", "second", "milliseconds"):
        c.observe(x, getattr(st, x))
    c.cover("time")


# --------------------------------------------------------------------------- C05


class Faulty(ObjectWithHeader):
    """An object whose encoding fails."""

    def __init__(self, header, exc):
        self.header = header
        self.exc = exc

    def pack(self):
        raise self.exc


class OwnError(Exception):
    pass


def bad_thing(c, name, kind):
    """An object every writer has to reject, and the exception it must raise (None: any)."""
    if kind == "size":
        obj, size = raw_object(c, name, c.choice(name + ".r", [0, 3]))
        d = c.u32(name + ".declared")
        c.assume(c.neg(c.eq(d, size)))
        obj.header.base.object_size = d
        return obj, ValueError
    if kind == "long":  # a typed object with a wrong declared size
        obj, _ = thing(c, name, "EthernetFrameEx")
        d = c.u32(name + ".declared")
        c.assume(d < obj.header.base.object_size)
        obj.header.base.object_size = d
        return obj, None
    if kind == "short":
        obj, _ = thing(c, name, "CanMessage")
        d = c.u32(name + ".declared")
        c.assume(c.neg(c.eq(d, obj.header.base.object_size)))
        obj.header.base.object_size = d
        return obj, ValueError
    if kind == "field":
        obj, _ = thing(c, name, "CanMessage")
        v = c.int(name + ".bad", -(1 << 40), 1 << 40)
        c.assume(c.any(v < 0, v > 0xFFFF))
        obj.channel = v
        return obj, None
    if kind == "own":
        base = ObjectHeaderBase(b"LOBJ", 16, 1, c.u32(name + ".size"), ObjType.UNKNOWN)
        return Faulty(HeaderWithBase(base), OwnError()), OwnError
    if kind == "interrupt":
        base = ObjectHeaderBase(b"LOBJ", 16, 1, c.u32(name + ".size"), ObjType.UNKNOWN)
        exc = c.choice(name + ".exc", (KeyboardInterrupt, SystemExit, MemoryError))
        return Faulty(HeaderWithBase(base), exc()), exc
    raise AssertionError(kind)


HISTORIES = [("size",), (0, "size"), ("size", 0), (0, "size", 0), (5, "size", 2), (3, "field", 1), (1, "own", 6), ("own",),
             (4, "short", 0), (0, "long", 7), (3, "interrupt", 5), ("field", "size", 0), (2, "own", "field"), ("EventComment", "size", "CanMessage")]
DEEP = [(a, k, b) for k in ("size", "field", "own", "short", "long", "interrupt") for a in (0, 1, 3, 4, 6, 7) for b in (0, 5)] + [
    (a, "size", b, "own", 0) for a in (0, 3) for b in (0, 6)] + [("size", 0, "size", 3, "size")]


@harness("C05", quick=[{"steps": h, "rb": (5 * i) % 8} for i, h in enumerate(HISTORIES)],
         thorough=[{"steps": h, "rb": (5 * i) % 8} for i, h in enumerate(HISTORIES)] +
         [{"steps": h, "rb": (3 * i) % 8} for i, h in enumerate(DEEP)],
         bounds="up to 3 (thorough 5) writes of which some are rejected; any sizes up to 2**24, declared sizes, field values, "
         "levels 0-9, buffer sizes with at most 2 containers", covers=("rejected", "read back"))
def rejected(c, steps, rb):
    """A rejected write raises and leaves nothing behind."""
    bs = bufsize(c, rb)
    level = c.int("level", 0, 9)
    c.zlib_residues([3, 0, 6])
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    things = []
    for i, k in enumerate(steps):
        if k in ("size", "long", "short", "field", "own", "interrupt"):
            obj, exc = bad_thing(c, f"o{i}", k)
            _, got = c.attempt_any(w.write, obj)
            c.check(got is not None, "a bad object is rejected")
            if exc is not None:
                c.check(isinstance(got, exc), f"the rejection is a {exc.__name__}")
            c.cover("rejected")
        else:
            t = thing(c, f"o{i}", k)
            few_containers(c, bs, [s for _, s in [*things, t]], 2)
            w.write(t[0])
            things.append(t)
    w.close()
    data = c.content(f)
    r = read_all(c, data, things, "beside a rejected write")
    check_counts(c, r.file_statistics, data, level, [s for _, s in things], "with a rejected write")
    c.observe("length", len(data))
    c.cover("read back")


# --------------------------------------------------------------------------- C06

ENDS = ("with", "with error", "close", "close close", "close with", "with close", "with error close", "with base error")


@harness("C06", quick=[{"end": e, "named": n, "kinds": k} for i, e in enumerate(ENDS) for n, k in
                       (((True, (0, 3)), (False, (5,)), (False, ())) if i % 2 else ((False, (6, 0)), (True, ()), (True, (2,))))],
         thorough=[{"end": e, "named": n, "kinds": k} for e in ENDS for n in (True, False)
                   for k in ((), (0,), (3, 0), (7, 6), (2, 5), (0, 4))],
         bounds="0-2 objects of any size, levels 0-9, any buffer size (at most 3 containers), named files and file objects",
         covers=("final",))
def finalise(c, end, named, kinds):
    """Every way of ending a writer leaves the same finished file; closing again changes nothing."""
    bs = bufsize(c, 0)
    level = c.int("level", 0, 9)
    c.zlib_residues([1, 0, 4])
    things = [thing(c, f"o{i}", k) for i, k in enumerate(kinds)]
    few_containers(c, bs, [s for _, s in things], 3)
    if named:
        p = c.path("log.blf")
        f = None
        w = BlfWriter(p, level, bs)
    else:
        f = c.memfile()
        w = BlfWriter(f, level, bs)
    if end.startswith("with"):
        exc = OwnError("body") if "error" in end else None
        if "base" in end:
            exc = KeyboardInterrupt()
        got = None
        try:
            with w as x:
                c.check(x is w, "the writer is the target of with")
                write_all(c, w, things)
                if exc is not None:
                    raise exc
        except (OwnError, KeyboardInterrupt) as e:
            got = e
        c.check(got is exc, "an exception of the body comes out unchanged")
    else:
        write_all(c, w, things)
        w.close()
        if end == "close with":
            with w:
                pass

    def image():
        return c.disk(p) if named else c.content(f)

    data = image()
    if named:
        c.check(c.handles(p) == 0, "the file is closed")
    else:
        c.check(c.is_closed(f), "the file is closed")
    r = read_all(c, data, things, "finished log")
    check_counts(c, r.file_statistics, data, level, [s for _, s in things], "finished log")
    if end.endswith("close close") or end.endswith("with close") or end.endswith("error close"):
        w.close()
        w.close()
        c.check(c.eq(image(), data), "closing again changes nothing")
    if named:
        # a closed file can be opened again by name
        r2 = BlfReader(p)
        with r2 as y:
            c.check(y is r2, "the reader is the target of with")
            if things:
                c.check(c.eq(r2.read_object(), things[0][0]), "reading by name")
        c.check(c.handles(p) == 0, "the file read is closed")
    c.observe("length", len(data))
    c.cover("final")


@harness("C06", quick=[{"end": e, "named": i % 2 == 0, "kinds": k, "late": x} for i, (e, k, x) in enumerate((
    ("close", (), 3), ("close", (0,), "CanMessage"), ("with", (3,), 0), ("with", (2, 5), "AppText"), ("with error", (1,), 2), ("close", (6,), 7)))],
         thorough=[{"end": e, "named": n, "kinds": k, "late": x} for e in ("close", "with", "with error") for n in (True, False) for k in ((), (0,), (2, 5))
                   for x in (0, 3, "CanMessage", "AppText")],
         bounds="0-2 objects of any size, then one or two objects of any size written to the closed writer, which is closed again; levels 0-9, any buffer "
         "size (at most 3 containers)", covers=("refused",))
def written_late(c, end, named, kinds, late):
    """A closed writer refuses objects."""
    bs = bufsize(c, 0)
    level = c.int("level", 0, 9)
    c.zlib_residues([1, 0, 4])
    things = [thing(c, f"o{i}", k) for i, k in enumerate(kinds)]
    few_containers(c, bs, [s for _, s in things], 3)
    p = c.path("log.blf") if named else None
    f = None if named else c.memfile()
    w = BlfWriter(p if named else f, level, bs)

    def body():
        with w:
            write_all(c, w, things)
            if end == "with error":
                raise OwnError("body")

    if end == "close":
        write_all(c, w, things)
        w.close()
    else:
        c.attempt_any(body)
    data = c.disk(p) if named else c.content(f)
    more = [thing(c, "late", late), thing(c, "last", 4)]
    for obj, _s in more[: 1 + c.choice("more", [0, 1])]:
        _, e = c.attempt_any(w.write, obj)
        c.check(isinstance(e, Exception), "a closed writer refuses objects instead of losing them")
    c.attempt_any(w.close)
    c.check(c.eq(c.disk(p) if named else c.content(f), data), "the finished log is not changed")
    r = read_all(c, data, things, "finished log")
    check_counts(c, r.file_statistics, data, level, [s for _, s in things], "finished log")
    c.cover("refused")


@harness("C06", quick=[{"how": h, "tail": t} for h in ("normal", "error", "early", "base error", "unread", "value error")
                       for t in ("none", "debris", "header", "part", "split")],
         bounds="readers over file objects left normally, early or through an exception; logs that end cleanly, in debris, in a part of an "
         "object (in the file or in a container)", covers=("closed",))
def reader_closes(c, how, tail):
    """Leaving a reader's with-block closes its file."""
    f = c.memfile()
    w = BlfWriter(f, c.int("level", 0, 9) if tail in ("none", "debris") else 0, 1 << 16)
    c.zlib_residues([2])
    things = [thing(c, "o0", 3), thing(c, "o1", 0)]
    c.assume(things[0][1] + things[1][1] < 60000)
    write_all(c, w, things)
    w.close()
    data = c.content(f)
    if tail == "debris":
        data = c.concat(data, c.zeros(c.length("debris", 1, 20)))
    elif tail == "header":
        data = c.concat(data, b"LOBJ", c.bytes("cut header", c.length("cut", 0, 11)))
    elif tail == "part":
        data = c.concat(data, b"LOBJ", c.bytes("cut header", 4), c.le_bytes(100, 4), c.le_bytes(36, 4), c.bytes("cut body", c.length("cut", 0, 83)))
    elif tail == "split":
        rest = c.concat(b"LOBJ", c.bytes("cut header", 4), c.le_bytes(100, 4), c.le_bytes(36, 4), c.bytes("cut body", c.length("cut", 0, 83)))
        data = c.concat(data, b"LOBJ", c.bytes("con0", 4), c.le_bytes(32 + len(rest), 4), c.le_bytes(10, 4), c.bytes("con1", 16), rest)
    g = c.memfile(data)
    exc = {"error": OwnError(), "base error": KeyboardInterrupt(), "value error": ValueError("body")}.get(how)
    got = None
    try:
        with BlfReader(g) as r:
            n = 0
            if how != "unread":
                for o in r:
                    c.check(c.eq(o, things[n][0]), "objects in order")
                    n += 1
                    if how == "early":
                        break
            if exc is not None:
                raise exc
    except (OwnError, KeyboardInterrupt, ValueError) as e:
        c.passing(e)
        got = e
    c.check(got is exc, "an exception of the body comes out unchanged")
    c.check(c.is_closed(g), "the file is closed")
    c.cover("closed")


def exception_classes():
    import builtins
    import struct

    own = [v for _, v in sorted(vars(builtins).items()) if isinstance(v, type) and issubclass(v, BaseException)]
    return [*dict.fromkeys(own), struct.error, zlib.error]


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


EXCEPTIONS = [*exception_classes(), Falsy]


def instance(cls):
    if issubclass(cls, UnicodeDecodeError):
        return cls("utf-8", b"x", 0, 1, "r")
    if issubclass(cls, UnicodeEncodeError):
        return cls("utf-8", "x", 0, 1, "r")
    if issubclass(cls, UnicodeTranslateError):
        return cls("x", 0, 1, "r")
    if issubclass(cls, BaseExceptionGroup):
        return cls("group", [ValueError()])
    return cls()


@harness("C06", quick=[{"side": s, "part": k, "n": n} for s, n in (("writer", 0), ("writer", 1), ("writer", 2), ("reader", 1)) for k in range(2)],
         bounds="every exception class of the builtins, struct and zlib, raised plainly, as a subclass, with a cause, or as falsy value, "
         "after 0-2 writes", covers=("out",))
def propagates(c, side, part, n):
    """No exception class is swallowed by a with-block, and the file is finished under each of them."""
    cls = c.choice("class", EXCEPTIONS[part::2])
    how = c.choice("how", (0, 1, 2))
    exc = instance(cls)
    if how == 1:
        exc = instance(type("Derived", (cls,), {}))
    elif how == 2:
        exc.__cause__ = ValueError("cause")
    f = c.memfile()
    things = [raw_object(c, f"o{i}", 3) for i in range(n)]
    for _o, size in things:
        c.assume(size <= 4096)
    if side == "writer":
        w = BlfWriter(f, 0, 1 << 16)
    else:
        w = BlfWriter(f, 0)
        w.write(things[0][0])
        w.close()
        f = c.memfile(c.content(f))
        w = BlfReader(f)
    got = None
    try:
        with w:
            if side == "writer":
                write_all(c, w, things)
            else:
                c.check(c.eq(w.read_object(), things[0][0]), "the object is read")
            raise exc
    except BaseException as e:  # noqa: BLE001
        c.passing(e)
        got = e
    c.check(got is exc, "the exception comes out of the with-block unchanged")
    c.check(c.is_closed(f), "the file is closed")
    if side == "writer":
        data = c.content(f)
        r = read_all(c, data, things, "log left through an exception")
        check_counts(c, r.file_statistics, data, 0, [s for _, s in things], "log left through an exception")
    c.cover("out")


# --------------------------------------------------------------------------- C07


def containers(c, data, level):
    """(uncompressed contents, stamps) of the containers of a finished or unfinished file: the oracle's own walk."""
    out = []
    stamps = []
    n = len(data)
    p = HEADER
    while True:
        gap = 0
        while p + 4 <= n and not c.eq(c.sub(data, p, p + 4), b"LOBJ"):
            c.check(gap < 8, "containers follow each other")
            p = p + 1
            gap += 1
        if p + 32 > n:
            break
        size = c.le_int(data, p + 8, 4)
        c.check(c.eq(c.le_int(data, p + 12, 4), 10), "a log container")
        stamps.append(c.le_int(data, p + 24, 8))
        body = c.sub(data, p + 32, p + size)
        out.append(zlib.decompress(body) if level > 0 else body)
        p = p + size
    return out, stamps


@harness("C07", quick=[{k: v for k, v in d.items() if k != "_w"} for d in QUICK1 + QUICK2[:5] + QUICK3[:2] + TYPED[:3]],
         thorough=lambda: QUICK1 + QUICK2 + QUICK3 + TYPED, bounds=BOUNDS, covers=("handed over", "unclosed"))
def handover(c, kinds, rb, zr, most):
    """After each write less than a buffer is missing from the file and containers hold at most a buffer."""
    bs = bufsize(c, rb)
    level = c.int("level", 0, 9)
    c.zlib_residues(zr)
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    things = [thing(c, f"o{i}", k) for i, k in enumerate(kinds)]
    few_containers(c, bs, [s for _, s in things], most)
    total = 0
    for k, (obj, size) in enumerate(things):
        w.write(obj)
        total = total + size
        parts, _ = containers(c, c.content(f), level)
        held = 0
        for p in parts:
            c.check(len(p) <= bs, "a container holds at most a buffer")
            held = held + len(p)
        c.check(total - held < bs, "less than a buffer is missing from the file")
        if parts:
            c.cover("handed over")
    # never closed: what was handed over can be read
    data = c.content(f)
    r = BlfReader(c.memfile(data))
    stream = c.concat(*containers(c, data, level)[0])
    held = len(stream)
    end = 0
    for obj, size in things:
        gap = 0
        while end + 4 <= held and not c.eq(c.sub(stream, end, end + 4), b"LOBJ"):
            c.check(gap < 8, "objects follow each other")
            gap += 1
            end = end + 1
        if end + 4 > held or end + size > held:
            break
        end = end + size
        got = r.read_object()
        c.check(got is not None, "a handed-over object is found")
        c.check(c.eq(got, obj), "a handed-over object is unchanged")
    c.check(r.read_object() is None, "nothing else is found")
    c.observe("held", held)
    c.cover("unclosed")
    w.close()
    parts, _ = containers(c, c.content(f), level)
    for p in parts:
        c.check(len(p) <= bs, "a container holds at most a buffer")


@harness("C07", quick=[{"level": 0}, {"level": 6}], bounds="any buffer size from -2**64 to 0, given by position or name, file object or name",
         covers=("refused",))
def no_buffer(c, level):
    """A buffer that holds nothing is refused."""
    bs = c.int("bs", -(1 << 64), 0)
    f = c.path("log.blf") if c.bool("named") else c.memfile()
    if c.bool("by position"):
        _, e = c.attempt_any(BlfWriter, f, level, bs)
    else:
        _, e = c.attempt_any(lambda: BlfWriter(f, compression_level=level, buffer_size=bs))
    c.check(isinstance(e, ValueError), "a buffer size below 1 is refused with ValueError")
    c.cover("refused")


@harness("C07", "C01", quick=[{"n": 40, "bs": 16, "level": 0}, {"n": 300, "bs": 24, "level": 0}, {"n": 20, "bs": 33, "level": 6}],
         thorough=[{"n": n, "bs": b, "level": v} for n, b in ((40, 16), (300, 24), (20, 33), (1100, 100), (129, 1)) for v in (0, 6)],
         bounds="an object of 20-300 (1100) times a buffer of 16-33 (1-100) bytes and up to a buffer more, behind one of any size up to a buffer",
         covers=("handed over",), max_steps=8_000_000)
def much_larger(c, n, bs, level):
    """An object many times as large as a container."""
    c.zlib_residues([3])
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    sizes = [c.length("n0", 16, max(bs, 16)), c.length("n1", max(16, n * bs), n * bs + bs)]
    objs = [NotImplementedObject.unpack(raw_bytes(c, f"o{i}", s, 77)) for i, s in enumerate(sizes)]
    total = 0
    for o, s in zip(objs, sizes):
        w.write(o)
        total = total + s
    parts, _ = containers(c, c.content(f), level)
    held = 0
    for p in parts:
        c.check(len(p) <= bs, "a container holds at most a buffer")
        held = held + len(p)
    c.check(total - held < bs, "less than a buffer is missing from the file")
    c.cover("handed over")
    w.close()
    read_all(c, c.content(f), list(zip(objs, sizes)), "a large object")


# --------------------------------------------------------------------------- C08


@harness("C08", quick=[{"sizes": (), "bs": 64}, {"sizes": (24,), "bs": 16}, {"sizes": (40,), "bs": 4096}, {"sizes": (16, 33), "bs": 24},
                       {"sizes": (16, 24), "bs": 64}, {"sizes": (20, 16, 48), "bs": 48}],
         thorough=[{"sizes": s, "bs": b} for s in ((), (24,), (40, 16), (16, 33), (20, 16, 48), (16, 16, 16, 16)) for b in (16, 24, 64, 4096)],
         bounds="up to 3 (4) objects of 16-48 bytes and any content, any clock readings between 1970 and 2100 in steps of 2**-20 s, "
         "in any order; levels 0-9", covers=("stamped",))
def clock(c, sizes, bs):
    """No sequence of clock readings raises, loses data or gives a wrong stamp."""
    c.clock("free")
    level = c.int("level", 0, 9)
    c.zlib_residues([0, 5, 2, 7])
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    born = readings(c)
    spans = []
    counts = []
    things = []
    for i, size in enumerate(sizes):
        obj = NotImplementedObject.unpack(raw_bytes(c, f"o{i}", size))
        things.append((obj, size))
        old = readings(c)
        w.write(obj)
        spans.append(since(c, old))
        parts, stamps = containers(c, c.content(f), level)
        counts.append(len(stamps))
    old = readings(c)
    w.close()
    spans.append(since(c, old))
    data = c.content(f)
    parts, stamps = containers(c, data, level)
    counts.append(len(stamps))
    k = 0
    for i, upto in enumerate(counts):
        while k < upto:
            pairs = [(t, b) for ts, bs in zip(spans[i], born) for t in ts for b in bs]
            if pairs:
                c.check(c.any([elapsed(c, stamps[k], t, b) for t, b in pairs]), "a container carries the nanoseconds since the start")
                c.cover("stamped")
            k += 1
    read_all(c, data, things, "whatever the clock does")


def readings(c):
    """Of the system clock and of the monotonic clock: a writer may measure with either."""
    return c.clock_readings(), c.steady_readings()


def since(c, old):
    return [new[len(o):] for new, o in zip(readings(c), old)]


class Clocks:
    """Both clocks at instants of the harness's choice: the system clock anywhere from 1970 to 2100, the monotonic one never backwards."""

    def __init__(self, c):
        self.c, self.n, self.steady = c, 0, 0

    def move(self):
        c, k = self.c, self.n
        self.n += 1
        now = c.int(f"t{k}.d", 0, 47480)
        for part, top in (("h", 23), ("m", 59), ("s", 59)):
            now = now * (top + 1) + c.int(f"t{k}.{part}", 0, top)
        now = now * (1 << 20) + c.int(f"t{k}.f", 0, (1 << 20) - 1)
        self.steady = self.steady + c.int(f"t{k}.e", 0, 1 << 50)
        c.clock_set(now, self.steady)
        return now, self.steady


@harness("C08", quick=[{"sizes": (), "bs": 64}, {"sizes": (24,), "bs": 16}, {"sizes": (16, 33), "bs": 24}, {"sizes": (16, 24), "bs": 64},
                       {"sizes": (20, 16, 48), "bs": 48}],
         thorough=[{"sizes": s, "bs": b} for s in ((), (24,), (40, 16), (16, 33), (20, 16, 48), (16, 16, 16, 16)) for b in (16, 24, 64, 4096)],
         bounds="up to 3 (4) objects; the system clock moved to any instant between 1970 and 2100 before every call, the monotonic clock forward",
         covers=("stamped",))
def stamped(c, sizes, bs):
    """A container carries the time from the writer's creation to the call that wrote the container."""
    c.zlib_residues([0, 5, 2, 7])
    clocks = Clocks(c)
    level = c.int("level", 0, 9)
    f = c.memfile()
    b = clocks.move()
    w = BlfWriter(f, level, bs)
    things, when = [], []
    for i, size in enumerate((*sizes, None)):
        t = clocks.move()
        if size is None:
            w.close()
        else:
            obj = NotImplementedObject.unpack(raw_bytes(c, f"o{i}", size))
            things.append((obj, size))
            w.write(obj)
        _parts, stamps = containers(c, c.content(f), level)
        for stamp in stamps[len(when):]:
            c.check(c.any(elapsed(c, stamp, t[0], b[0]), elapsed(c, stamp, t[1], b[1])), "a container carries the nanoseconds since the start")
            when.append(t)
    read_all(c, c.content(f), things, "whatever the clock does")
    c.cover("stamped")


@harness("C04", quick=[{"steps": s} for s in ((), ("ok",), ("ok", "ok"), ("bad",), ("ok", "bad"), ("big", "ok"))],
         thorough=[{"steps": s} for s in ((), ("ok",), ("ok", "ok"), ("bad",), ("ok", "bad"), ("bad", "ok"), ("big", "ok"), ("ok", "big"), ("big", "bad"),
                                          ("ok", "bad", "ok"), ("ok", "ok", "ok"), ("ok", "ok", "bad"))],
         bounds="up to 3 writes, accepted or rejected; the clock moved to any instant between 1970 and 2100 before every call", covers=("time",))
def time_of_last(c, steps):
    """The header carries the time at which the last object was accepted, or the writer created."""
    clocks = Clocks(c)
    f = c.memfile()
    now = clocks.move()[0]
    w = BlfWriter(f, 0, 64)
    born = now
    for i, s in enumerate(steps):
        obj, size = raw_object(c, f"o{i}", 0)
        c.assume(size >= 64 if s == "big" else size <= 64)
        c.assume(size <= 128)
        t = clocks.move()[0]
        if s == "bad":
            obj.header.base.object_size = size + 8
            c.attempt(w.write, obj)
        else:
            w.write(obj)
            now = t
    clocks.move()
    w.close()
    st = BlfReader(c.memfile(c.content(f))).file_statistics
    c.check(is_time(c, st.last_object_time, now), "time of the last accepted write")
    c.check(is_time(c, st.measurement_start_time, born), "time of the start")
    c.cover("time")


def elapsed(c, stamp, t, b):
    """stamp = max(0, t - b) in nanoseconds, up to the resolution of float64 (readings are in units of 2**-20 s)."""
    d = t - b
    e = stamp * (1 << 20) - d * 1_000_000_000
    tol = 1 << 31  # 2 microseconds
    return c.any(c.all(d < 0, stamp == 0), c.all(d >= 0, e <= tol, -e <= tol))


# --------------------------------------------------------------------------- C21


@harness("C21", quick=[{"spec": s, "rb": i % 3} for i, s in enumerate((*TYPES, "raw"))],
         thorough=[{"spec": s, "rb": r} for s in (*TYPES, "raw") for r in (0, 5)],
         bounds="an object of the type changed in every way between two writes; any buffer size; levels 0-9", covers=("as written",))
def mutate(c, spec, rb):
    """Changing an object after writing it does not change the log."""
    bs = bufsize(c, rb)
    level = c.int("level", 0, 9)
    c.zlib_residues([3, 5, 0])
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    if spec == "raw":
        obj, size = raw_object(c, "a", 4)
        other = raw_bytes(c, "b", size)
        payload = "buffer"
    else:
        obj, first, va = object_(Narrow(c), BY_NAME[spec], "a.", maxlen=0)
        size = len(first)
        payload = None
    before = obj.pack()
    few_containers(c, bs, [size, size, 48], 2)
    w.write(obj)
    # change everything that may change
    if spec == "raw":
        obj.buffer = other
        after = other
    else:
        b, second, vb = object_(Narrow(c), BY_NAME[spec], "b.", maxlen=0)
        for k in attributes(b):
            setattr(obj, k, getattr(b, k))
        after = second
    w.write(obj)
    scramble(c, obj)
    w.close()
    r = BlfReader(c.memfile(c.content(f)))
    o1, o2 = r.read_object(), r.read_object()
    c.check(o1 is not None and o2 is not None, "both writes are found")
    c.check(c.eq(o1.pack(), before), "the first write is as it was when written")
    c.check(c.eq(o2.pack(), after), "the second write is as it was when written")
    c.check(r.read_object() is None, "nothing else")
    c.cover("as written")


@harness("C21", "C10", quick=[{"spec": n} for n in BY_NAME],
         bounds="an object of the type encoded, one attribute (of its header or its fixed part) changed, and encoded again; any values",
         covers=("changed",))
def change_one(c, spec):
    """Encoding uses the attributes as they are at that moment, whatever was encoded before."""
    s = BY_NAME[spec]
    obj, expected, vals = object_(c, s, maxlen=0)
    c.check(c.eq(obj.pack(), expected), "the first encoding")
    fixed = {a for _a, a, _c in s.var} | {"header.base.object_size", "ext_data_offset"}
    fields = [f for f in s.header + s.fixed if f[0] not in fixed]
    if len(s.types) == 1:
        fields = [f for f in fields if f[0] != "header.base.object_type"]
    attr, off, w, kind = fields[c.choice("field", list(range(len(fields))))]
    if attr == "header.base.object_type":
        v = ObjType(c.choice("other type", s.types))
    elif attr == "header.base.signature":
        v = c.bytes("other", w)
    else:
        v = field_value(c, "other", w, kind)
    put(obj, attr, v)
    want = c.concat(c.sub(expected, 0, off), encode_value(c, v, w, kind), c.sub(expected, off + w, len(expected)))
    c.check(c.eq(obj.pack(), want), "a changed attribute is encoded")
    put(obj, attr, vals[attr])
    c.check(c.eq(obj.pack(), expected), "an attribute changed back is encoded")
    c.cover("changed")


def put(obj, path, v):
    parts = path.split(".")
    for part in parts[:-1]:
        obj = getattr(obj, part)
    last = parts[-1]
    if last.endswith("]"):
        last, i = last[:-1].split("[")
        xs = list(getattr(obj, last))
        xs[int(i)] = v
        setattr(obj, last, tuple(xs) if isinstance(getattr(obj, last), tuple) else xs)
    else:
        setattr(obj, last, v)


def attributes(obj):
    return [f.name for f in dataclasses.fields(obj)] if dataclasses.is_dataclass(obj) else list(obj.__dict__)


def scramble(c, obj):
    """Changes an object deeply, in place."""
    obj.header.base.object_size = 7
    obj.header.base.object_type = ObjType.UNKNOWN
    for k in attributes(obj):
        if k != "header":
            setattr(obj, k, None)


@harness("C21", quick=[{"holder": h, "rb": r} for h, r in (("EthernetFrameEx", 0), ("CanMessage", 3), ("EthernetFrameEx", 5), ("raw", 3))],
         bounds="payloads held in a bytearray that is overwritten, extended and cleared after the write; any buffer size",
         covers=("as written",))
def mutate_bytes(c, holder, rb):
    """Payload bytes changed in place after the write do not reach the log."""
    bs = bufsize(c, rb)
    level = c.int("level", 0, 9)
    c.zlib_residues([3, 5, 0])
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    if holder == "EthernetFrameEx":
        obj, first, _ = object_(c, BY_NAME[holder], "a.", maxlen=0)
        size = len(first)
        data = bytearray(obj.frame_data)
        obj.frame_data = data
    elif holder == "raw":
        obj, size = raw_object(c, "a", rb)
        data = bytearray(obj.buffer)
        obj.buffer = data
    else:
        obj, first, _ = object_(c, BY_NAME[holder], "a.", maxlen=0)
        size = len(first)
        data = bytearray(obj.data)
        obj.data = data
    before = bytes(obj.pack())
    few_containers(c, bs, [size, 48], 2)
    w.write(obj)
    data[0] = c.u8("x")
    data.clear()
    other, osize = thing(c, "o", "CanMessage")
    w.write(other)
    w.close()
    r = BlfReader(c.memfile(c.content(f)))
    o1, o2 = r.read_object(), r.read_object()
    c.check(o1 is not None and o2 is not None, "both objects are found")
    c.check(c.eq(o1.pack(), before), "the payload is as it was when written")
    c.check(c.eq(o2, other), "the next object is unchanged")
    c.cover("as written")


ORDERS = ("abab", "aabb", "abba", "baab", "ababab")


@harness("C21", quick=[{"k": k, "rb": r} for k, r in ((0, 0), (3, 1), ("CanMessage", 0), (5, 0))],
         bounds="a closed writer used again (its write may raise or not), then another writer on another file; objects of any size, any level",
         covers=("independent",))
def after_close(c, k, rb):
    """A writer that was closed, however it is used afterwards, does not influence a writer opened later."""
    c.zlib_residues([3, 5, 0, 1])
    level = c.int("level", 0, 9)
    f, g = c.memfile(), c.memfile()
    first, stray, second = thing(c, "a", 3), thing(c, "b", 2), thing(c, "c", k)
    w1 = BlfWriter(f, 0, 64)
    c.assume(first[1] <= 64)
    w1.write(first[0])
    w1.close()
    log1 = c.content(f)
    c.assume(stray[1] <= 4096)
    bs = bufsize(c, rb)
    few_containers(c, bs, [second[1]], 2)
    when = c.choice("stray write", ("before", "between", "behind"))
    if when == "before":
        c.attempt(w1.write, stray[0])
    w2 = BlfWriter(g, level, bs)
    if when == "between":
        c.attempt(w1.write, stray[0])
    w2.write(second[0])
    if when == "behind":
        c.attempt(w1.write, stray[0])
    w2.close()
    c.attempt(w1.close)
    r = read_all(c, c.content(g), [second], "a second log")
    check_counts(c, r.file_statistics, c.content(g), level, [second[1]], "a second log")
    c.check(c.eq(c.content(f), log1), "a finished log is not changed")
    c.cover("independent")


@harness("C21", quick=[{"order": o} for o in ORDERS[:4]], thorough=[{"order": o} for o in ORDERS],
         bounds="two writers with different levels and buffers and two readers, used alternately; any object sizes", covers=("independent",))
def interleaved(c, order):
    """Two writers, then two readers, used alternately do not influence each other."""
    c.zlib_residues([3, 5, 0, 1])
    files = {k: c.memfile() for k in "ab"}
    level = {"a": c.int("level", 0, 9), "b": 0}
    buf = {"a": bufsize(c, 0, "bufa"), "b": bufsize(c, 5, "bufb")}
    w = {k: BlfWriter(files[k], level[k], buf[k]) for k in "ab"}
    done = {"a": [], "b": []}
    for i, k in enumerate(order):
        t = thing(c, f"o{i}", (3 * i + 1) % 8 if k == "a" else 4)
        few_containers(c, buf[k], [s for _, s in [*done[k], t]], 2)
        w[k].write(t[0])
        done[k].append(t)
    w["b"].close()
    w["a"].close()
    rd = {k: BlfReader(c.memfile(c.content(files[k]))) for k in "ab"}
    pos = {"a": 0, "b": 0}
    for k in order[::-1]:
        got = rd[k].read_object()
        c.check(got is not None, "each reader finds its own objects")
        c.check(c.eq(got, done[k][pos[k]][0]), "each reader gets its own objects in order")
        pos[k] += 1
    for k in "ab":
        c.check(rd[k].read_object() is None, "nothing else")
        check_counts(c, rd[k].file_statistics, c.content(files[k]), level[k], [s for _, s in done[k]], "independent logs")
    c.cover("independent")
