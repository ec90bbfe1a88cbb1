"""Reading: container splits, truncation and crashes, iteration, debris, arbitrary data (C02, C03, C18-C20)."""
import zlib
from enum import IntEnum

from checks.api import harness
from checks.c_headers import file_header
from checks.c_log import HEADER, containers, few_containers, raw_bytes, raw_object, thing
from checks.layout import BY_NAME, TYPES
from checks.lib import MAXLEN, Narrow, record
from vblf.general import NotImplementedObject
from vblf.reader import BlfReader
from vblf.writer import BlfWriter


def opened(c, data, disk=False):
    """A reader of the data: in memory or in a named file."""
    return BlfReader(c.path("log.blf", data) if disk else c.memfile(data))


def any_record(c, name, kind, lo=16, hi=MAXLEN):
    """(bytes, expected object): a record of any size of an opaque type, or of a type of the library."""
    if kind == "raw":
        n = c.length(name + ".size", lo, hi)
        rec = raw_bytes(c, name, n)
        return rec, NotImplementedObject.unpack(rec), n
    s = BY_NAME[kind]
    rec, _ = record(Narrow(c), s, name + ".", maxlen=0)
    return rec, s.cls.unpack(rec), len(rec)


def pack_container(c, name, payload, level):
    body = payload if level == 0 else zlib.compress(payload, 6)
    n = 32 + len(body)
    return c.concat(b"LOBJ", c.bytes(name + ".h0", 4), c.le_bytes(n, 4), c.le_bytes(10, 4), c.bytes(name + ".h1", 16), body)


def make_stream(c, kinds, pads, hi=MAXLEN):
    """(stream, objects, their ends)."""
    parts, objs, ends = [], [], []
    pos = 0
    for i, k in enumerate(kinds):
        rec, obj, n = any_record(c, f"o{i}", k, hi=hi)
        pad = pads[i]
        if pad == "any":
            pad = c.length(f"pad{i}", 0, 7)
        parts += [c.zeros(pad), rec]
        pos = pos + pad + n
        objs.append(obj)
        ends.append(pos)
    return c.concat(*parts), objs, ends


def cuts(c, total, n):
    """n sorted cut positions anywhere in the stream."""
    out = []
    for i in range(n):
        p = c.length(f"cut{i}", 0, MAXLEN * 4)
        c.assume(p <= total)
        if out:
            c.assume(out[-1] <= p)
        out.append(p)
    return out


def expect(c, r, objs, msg):
    it = iter(r)
    for i, o in enumerate(objs):
        got = r.read_object() if i % 2 else next(it, None)
        c.check(got is not None, f"{msg}: object {i + 1} is found")
        c.check(c.eq(got, o), f"{msg}: object {i + 1} is unchanged")
    c.check(r.read_object() is None, f"{msg}: nothing else is found")


EACH = [{"kinds": (n, "raw", n), "pads": (i % 8, (3 * i) % 8, (5 * i) % 8), "n": 1, "level": (0, 6)[i % 2], "gap": (7 * i) % 8} for i, n in enumerate(TYPES)]
EACH2 = [{"kinds": (n, n), "pads": (0, (3 * i) % 8), "n": 0, "level": (6, 0)[i % 2], "gap": (5 * i) % 8} for i, n in enumerate(TYPES)]

SPLIT_BOUND = ("2-3 objects of any size 16..2**24 and content with 0-7 padding bytes, cut at any 1-3 positions (also equal: empty "
               "containers), any bytes in the containers' other header fields, any file header")


@harness("C02", quick=[{"kinds": ("raw", "raw"), "pads": (3, 0), "n": 1, "level": 0, "gap": 2, "disk": True}] + [{"kinds": k, "pads": p, "n": n, "level": lv, "gap": g} for k, p, n, lv, g in (
    (("raw", "raw"), (0, 0), 1, 0, 0), (("raw", "raw"), ("any", 0), 1, 0, 3), (("raw", "raw"), (0, "any"), 1, 6, 0),
    (("raw", "raw"), (0, 3), 2, 0, 1), (("raw",), (0,), 2, 6, 7), (("raw",), (5,), 3, 0, 0),
    (("CanMessage", "raw"), (0, 0), 1, 9, 2), (("raw", "EventComment"), (0, 1), 1, 0, 0), (("raw", "raw", "raw"), (0, 4, 2), 1, 1, 5))] + EACH,
    thorough=EACH + [{"kinds": k, "pads": p, "n": n, "level": lv, "gap": g} for k, p, n, g in (
        (("raw", "raw"), ("any", "any"), 1, 0), (("raw", "raw"), (0, 0), 2, 1), (("raw", "raw"), (3, 6), 2, 0), (("raw",), (0,), 3, 7),
        (("raw",), (5,), 3, 0), (("raw", "raw"), (0, 7), 3, 0), (("raw", "raw", "raw"), (0, 4, 2), 2, 5), (("raw", "raw", "raw"), (1, 0, 7), 2, 0),
        (("CanMessage", "raw"), (0, "any"), 2, 2), (("raw", "EventComment"), (0, 1), 2, 0), (("AppText", "CanFdMessage64"), (2, 0), 2, 4))
        for lv in (0, 6)],
    bounds=SPLIT_BOUND, covers=("read",))
def split(c, kinds, pads, n, level, gap, disk=False):
    """Any way of cutting the stream into containers reads the same."""
    stream, objs, ends = make_stream(c, kinds, pads)
    total = len(stream)
    ps = [0, *cuts(c, total, n), total]
    c.zlib_residues([0, 3, 5, 2])
    parts = [file_header(c, level)]
    for i in range(n + 1):
        parts += [c.zeros(gap), pack_container(c, f"c{i}", c.sub(stream, ps[i], ps[i + 1]), level)]
    r = opened(c, c.concat(*parts), disk)
    expect(c, r, objs, "split stream")
    c.cover("read")


@harness("C02", quick=[{"n": 9000, "piece": 30, "level": 0, "d": 2}, {"n": 900, "piece": 15, "level": 6, "d": 2}],
         thorough=[{"n": 9000, "piece": 30, "level": 0, "d": 5}, {"n": 900, "piece": 15, "level": 6, "d": 5}, {"n": 20000, "piece": 11, "level": 0, "d": 3},
                   {"n": 6000, "piece": 10, "level": 1, "d": 2}],
         bounds="an object of 900-9000 (20000) bytes of any content in up to 600 (1800) containers of 15-31 (10-34) bytes, and one behind it", covers=("read",))
def spanning(c, n, piece, level, d):
    """An object over very many containers."""
    c.zlib_residues([0, 3, 5, 1])
    first = raw_bytes(c, "a", n)
    second = raw_bytes(c, "b", 40, 77)
    stream = c.concat(first, second)
    total = n + 40
    step = c.length("piece", piece, piece + d - 1)
    parts = [file_header(c, level)]
    pos, i = 0, 0
    while pos < total:
        end = pos + step
        if end > total:
            end = total
        parts.append(pack_container(c, f"c{i}", c.sub(stream, pos, end), level))
        pos, i = end, i + 1
    r = BlfReader(c.memfile(c.concat(*parts)))
    expect(c, r, [NotImplementedObject.unpack(first), NotImplementedObject.unpack(second)], "an object over many containers")
    c.cover("read")


@harness("C02", quick=[{"layout": x, "level": lv} for x, lv in (("dc", 0), ("cd", 6), ("cdc", 0), ("dcd", 6), ("sds", 0), ("dd", 0), ("cdd", 6))],
         thorough=[{"layout": x, "level": lv} for x in ("dc", "cd", "cdc", "dcd", "sds", "dd", "cddc", "dcdc", "sdds") for lv in (0, 6)],
         bounds="objects of any size directly in the file before, between and behind containers, also while an object spans two containers; "
         "0-7 bytes of padding", covers=("read",))
def direct(c, layout, level):
    """Objects outside containers are returned at their place."""
    c.zlib_residues([0, 3, 5])
    parts = [file_header(c, level)]
    objs = []
    pad = c.length("pad", 0, 3)
    span = None
    for i, k in enumerate(layout):
        rec, obj, n = any_record(c, f"o{i}", "raw" if i != 1 else "CanMessage", lo=17)
        if k == "d":
            parts += [c.zeros(pad), rec]
            objs.append(obj)
        elif k == "c":
            parts.append(pack_container(c, f"c{i}", rec, level))
            objs.append(obj)
        elif span is None:  # first part of an object that spans two containers
            cut = c.length("cut", 1, MAXLEN)
            c.assume(cut < n)
            parts.append(pack_container(c, f"c{i}", c.sub(rec, 0, cut), level))
            span = (rec, obj, n, cut)
        else:
            rec, obj, n, cut = span
            parts.append(pack_container(c, f"c{i}", c.sub(rec, cut, n), level))
            objs.append(obj)
    r = BlfReader(c.memfile(c.concat(*parts)))
    expect(c, r, objs, "direct objects")
    c.cover("read")


@harness("C21", quick=[{"kind": k, "level": lv, "order": o} for k, lv, o in (("raw", 0, "aba"), ("raw", 6, "baa"), ("CanMessage", 0, "aab"))],
         thorough=[{"kind": k, "level": lv, "order": o} for k, o in (("raw", "aba"), ("raw", "baa"), ("CanMessage", "aab"), ("EventComment", "aba"),
                                                                    ("raw", "baab")) for lv in (0, 6)],
         bounds="two readers on logs of any tool, one log with a part of an object in its last container, the other with an object over two "
                "containers; objects of any size, cut at any place, read in turns", covers=("independent",))
def two_logs(c, kind, level, order):
    """What one reader has read so far does not influence another reader."""
    c.zlib_residues([0, 3, 5])
    logs, objs = {}, {}
    ra, oa, _ = any_record(c, "a", "raw")
    rb, ob, nb = any_record(c, "b", "raw")
    part = c.length("part", 1, MAXLEN)
    c.assume(part < nb)
    logs["a"] = c.concat(file_header(c, level, "fa"), pack_container(c, "ca", c.concat(ra, c.sub(rb, 0, part)), level), rb)
    objs["a"] = [oa, ob]
    rd, od, nd = any_record(c, "d", kind)
    re_, oe, _ = any_record(c, "e", "raw")
    cut = c.length("cut", 1, MAXLEN)
    c.assume(cut < nd)
    logs["b"] = c.concat(file_header(c, level, "fb"), pack_container(c, "cb", c.sub(rd, 0, cut), level),
                         pack_container(c, "cc", c.concat(c.sub(rd, cut, nd), re_), level))
    objs["b"] = [od, oe]
    r, pos = {}, {"a": 0, "b": 0}
    for k in order + "ab":
        if k not in r:
            r[k] = BlfReader(c.memfile(logs[k]))
        got = r[k].read_object()
        want = objs[k][pos[k]] if pos[k] < 2 else None
        pos[k] += 1
        if want is None:
            c.check(got is None, f"log {k}: nothing else is found")
        else:
            c.check(got is not None, f"log {k}: its next object is found")
            c.check(c.eq(got, want), f"log {k}: its next object is unchanged")
    for k in "ab":
        while pos[k] < 2:
            got = r[k].read_object()
            c.check(got is not None, f"log {k}: its next object is found")
            c.check(c.eq(got, objs[k][pos[k]]), f"log {k}: its next object is unchanged")
            pos[k] += 1
        c.check(r[k].read_object() is None, f"log {k}: nothing else is found")
    c.cover("independent")


# --------------------------------------------------------------------------- C03


BROKEN = ("cut stream", "junk stream", "text", "small record", "no log", "short file", "part")


@harness("C21", quick=[{"what": b, "kind": k, "level": v} for i, b in enumerate(BROKEN) for k, v in ((("raw", 6), ("AppText", 0)) if i % 2 else (("raw", 0), ("CanMessage", 6)))] +
         [{"what": b, "kind": "raw", "level": 6} for b in ("cut stream", "text", "part")],
         thorough=[{"what": b, "kind": k, "level": v} for b in BROKEN for k in ("raw", "CanMessage", "AppText", "EventComment") for v in (0, 6)],
         bounds="a log with a cut or broken stream, a text with an undefined byte, a record too small for its type, an unfinished object, or no log "
         "at all, read or refused; then a log of two containers with two objects of any size, cut at any place", covers=("independent",))
def after_broken(c, what, kind, level):
    """A log that cannot be read does not influence the reading of the next one."""
    c.zlib_residues([0, 3, 5])
    first, _, n = any_record(c, "a", "raw", hi=4096)
    bad = c.concat(file_header(c, 6 if what.endswith("stream") else 0, "fa"), first)
    if what == "cut stream":
        body = zlib.compress(first, 6)
        k = c.length("kept", 0, 4095)
        c.assume(k < len(body))
        bad = c.concat(bad, b"LOBJ\x20\0\1\0", c.le_bytes(32 + k, 4), c.le_bytes(10, 4), c.zeros(16), c.sub(body, 0, k))
    elif what == "junk stream":
        bad = c.concat(bad, b"LOBJ\x20\0\1\0\x2a\0\0\0\x0a\0\0\0", c.zeros(16), b"no stream.")
    elif what == "text":
        bad = c.concat(bad, b"LOBJ\x20\0\1\0\x34\0\0\0\x5c\0\0\0", c.zeros(20), b"\4\0\0\0", c.zeros(8), b"ab\x81c")
    elif what == "small record":
        bad = c.concat(bad, b"LOBJ\x20\0\1\0\x18\0\0\0\1\0\0\0", c.bytes("small", 8))
    elif what == "no log":
        bad = c.zeros(200)
    elif what == "short file":
        bad = c.sub(bad, 0, 100)
    else:
        k = c.length("kept", 0, 4095)
        c.assume(k < n)
        bad = c.concat(bad, pack_container(c, "cp", c.sub(first, 0, k), 0))
    made = []
    c.attempt_any(lambda: made.append(BlfReader(c.memfile(bad))))
    for _ in range(3 if made else 0):
        c.attempt_any(made[0].read_object)
    ra, oa, na = any_record(c, "b", kind)
    rb, ob, _ = any_record(c, "d", "raw")
    cut = c.length("cut", 0, MAXLEN)
    c.assume(cut <= na)
    r = BlfReader(c.memfile(c.concat(file_header(c, level, "fb"), pack_container(c, "cb", c.sub(ra, 0, cut), level),
                                     pack_container(c, "cc", c.concat(c.sub(ra, cut, na), rb), level))))
    for o in (oa, ob):
        got = r.read_object()
        c.check(got is not None, "an object of the next log is found")
        c.check(c.eq(got, o), "an object of the next log is unchanged")
    c.check(r.read_object() is None, "the next log ends")
    c.cover("independent")


TEXTS = [t for t in TYPES if any(v[2] != "bytes" for v in BY_NAME[t].var)]
DAMAGE = ("cut stream", "junk stream", "text", "small")


@harness("C25", quick=[{"what": w, "place": p, "k": k, "how": h, "level": v, "kind": "CanMessage"} for w, p, k, h, v in (
    ("cut stream", "own", 1, 0, 6), ("cut stream", "own", 2, 1, 6), ("junk stream", "own", 2, 0, 6), ("junk stream", "own", 1, 2, 6), ("junk stream", "own", 0, 1, 6),
    ("text", "same", 1, 0, 6), ("text", "same", 2, 1, 0), ("text", "own", 2, 2, 6), ("text", "direct", 1, 1, 0),
    ("small", "same", 2, 0, 0), ("small", "own", 1, 1, 6), ("small", "direct", 2, 2, 6), ("small", "split", 1, 0, 0), ("text", "split", 2, 0, 6))] +
         [{"what": "small", "place": "same", "k": 1, "how": i % 3, "level": 0, "kind": t} for i, t in enumerate(TYPES) if t != "CanMessage"] +
         [{"what": "text", "place": ("same", "own", "direct")[i % 3], "k": 1, "how": i % 3, "level": 0, "kind": t} for i, t in enumerate(TEXTS)],
         thorough=lambda: [{"what": w, "place": p, "k": k, "how": h, "level": v, "kind": "CanMessage"} for w in DAMAGE for p in (
             ("own",) if w.endswith("stream") else ("same", "own", "direct", "split")) for k in (0, 1, 2, 3) for h in range(3) for v in ((6,) if w.endswith("stream") else (0, 6))] +
         [{"what": "small", "place": p, "k": 1, "how": i % 3, "level": 6, "kind": t} for i, t in enumerate(TYPES) for p in ("same", "direct")] +
         [{"what": "text", "place": p, "k": 1, "how": i % 3, "level": 6, "kind": t} for i, t in enumerate(TEXTS) for p in ("same", "own", "direct")],
         bounds="0-2 (3) objects of any size before the damage: a cut or broken stream, a text of each type that has one with undefined bytes, or a record of each type shorter "
         "than its fixed fields, in the same container, in one of its own, in two or outside any; single reads, iteration and both",
         covers=("damage",))
def before_damage(c, what, place, k, how, level, kind):
    """What lies before damaged data is read, then an error is raised."""
    c.zlib_residues([0, 3, 5, 2])
    good = [any_record(c, f"g{i}", "raw") for i in range(k)]
    behind = raw_bytes(c, "behind", 40)
    before = c.concat(*[g[0] for g in good])
    parts = [file_header(c, level)]
    if what.endswith("stream"):
        parts.append(pack_container(c, "c0", before, level))
        body = b"no stream."
        if what == "cut stream":
            body = zlib.compress(behind, 6)
            n = c.length("kept", 0, 4096)
            c.assume(n < len(body))
            body = c.sub(body, 0, n)
        n = 32 + len(body)
        parts += [b"LOBJ\x20\0\1\0", c.le_bytes(n, 4), c.le_bytes(10, 4), c.zeros(16), body, pack_container(c, "c9", behind, level)]
    else:
        spec = BY_NAME[kind]
        if what == "text":
            spec = BY_NAME["EventComment" if kind == "CanMessage" else kind]
            n = spec.size + 4
            fields = dict.fromkeys((a for a, *_ in spec.fixed), 0)
            fields |= {a: min(k).value for a, _, _, k in spec.fixed if isinstance(k, type) and issubclass(k, IntEnum)}
            texts = [(le, enc) for _, le, enc in spec.var if enc != "bytes"]
            le, enc = texts[-1]
            fields[le] = 4
            body = b"LOBJ\x20\0\1\0" + n.to_bytes(4, "little") + spec.types[0].to_bytes(4, "little") + bytes(16)
            body += b"".join(fields[a].to_bytes(w, "little") for a, _, w, _ in spec.fixed)
            bad = c.concat(body, c.choice("undefined", [b"ab\x81c", b"\x8d\x8f\x90\x9d", b"\x81   "] if enc == "cp1252" else [b"ab\xffc", b"\xc3(ab", b"abc\xe2"]))
        else:
            n = c.length("size", 16, spec.size)
            c.assume(n < spec.size)
            bad = c.concat(b"LOBJ\x20\0\1\0", c.le_bytes(n, 4), c.le_bytes(spec.types[0], 4), c.bytes("bad", n - 16))
        if place == "same":
            parts.append(pack_container(c, "c0", c.concat(before, bad, behind), level))
        elif place == "own":
            parts += [pack_container(c, "c0", before, level), pack_container(c, "c1", bad, level), pack_container(c, "c2", behind, level)]
        elif place == "split":
            cut = c.choice("cut", [1, 4, 15])
            parts += [pack_container(c, "c0", c.concat(before, c.sub(bad, 0, cut)), level), pack_container(c, "c1", c.concat(c.sub(bad, cut, n), behind), level)]
        else:
            parts += [before, bad, behind]
    f = c.memfile(c.concat(*parts))
    got = []
    errors = []

    def visit(r):
        if how == 0:
            for _ in range(k + 1):
                got.append(r.read_object())
        elif how == 1:
            for o in r:
                got.append(o)
        else:
            if k:
                got.append(r.read_object())
            for o in r:
                got.append(o)

    def whole():
        with BlfReader(f) as r:
            _, e = c.attempt_any(visit, r)
            errors.append(e)
            if e is not None:
                raise e

    _, e = c.attempt_any(whole)
    c.check(len(got) >= k, "everything before the damage is returned")
    for g, (_rec, o, _n) in zip(got, good):
        c.check(c.eq(g, o), "objects before the damage are unchanged")
    c.check(len(got) == k and len(errors) == 1 and errors[0] is not None, "damaged data is not passed over in silence")
    c.check(e is errors[0], "the error is not swallowed")
    c.check(c.is_closed(f), "the file is closed")
    c.cover("damage")


def complete_objects(c, objs, ends, held):
    out = []
    for o, e in zip(objs, ends):
        if e <= held:
            out.append(o)
        else:
            break
    return out


@harness("C03", quick=[{"kinds": ("raw", "raw"), "pads": (3, 0), "n": 0, "level": 6, "gap": 2, "disk": True}] + [{"kinds": k, "pads": p, "n": n, "level": lv, "gap": g} for k, p, n, lv, g in (
    (("raw", "raw"), (0, 5), 1, 0, 3), (("raw", "raw"), (0, 2), 1, 6, 0), (("raw",), (0,), 1, 6, 7), (("raw", "raw"), (0, 0), 0, 0, 2),
    (("CanMessage", "raw"), (0, 1), 1, 0, 0), (("raw", "raw", "raw"), (0, 0, 3), 0, 9, 1))] + EACH2,
    thorough=EACH2 + [{"kinds": k, "pads": p, "n": n, "level": lv, "gap": g} for k, p, n, g in (
        (("raw", "raw"), (0, 5), 1, 3), (("raw", "raw"), ("any", 2), 1, 0), (("raw",), (0,), 2, 7), (("raw", "raw"), (0, 0), 0, 2),
        (("CanMessage", "raw"), (0, 1), 2, 0), (("raw", "raw", "raw"), (0, 0, 3), 1, 1), (("raw", "raw"), (0, 4), 2, 0)) for lv in (0, 6)],
    bounds="logs of 1-3 objects of any size in 1-3 containers (objects may span them), cut at every byte from 144 on", covers=("cut",))
def truncated(c, kinds, pads, n, level, gap, disk=False):
    """A log cut anywhere reads as the objects of its complete containers."""
    stream, objs, ends = make_stream(c, kinds, pads)
    total = len(stream)
    ps = [0, *cuts(c, total, n), total]
    c.zlib_residues([0, 3, 5, 2])
    parts = [file_header(c, level)]
    pos = HEADER
    marks = []
    for i in range(n + 1):
        k = pack_container(c, f"c{i}", c.sub(stream, ps[i], ps[i + 1]), level)
        parts += [c.zeros(gap), k]
        pos = pos + gap + len(k)
        marks.append((pos, ps[i + 1]))
    data = c.concat(*parts)
    t = c.length("end", HEADER, MAXLEN * 8)
    c.assume(t <= len(data))
    held = 0
    for end, upto in marks:
        if end <= t:
            held = upto
    r = opened(c, c.sub(data, 0, t), disk)
    expect(c, r, complete_objects(c, objs, ends, held), "truncated log")
    c.cover("cut")


@harness("C03", quick=[{"at": "tail", "disk": True}] + [{"at": a} for a in ("signature", "tail", *TYPES)],
         bounds="direct objects of any size, or two of each type, in the file, cut at every byte from 144 on", covers=("cut",))
def truncated_direct(c, at, disk=False):
    """A log of objects outside containers cut anywhere reads as its complete objects."""
    kinds = {"tail": ("raw", "CanMessage"), "signature": ("raw", "raw")}.get(at, (at, at))
    stream, objs, ends = make_stream(c, kinds, (0, 3))
    data = c.concat(file_header(c, 0), stream)
    t = c.length("end", HEADER, MAXLEN * 8)
    c.assume(t <= len(data))
    r = opened(c, c.sub(data, 0, t), disk)
    expect(c, r, complete_objects(c, objs, ends, t - HEADER), "truncated log")
    c.cover("cut")


CRASH = [{"kinds": k, "rb": rb, "zr": z, "level": lv, "closed": cl} for k, rb, z, lv, cl in (
    ((), 0, (), 0, True), ((3,), 0, (), 0, True), ((0,), 5, (1,), "any", True), ((2, 5), 0, (), 0, True), ((4, 0), 1, (3, 2), "any", True),
    (("CanMessage",), 0, (6,), "any", False))]


@harness("C03", quick=CRASH, thorough=CRASH + [{"kinds": k, "rb": rb, "zr": (3, 0, 5), "level": lv, "closed": True} for k in ((0, 0), (7, 3), (1, 6), (5, 4, 2))
                                               for rb, lv in ((0, 0), (4, "any"), (7, "any"))],
         bounds="writers of 0-2 (3) objects of any size, at most 2 containers, stopped after any write to the file and any number of bytes of "
         "the next one, the header update included; compression levels 0-9", covers=("crashed",))
def crashed(c, kinds, rb, zr, level, closed):
    """What a dead writer leaves behind reads as the objects of its complete containers."""
    from checks.c_log import bufsize

    bs = bufsize(c, rb)
    lv = c.int("level", 1, 9) if level == "any" else level
    c.zlib_residues(list(zr))
    f = c.memfile()
    w = BlfWriter(f, lv, bs)
    things = [thing(c, f"o{i}", k) for i, k in enumerate(kinds)]
    few_containers(c, bs, [s for _, s in things], 2)
    for obj, size in things:
        w.write(obj)
    if closed:
        w.close()
    log = c.log(f)
    n = len(log)
    k = c.choice("writes", list(range(n + 1)))
    img = c.memfile()
    for pos, data in log[:k]:
        img.seek(pos)
        img.write(data)
    if k < n:
        pos, data = log[k]
        cut = c.length("part", 0, MAXLEN * 8)
        c.assume(cut <= len(data))
        if cut > 0:
            img.seek(pos)
            img.write(c.sub(data, 0, cut))
    image = c.content(img)
    if len(image) < HEADER:
        _, exc = c.attempt(BlfReader, c.memfile(image))
        c.check(isinstance(exc, ValueError), "a file shorter than its header is refused")
        return
    # the complete containers, found by the oracle's own walk over the finished parts
    held = complete_stream(c, image, lv)
    end = 0
    want = []
    for obj, size in things:
        gap = 0
        while end + 4 <= held[1] and not c.eq(c.sub(held[0], end, end + 4), b"LOBJ"):
            c.check(gap < 8, "objects follow each other")
            gap += 1
            end = end + 1
        if end + 4 > held[1] or end + size > held[1]:
            break
        end = end + size
        want.append(obj)
    expect(c, BlfReader(c.memfile(image)), want, "crashed writer")
    c.cover("crashed")


@harness("C03", quick=[{"n": 300, "size": 16, "bs": 4800}, {"n": 513, "size": 24, "bs": 1200}],
         thorough=[{"n": n, "size": s, "bs": b} for n in (255, 256, 257, 511, 770) for s, b in ((16, 4800), (16, 64), (40, 1000))],
         bounds="logs of 300-513 (255-770) objects of any content whose last header update stopped after any number of bytes",
         covers=("crashed",))
def crashed_many(c, n, size, bs):
    """A header update that stopped half-way through a number hides no object."""
    f = c.memfile()
    w = BlfWriter(f, 0, bs)
    objs = [NotImplementedObject.unpack(raw_bytes(c, f"o{i}", size)) for i in range(n)]
    for o in objs:
        w.write(o)
    w.close()
    done = c.content(f)
    first = c.memfile()
    BlfWriter(first, 0, bs)
    t = c.length("part", 0, HEADER)
    img = c.concat(c.sub(done, 0, t), c.sub(c.content(first), t, HEADER), c.sub(done, HEADER, len(done)))
    got = list(BlfReader(c.memfile(img)))
    c.check(len(got) == n, "every object is found")
    for a, b in zip(got, objs):
        c.check(c.eq(a, b), "every object is unchanged")
    c.cover("crashed")


def complete_stream(c, data, level):
    out = []
    n = len(data)
    p = HEADER
    while True:
        gap = 0
        while p + 4 <= n and not c.eq(c.sub(data, p, p + 4), b"LOBJ"):
            c.check(gap < 8, "containers follow each other")
            p = p + 1
            gap += 1
        if p + 16 > n:
            break
        size = c.le_int(data, p + 8, 4)
        if p + size > n:
            break
        body = c.sub(data, p + 32, p + size)
        out.append(zlib.decompress(body) if level > 0 else body)
        p = p + size
    s = c.concat(*out)
    return s, len(s)


# --------------------------------------------------------------------------- C18

OPS = ("read", "next a", "next b", "loop", "iter")


ENDINGS = ("clean", "debris", "part", "carried")


def ending(c, kind):
    """What may follow the last object of a log: (bytes in the last container, bytes behind it)."""
    part = [b"LOBJ", c.bytes("cut header", 4), c.le_bytes(100, 4), c.le_bytes(36, 4), c.bytes("cut body", 9)]
    if kind == "debris":
        return b"", c.concat(b"LOBX", c.zeros(5))
    if kind == "part":
        return b"", c.concat(*part)
    if kind == "carried":
        return c.concat(*part), b""
    return b"", b""


@harness("C18", quick=[{"first": (a, b), "more": 3, "n": 3, "tail": ENDINGS[(i + j) % 4], "over": (7, 0)[(i + j // 2) % 2]} for i, a in enumerate(OPS) for j, b in enumerate(OPS)],
         thorough=[{"first": (a, b, d), "more": 3, "n": n, "tail": ENDINGS[(i + j + k) % 4]} for i, a in enumerate(OPS) for j, b in enumerate(OPS)
                   for k, d in enumerate(OPS) for n in (2, 4)],
         bounds="3 (2, 4) objects of any size in two containers, cut between or within them, then nothing, debris, or the first part of an object (in the file or in a "
         "container); every sequence of 5 (6) operations: single read, step of one of two iterators, loop left after one object, new "
         "iterator; then the rest by list", covers=("drained", "in between"))
def interleave(c, first, more, n, tail, over=7):
    """Reading one by one and iterating, in any order, visits each object once."""
    recs = [any_record(c, f"o{i}", "CanMessage" if i == 1 else "raw", lo=20) for i in range(n)]
    stream = c.concat(*[x[0] for x in recs])
    cut = recs[0][2] + over
    inner, outer = ending(c, tail)
    data = c.concat(file_header(c, 0), pack_container(c, "c0", c.sub(stream, 0, cut), 0),
                    pack_container(c, "c1", c.concat(c.sub(stream, cut, len(stream)), inner), 0), outer)
    objs = [x[1] for x in recs]
    r = BlfReader(c.memfile(data))
    its = {}
    pos = 0
    for i in range(len(first) + more):
        op = first[i] if i < len(first) else c.choice(f"op{i}", OPS)
        if op == "iter":
            its = {"a": iter(r), "b": iter(r)}
            continue
        if op == "read":
            got = r.read_object()
        elif op == "loop":
            got = None
            for got in r:  # noqa: B007
                break
        else:
            k = op[-1]
            if k not in its:
                its[k] = iter(r)
            got = next(its[k], None)
        if pos < n:
            c.check(got is not None, "an object is returned")
            c.check(c.eq(got, objs[pos]), "each object once, in order")
            pos += 1
        else:
            c.check(got is None, "nothing after the last object")
    if pos < n:
        c.cover("in between")
    rest = list(r)
    c.check(len(rest) == n - pos, "an iteration visits the rest")
    for o in rest:
        c.check(c.eq(o, objs[pos]), "each object once, in order")
        pos += 1
    c.check(r.read_object() is None, "the end stays the end")
    c.check(r.read_object() is None, "the end stays the end")
    c.check(list(r) == [], "iterations at the end are empty")
    for it in its.values():
        c.check(next(it, None) is None, "iterators end with the log")
    c.cover("drained")


@harness("C18", quick=[{"kind": "writer", "tail": t, "disk": True} for t in ENDINGS] + [{"kind": k, "tail": t} for k in ("writer", "empty", "with") for t in ENDINGS],
         bounds="logs made by a writer with any buffer size, objects of any size; ending cleanly, in debris or in part of an object",
         covers=("drained",))
def iterate(c, kind, tail, disk=False):
    """Iterating visits every object once; iterating again visits nothing."""
    f = c.memfile()
    bs = c.length("bs", 16, MAXLEN)
    w = BlfWriter(f, 0, bs)
    things = [] if kind == "empty" else [raw_object(c, f"o{i}", r) for i, r in enumerate((0, 3))]
    few_containers(c, bs, [s for _, s in things], 2)
    for o, _s in things:
        w.write(o)
    w.close()
    inner, outer = ending(c, tail)
    data = c.content(f)
    if tail == "carried":
        inner = pack_container(c, "last", inner, 0)
    r = opened(c, c.concat(data, inner, outer), disk)
    if kind == "with":
        with r as x:
            got = [o for o in x]
            again = [o for o in x]
    else:
        got = [o for o in r]
        again = [o for o in r]
    c.check(len(got) == len(things), "every object once")
    for a, (b, _s) in zip(got, things):
        c.check(c.eq(a, b), "in order")
    c.check(again == [], "a second iteration is empty")
    if kind != "with":
        for _ in range(3):
            c.check(r.read_object() is None, "the end stays the end")
        c.check(list(r) == [], "a third iteration is empty")
    c.cover("drained")


# --------------------------------------------------------------------------- C19


def debris(c, name, n):
    """n bytes without the object signature."""
    b = c.bytes(name, n)
    for i in range(n - 3):
        c.assume(c.neg(c.eq(c.sub(b, i, i + 4), b"LOBJ")))
    return b


PLACES = ("file", "between", "behind", "inside", "inside front", "inside behind", "carried", "direct")


@harness("C19", quick=[{"place": p, "n": n, "disk": True} for p, n in (("file", 9), ("between", 6), ("carried", 11), ("direct", 7))] + [{"place": p, "n": n} for p in PLACES for n in (1, 3, 4, 9)] + [{"place": "between", "n": 14}, {"place": "inside", "n": 14},
                                                                                  {"place": "carried", "n": 2}],
         thorough=[{"place": p, "n": n} for p in PLACES for n in (*range(1, 13), 17, 24, 40)],
         bounds="1-14 (thorough up to 40) bytes of any content without the signature, before, between and behind containers and objects; objects "
         "of any size", covers=("skipped",))
def skip(c, place, n, disk=False):
    """Bytes between objects are skipped."""
    a, oa, na = any_record(c, "a", "raw")
    b, ob, nb = any_record(c, "b", "CanMessage" if n % 2 else "raw")
    d = debris(c, "debris", n)
    e = debris(c, "debris2", 3)
    objs = [oa, ob]
    h = file_header(c, 0)
    con = lambda k, *x: pack_container(c, k, c.concat(*x), 0)  # noqa: E731
    if place == "file":
        parts = [h, d, con("c0", a), e, con("c1", b)]
    elif place == "between":
        parts = [h, con("c0", a), d, con("c1", b)]
    elif place == "behind":
        parts = [h, con("c0", a, b), d]
    elif place == "inside":
        parts = [h, con("c0", a, d, b)]
    elif place == "inside front":
        parts = [h, con("c0", d, a), con("c1", b)]
    elif place == "inside behind":
        parts = [h, con("c0", a, b, d)]
    elif place == "carried":
        parts = [h, con("c0", a, d), e, con("c1", b)]
    else:
        parts = [h, d, a, e, b]
    r = opened(c, c.concat(*parts), disk)
    expect(c, r, objs, "debris")
    c.cover("skipped")


LONG = [{"base": b, "hi": 12, "where": w} for b in (52, 116, 244, 504, 1016) for w in ("file", "container")]
LONGER = [{"base": b, "hi": 6, "where": w} for b in (2042, 4090, 8186) for w in ("file", "container")]
LONGEST = [{"base": b, "hi": 3, "where": w} for b in (16382, 32766, 65534) for w in ("file", "container")]
FILLED = [{"base": b, "hi": 6, "where": w, "fill": x} for b, w in ((60, "file"), (508, "container"), (1020, "file"), (4090, "container"))
          for x in ("LOB", "OBJL\0LO", "\xffLLO")]


@harness("C19", quick=[{"base": b, "hi": 6, "where": "file", "disk": True} for b in (0, 8186)] + [{"hi": 24, "where": w} for w in ("file", "container")] + LONG + LONGER + FILLED,
         thorough=[{"hi": 100, "where": w} for w in ("file", "container")] + LONG + LONGER + FILLED + LONGEST,
         bounds="0-24 (100) zero bytes between two objects of any size, and windows of 4-13 lengths around powers of two up to 8192 (65536); "
         "also up to 4096 bytes made of parts of the signature", covers=("skipped",))
def padding(c, hi, where, base=0, fill="\0", disk=False):
    """Padding of any length is skipped."""
    a, oa, na = any_record(c, "a", "raw")
    b, ob, nb = any_record(c, "b", "raw")
    pad = c.sub(fill.encode("latin-1") * (base + hi), 0, base + c.length("pad", 0, hi))
    h = file_header(c, 0)
    if where == "file":
        data = c.concat(h, pack_container(c, "c0", a, 0), pad, pack_container(c, "c1", b, 0))
    else:
        data = c.concat(h, pack_container(c, "c0", c.concat(a, pad, b), 0))
    expect(c, opened(c, data, disk), [oa, ob], "padding")
    c.cover("skipped")


# --------------------------------------------------------------------------- C20

SOME_TYPES = (36, 3, 0xFFFFFFFF)


def few_types(c, data, n, types=SOME_TYPES):
    """Limits the type numbers behind signatures to a few (the others are C14's subject)."""
    for p in range(n - 15):
        t = c.le_int(data, p + 12, 4)
        c.assume(c.any([c.neg(c.eq(c.sub(data, p, p + 4), b"LOBJ")), *[t == x for x in types]]))


def drain(c, r, stream, n, msg, most=4):
    """Reads to the end; every object must be decoded from its declared bytes at a signature, in order, without overlap."""
    pos = 0
    for _ in range(most):
        got, exc = c.attempt(r.read_object)
        if exc is not None:
            c.cover("error")
            return
        if got is None:
            c.check(c.attempt(r.read_object)[0] is None, f"{msg}: the end stays the end")
            c.cover("end")
            return
        c.cover("object")
        found = False
        for p in range(n - 15):
            if p < pos:
                continue
            if not c.eq(c.sub(stream, p, p + 4), b"LOBJ"):
                continue
            size = c.le_int(stream, p + 8, 4)
            if size < 16 or p + size > n:
                continue
            if c.eq(got, type(got).unpack(c.sub(stream, p, p + size))):
                found = True
                pos = p + size
                break
        c.check(found, f"{msg}: an object is decoded from its declared bytes at a signature behind the object before")
    c.check(False, f"{msg}: more objects than fit into the data")


@harness("C20", quick=[{"n": 20, "disk": True}] + [{"n": n} for n in (15, 16, 20, 24, 28)], thorough=[{"n": n} for n in (15, 16, 17, 20, 24, 28, 32, 36, 40, 44, 48)],
         bounds="every content of 15-28 (48) bytes behind a valid header, type numbers limited to 3 representatives", covers=("end", "object"))
def anything(c, n, disk=False):
    """Arbitrary bytes behind the header."""
    data = c.bytes("data", n)
    few_types(c, data, n)
    r = opened(c, c.concat(file_header(c, 0), data), disk)
    drain(c, r, data, n, "arbitrary data")


@harness("C20", quick=[{"n": a, "m": b, "level": 0} for a, b in ((16, 0), (20, 6), (24, 1), (9, 18), (3, 20))] +
         [{"n": a, "m": b, "level": 6} for a, b in ((0, 20), (16, 9))],
         thorough=[{"n": a, "m": b, "level": lv} for a, b in ((16, 0), (20, 6), (24, 1), (9, 18), (3, 20), (18, 18), (32, 3), (1, 34), (14, 14)) for lv in (0, 6)],
         bounds="every content of two containers of together up to 27 (36) bytes, type numbers limited to 3 representatives", covers=("end", "object"))
def contained(c, n, m, level, disk=False):
    """Arbitrary bytes in containers."""
    a, b = c.bytes("a", n), c.bytes("b", m)
    stream = c.concat(a, b)
    few_types(c, stream, n + m)
    c.zlib_residues([3, 5])
    r = opened(c, c.concat(file_header(c, level), pack_container(c, "c0", a, level), pack_container(c, "c1", b, level)), disk)
    drain(c, r, stream, n + m, "arbitrary container")


@harness("C20", quick=[{"junk": 1, "n": 15, "disk": True}] + [{"junk": j, "n": n} for j, n in ((0, 16), (0, 15), (1, 15), (3, 13))],
         thorough=[{"junk": j, "n": n} for j in (0, 1, 2, 3, 5) for n in (13, 14, 15, 16, 18)],
         bounds="an object of any size and content, 0-3 (5) arbitrary bytes, the end of the container, 13-16 (18) arbitrary bytes in the next; "
         "type numbers limited to 3 representatives", covers=("end", "object"))
def behind(c, junk, n, disk=False):
    """What follows an object at the end of a container never takes bytes of that object."""
    rec, obj, _ = any_record(c, "o", "raw")
    a, b = c.bytes("a", junk), c.bytes("b", n)
    rest = c.concat(a, b)
    few_types(c, rest, junk + n)
    r = opened(c, c.concat(file_header(c, 0), pack_container(c, "c0", c.concat(rec, a), 0), pack_container(c, "c1", b, 0)), disk)
    c.check(c.eq(r.read_object(), obj), "the first object is unchanged")
    drain(c, r, rest, junk + n, "behind an object")


@harness("C20", quick=[{"where": w, "next_": k, "gap": g} for w in ("file", "container", "nested") for k, g in (("raw", 0), ("CanMessage", 2), ("raw", 1))],
         thorough=[{"where": w, "next_": k, "gap": g} for w in ("file", "container", "nested") for k in ("raw", "CanMessage", "AppText") for g in (0, 1, 2, 5, 12)],
         bounds="a header declaring 0-15 bytes (any other header content, 0-2 (12) bytes behind it), then an object of any size", covers=("found",))
def undersized(c, where, next_, gap):
    """A declared size below the header swallows no following object."""
    small = c.int("declared", 0, 15)
    bad = c.concat(b"LOBJ", c.bytes("bad.h", 4), c.le_bytes(small, 4), c.bytes("bad.t", 4), c.bytes("gap", gap))
    c.assume(c.all([c.neg(c.eq(c.sub(bad, i, i + 4), b"LOBJ")) for i in range(1, 13 + gap)]))
    rec, obj, n = any_record(c, "o", next_)
    body = c.concat(bad, rec)
    h = file_header(c, 0)
    if where == "file":
        data = c.concat(h, body)
    elif where == "container":
        data = c.concat(h, pack_container(c, "c0", body, 0))
    else:
        data = c.concat(h, pack_container(c, "c0", pack_container(c, "c1", body, 0), 0))
    r = BlfReader(c.memfile(data))
    got = r.read_object()
    c.check(got is not None, "the following object is found")
    c.check(c.eq(got, obj), "the following object is unchanged")
    c.check(r.read_object() is None, "nothing is invented")
    c.cover("found")


@harness("C20", quick=[{"t": t} for t in (1, 3, 10, 36, 65, 100, 101)], thorough=[{"t": t} for t in (1, 2, 3, 4, 5, 6, 10, 11, 31, 36, 51, 57, 65, 66, 72, 86, 92, 96, 100, 101, 104, 119, 120, 124, 128)],
         bounds="a header of the type with any declared size 0..2**32-1 and any 32 bytes behind it, then the end of the file", covers=("tried",))
def declared(c, t):
    """Any declared size of any type: bytes beyond it are never used."""
    size = c.u32("size")
    rest = c.bytes("rest", 32)
    few_types(c, rest, 32, (36,))
    data = c.concat(b"LOBJ", c.bytes("h", 4), c.le_bytes(size, 4), c.le_bytes(t, 4), rest)
    c.assume(c.all([c.neg(c.eq(c.sub(data, i, i + 4), b"LOBJ")) for i in range(1, 45)]))
    r = BlfReader(c.memfile(c.concat(file_header(c, 0), data)))
    got, exc = c.attempt(r.read_object)
    if got is not None:
        c.check(c.all(16 <= size, size <= 48), "an object is complete in the file")
        c.check(c.eq(got, type(got).unpack(c.sub(data, 0, size))), "an object is decoded from its declared bytes")
        c.check(c.attempt(r.read_object)[0] is None, "nothing else is invented")
    c.cover("tried")


@harness("C20", quick=[{"n": n} for n in (0, 20)], thorough=[{"n": n} for n in (0, 1, 4, 16, 20, 24)],
         bounds="compressed containers with any content: any failure or any result of up to 20 (24) bytes of the decompression", covers=("end", "object"))
def inflated(c, n):
    """A container whose compressed data is anything."""
    body = c.bytes("body", n)
    c.inflate_max(20)
    data = c.concat(file_header(c, 6), b"LOBJ", c.bytes("h", 4), c.le_bytes(32 + n, 4), c.le_bytes(10, 4), c.bytes("h2", 16), body)
    raw, exc = c.attempt(zlib.decompress, body)
    r = BlfReader(c.memfile(data))
    if exc is not None:
        got, e2 = c.attempt(r.read_object)
        c.check(got is None, "nothing is read from broken data")
        c.cover("end")
        return
    k = c.choice("length", list(range(0, 21)))
    c.assume(len(raw) == k)
    few_types(c, raw, k)
    drain(c, r, raw, k, "arbitrary compressed data")
