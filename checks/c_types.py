"""What holds for logs holds for objects of every type: supported types one by one, unknown ones by their number."""
import logging

from checks.api import harness
from checks.c_files import container_bodies, only_objects
from checks.c_headers import file_header
from checks.c_log import bufsize, check_counts, containers, few_containers, raw_bytes, raw_object, read_all, symsize, thing
from checks.c_reader import any_record, debris, pack_container
from checks.layout import BY_NAME, SUPPORTED, TYPES
from checks.lib import Narrow, object_, record
from vblf.constants import Compression
from vblf.reader import BlfReader
from vblf.writer import BlfWriter


def handed_over(c, f, level, bs, total):
    held = 0
    for p in containers(c, c.content(f), level)[0]:
        c.check(len(p) <= bs, "a container holds at most a buffer")
        held = held + len(p)
    c.check(total - held < bs, "less than a buffer is missing from the file")


@harness("C01", "C04", "C05", "C07", "C23", quick=[{"spec": n, "rb": (3 * i + 1) % 8} for i, n in enumerate(TYPES)],
         thorough=[{"spec": n, "rb": r} for i, n in enumerate(TYPES) for r in (i % 8, (i + 3) % 8, (i + 6) % 8)],
         bounds="three objects of each type (the third is the first again), a rejected one between them, any field values, an opaque object of "
         "any size, any buffer size with at most 2 containers, levels 0-9", covers=("read back",))
def every_type(c, spec, rb):
    """Objects of each type are taken, refused, handed over, counted and read back alike."""
    bs = bufsize(c, rb)
    level = c.int("level", 0, 9)
    c.zlib_residues([3, 0, 6])
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    s = BY_NAME[spec]
    a, ea, _ = object_(Narrow(c), s, "a.", maxlen=0)
    bad, ebad, _ = object_(Narrow(c), s, "bad.", maxlen=0)
    b, eb, _ = object_(Narrow(c), s, "b.", maxlen=0)
    d = bad.header.base.object_size = c.u32("declared")
    # bytes may follow the content of some types, and some may end early
    c.assume(d < (s.size if s.rule else len(ebad)) if s.var or s.tail or s.rule else c.neg(c.eq(d, len(ebad))))
    things = [(a, len(ea)), (b, len(eb)), (a, len(ea)), raw_object(c, "raw", 5)]
    rest = things[-1][0].pack()
    few_containers(c, bs, [n for _, n in things], 2)
    total = 0
    for i, (obj, size) in enumerate(things):
        w.write(obj)
        total = total + size
        handed_over(c, f, level, bs, total)
        if i == 0:
            _, got = c.attempt_any(w.write, bad)
            c.check(got is not None, "a wrong declared size is refused")
    w.close()
    data = c.content(f)
    only_objects(c, c.concat(*container_bodies(c, data, level)), [ea, eb, ea, rest])
    r = read_all(c, data, things, "objects of one type")
    check_counts(c, r.file_statistics, data, level, [n for _, n in things], "objects of one type")
    c.cover("read back")


@harness("C01", "C04", "C07", "C14", "C23", quick=[{"rb": 0}, {"rb": 3}], thorough=[{"rb": r} for r in range(8)],
         bounds="two objects of any size and content, of any type number (0..2**32-1) the library has no class for, any buffer size with at most "
         "2 containers, levels 0-9", covers=("read back",))
def any_code(c, rb):
    """Objects of every unknown type number are taken, handed over, counted and read back alike."""
    bs = bufsize(c, rb)
    level = c.int("level", 0, 9)
    c.zlib_residues([3, 0, 6])
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    t = c.u32("type")
    for x in SUPPORTED:
        c.assume(c.neg(c.eq(t, x)))
    things = [raw_object(c, "a", 3, t), raw_object(c, "b", 0, t)]
    records = [o.pack() for o, _ in things]
    few_containers(c, bs, [s for _, s in things], 2)
    total = 0
    for obj, size in things:
        w.write(obj)
        total = total + size
        handed_over(c, f, level, bs, total)
    w.close()
    data = c.content(f)
    only_objects(c, c.concat(*container_bodies(c, data, level)), records)
    r = read_all(c, data, things, "objects of any type number")
    check_counts(c, r.file_statistics, data, level, [s for _, s in things], "objects of any type number")
    c.cover("read back")


@harness("C18", quick=[{"spec": n, "how": i % 4} for i, n in enumerate(TYPES)], thorough=[{"spec": n, "how": h} for n in TYPES for h in range(4)],
         bounds="two objects of each type around an opaque one of any size, in two containers cut within the first; four orders of reading",
         covers=("drained",))
def every_type_visited(c, spec, how):
    """Objects of each type are visited once, however the log is read."""
    recs = [any_record(c, "a", spec), any_record(c, "b", "raw"), any_record(c, "c", spec)]
    stream = c.concat(*[x[0] for x in recs])
    cut = recs[0][2] - 5
    r = BlfReader(c.memfile(c.concat(file_header(c, 0), pack_container(c, "c0", c.sub(stream, 0, cut), 0),
                                     pack_container(c, "c1", c.sub(stream, cut, len(stream)), 0))))
    if how == 0:
        got = list(r)
    elif how == 1:
        got = [r.read_object(), *r]
    elif how == 2:
        i, j = iter(r), iter(r)
        got = [next(i), next(j), r.read_object()]
    else:
        got = []
        for _ in range(3):
            for o in r:
                got.append(o)
                break
    c.check(len(got) == 3, "every object once")
    for g, (_rec, o, _n) in zip(got, recs):
        c.check(g is not None, "every object is returned")
        c.check(c.eq(g, o), "in order")
    c.check(r.read_object() is None, "then the end")
    c.check(list(r) == [], "and nothing more")
    c.cover("drained")


@harness("C19", quick=[{"spec": n, "n": (1, 3, 4, 7)[i % 4], "place": i % 3} for i, n in enumerate(TYPES)],
         thorough=[{"spec": n, "n": m, "place": p} for n in TYPES for m in (1, 4, 9) for p in range(3)],
         bounds="1-7 (9) bytes without the signature around two objects of each type, in a container, between containers or between objects "
         "outside containers", covers=("skipped",))
def debris_around(c, spec, n, place):
    """Bytes around objects of each type are skipped."""
    a, oa, _ = any_record(c, "a", spec)
    b, ob, _ = any_record(c, "b", spec)
    d = debris(c, "debris", n)
    e = debris(c, "debris2", 3)
    h = file_header(c, 0)
    if place == 0:
        data = c.concat(h, pack_container(c, "c0", c.concat(d, a, e, b), 0))
    elif place == 1:
        data = c.concat(h, d, pack_container(c, "c0", a, 0), e, pack_container(c, "c1", b, 0))
    else:
        data = c.concat(h, a, d, b, e)
    r = BlfReader(c.memfile(data))
    for o in (oa, ob):
        got = r.read_object()
        c.check(got is not None, "an object beside other bytes is found")
        c.check(c.eq(got, o), "an object beside other bytes is unchanged")
    c.check(r.read_object() is None, "nothing else is found")
    c.cover("skipped")


@harness("C26", quick=[{"kind": n, "src": (0, 6)[i % 2], "how": i % 2, "rb": (3 * i + 1) % 8, "cut": (i % 6, (i + 4) % 6)} for i, n in enumerate((*TYPES, "raw"))],
         thorough=[{"kind": n, "src": v, "how": h, "rb": (3 * i + v) % 8, "cut": (x, x + 1)} for i, n in enumerate((*TYPES, "raw")) for v in (0, 6) for h in (0, 1) for x in (0, 2, 4)],
         bounds="a log of an opaque object, a record of each type (opaque ones of any size and any unknown type number) with any values, cut into two containers at one of six "
         "places, and an object outside any container; any level and any buffer size with at most 2 containers for the copy", covers=("copied",))
def copied(c, kind, src, how, rb, cut):
    """A log of any tool, copied object by object."""
    c.zlib_residues([3, 0, 6, 1])
    na, nd = 43, 24
    ra, rd = raw_bytes(c, "a", na), raw_bytes(c, "d", nd)
    if kind == "raw":
        nk = symsize(c, "k.size", rb, 2)
        t = c.u32("k.type")
        for x in SUPPORTED:
            c.assume(c.neg(c.eq(t, x)))
        rk = raw_bytes(c, "k", nk, t)
    else:
        rk, _, nk = any_record(c, "k", kind)
    stream = c.concat(ra, c.zeros(3), rk)
    n = na + 3 + nk
    cut = c.choice("cut", [(0, 20, na + 1, na + 7, na + 20, n)[x] for x in cut])
    c.assume(cut <= n)
    log = c.concat(file_header(c, src), pack_container(c, "c0", c.sub(stream, 0, cut), src), pack_container(c, "c1", c.sub(stream, cut, n), src), rd)
    bs = bufsize(c, rb)
    level = c.int("level", 0, 9)
    few_containers(c, bs, [na, nk, nd], 2)
    f = c.memfile()
    source = c.memfile(log)
    with BlfReader(source) as r, BlfWriter(f, level, bs) as w:
        if how:
            for o in r:
                w.write(o)
        else:
            for o in list(r):
                w.write(o)
    data = c.content(f)
    records = [ra, rk, rd]
    only_objects(c, c.concat(*container_bodies(c, data, level)), records)
    again = BlfReader(c.memfile(data))
    check_counts(c, again.file_statistics, data, level, [na, nk, nd], "a copied log")
    for rec in records:
        got = again.read_object()
        c.check(got is not None, "every object is copied")
        c.check(c.eq(got.pack(), rec), "every object is copied byte for byte")
    c.check(again.read_object() is None, "nothing else is copied")
    c.check(c.eq(c.content(source), log), "the source is left alone")
    c.cover("copied")


@harness("C01", "C10", quick=[{"spec": n, "rb": (5 * i + 2) % 8} for i, n in enumerate(TYPES)],
         bounds="an object of each type with any values, its type, flags and enumerations given as plain numbers, any buffer size with at most 3 "
         "containers, any level", covers=("read back",))
def plain_numbers(c, spec, rb):
    """Types, flags and enumerations may be given as plain numbers."""
    s = BY_NAME[spec]
    rec, _ = record(Narrow(c), s, "a.", maxlen=0)
    obj, same = s.cls.unpack(rec), s.cls.unpack(rec)
    for path in ["header.base.object_type", *(a for a, _, _, k in (*s.header, *s.fixed) if isinstance(k, type))]:
        owner = obj
        *way, last = path.split(".")
        for part in way:
            owner = getattr(owner, part)
        if "[" not in last:
            setattr(owner, last, int(getattr(owner, last)))
    c.check(c.eq(obj.pack(), rec), "plain numbers are encoded like the members they stand for")
    bs = bufsize(c, rb)
    few_containers(c, bs, [len(rec)], 3)
    level = c.int("level", 0, 9)
    c.zlib_residues([3, 0, 6])
    f = c.memfile()
    with BlfWriter(f, level, bs) as w:
        w.write(obj)
    r = read_all(c, c.content(f), [(same, len(rec))], "an object with plain numbers")
    check_counts(c, r.file_statistics, c.content(f), level, [len(rec)], "an object with plain numbers")
    c.cover("read back")


@harness("C04", "C23", quick=[{"how": h} for h in range(4)], bounds="levels 0-9 as numbers and the members of Compression, by position, by name and left out; "
         "an opaque object of any size, any buffer size with at most 2 containers", covers=("read back",))
def given_level(c, how):
    """A compression level is a number or one of the named ones."""
    bs = bufsize(c, 3)
    c.zlib_residues([2, 5])
    obj, n = raw_object(c, "o", 3)
    few_containers(c, bs, [n], 2)
    level = c.choice("level", list(Compression)) if how < 2 else c.int("number", 0, 9)
    f = c.memfile()
    if how == 0:
        w = BlfWriter(f, level, bs)
    elif how == 1:
        w = BlfWriter(f, compression_level=level, buffer_size=bs)
    elif how == 2:
        w = BlfWriter(f, buffer_size=bs, compression_level=level)
    else:
        level = 0
        w = BlfWriter(f, buffer_size=bs)
    w.write(obj)
    w.close()
    data = c.content(f)
    only_objects(c, c.concat(*container_bodies(c, data, level)), [obj.pack()])
    r = read_all(c, data, [(obj, n)], "a level")
    check_counts(c, r.file_statistics, data, level, [n], "a level")
    c.cover("read back")


@harness("C01", "C18", "C20", quick=[{"kinds": k, "level": v} for k, v in (((3, 0), 0), (("AppText", 5), 6))],
         thorough=[{"kinds": k, "level": v} for k in ((3, 0), ("AppText", 5), (2, "CanFdMessage64"), (7, 1)) for v in (0, 6)],
         bounds="two objects of any size, any buffer size with at most 2 containers, then an incomplete object and 0-3 bytes of debris, with the "
         "library's log messages of every severity switched on", covers=("read back",))
def watched(c, kinds, level):
    """Looking at the library's log messages changes nothing."""
    logger = logging.getLogger("vblf")
    before = logger.level, logger.propagate
    logger.setLevel(1)
    logger.propagate = False
    logger.addHandler(quiet := logging.NullHandler())
    try:
        bs = bufsize(c, 3)
        c.zlib_residues([2, 5])
        things = [raw_object(c, f"o{i}", k) if isinstance(k, int) else thing(c, f"o{i}", k) for i, k in enumerate(kinds)]
        few_containers(c, bs, [n for _, n in things], 2)
        f = c.memfile()
        with BlfWriter(f, level, bs) as w:
            for obj, _n in things:
                w.write(obj)
        data = c.content(f)
        check_counts(c, BlfReader(c.memfile(data)).file_statistics, data, level, [n for _, n in things], "with log messages")
        tail = c.choice("tail", [0, 17, 30])
        r = BlfReader(c.memfile(c.concat(data, debris(c, "debris", 3), c.sub(raw_bytes(c, "cut", 40), 0, tail))))
        found = [r.read_object(), *r] if c.bool("single") else list(r)
        c.check(len(found) == len(things), "every object once")
        for (obj, _n), got in zip(things, found):
            c.check(got is not None, "every object is found")
            c.check(c.eq(got, obj), "every object is unchanged")
        c.check(r.read_object() is None, "and nothing else")
        c.check(list(r) == [], "and nothing else")
        c.cover("read back")
    finally:
        logger.removeHandler(quiet)
        logger.setLevel(before[0])
        logger.propagate = before[1]
