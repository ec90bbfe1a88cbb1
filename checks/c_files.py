"""The files themselves: framing of written logs, and the ways of naming a file (C23, C24)."""
import os
import pathlib
import zlib

from checks.api import harness
from checks.c_log import (BOUNDS, HEADER, NONE, QUICK1, QUICK2, QUICK3, TYPED, bufsize, check_counts, few_containers, raw_bytes, raw_object, thing, write_all)
from vblf.general import NotImplementedObject
from vblf.reader import BlfReader
from vblf.writer import BlfWriter


def container_bodies(c, data, level):
    """The contents of the containers, each checked for its form."""
    n = len(data)
    p = HEADER
    contents = []
    while p < n:
        gap = (-p) % 8
        c.check(p + gap + 32 <= n, "the file ends with a container")
        c.check(c.eq(c.sub(data, p, p + gap), c.zeros(gap)), "only zeros are left out to reach a multiple of 8")
        p = p + gap
        c.check(c.eq(c.sub(data, p, p + 8), b"LOBJ\x20\x00\x01\x00"), "signature, header size and version of a container")
        size = c.le_int(data, p + 8, 4)
        c.check(c.all(size > 32, p + size <= n), "a container lies within the file and is not empty")
        c.check(c.eq(c.le_int(data, p + 12, 4), 10), "the type of a container")
        c.check(c.eq(c.le_int(data, p + 16, 4), 2), "stamped in nanoseconds")
        c.check(c.eq(c.le_int(data, p + 20, 4), 0), "client index and object version of a container")
        body = c.sub(data, p + 32, p + size)
        if level > 0:
            part = zlib.decompress(body)
            c.check(c.made_with(body, level), "compressed with the level asked for")
            c.cover("compressed")
        else:
            part = body
            c.cover("plain")
        c.check(len(part) > 0, "a container holds data")
        contents.append(part)
        p = p + size
    c.check(c.eq(p, n), "nothing behind the last container")
    return contents


def only_objects(c, stream, records):
    """The stream holds the records with zeros between them, and nothing else."""
    held = len(stream)
    pos = 0
    for rec in records:
        gap = 0
        while pos + 4 <= held and not c.eq(c.sub(stream, pos, pos + 4), b"LOBJ"):
            c.check(gap < 7, "objects are separated by less than 8 bytes")
            c.check(c.eq(c.sub(stream, pos, pos + 1), b"\0"), "objects are separated by zeros")
            pos = pos + 1
            gap += 1
        end = pos + len(rec)
        c.check(end <= held, "every object is complete")
        c.check(c.eq(c.sub(stream, pos, end), rec), "every object in its encoding")
        pos = end
    c.check(c.eq(pos, held), "nothing behind the last object")


@harness("C23", quick=NONE + QUICK1[:6] + QUICK2[:4] + QUICK3[:3] + TYPED[:3], thorough=lambda: NONE + QUICK1 + QUICK2 + QUICK3 + TYPED,
         bounds=BOUNDS, covers=("plain", "compressed", "several containers"))
def framing(c, kinds, rb, zr, most):
    """Behind its header a closed log is nothing but well-formed containers, and they hold nothing but the objects."""
    bs = bufsize(c, rb)
    level = c.int("level", 0, 9)
    c.zlib_residues(zr)
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    things = [thing(c, f"o{i}", k) for i, k in enumerate(kinds)]
    few_containers(c, bs, [s for _, s in things], most)
    records = [obj.pack() for obj, _s in things]
    write_all(c, w, things)
    w.close()
    data = c.content(f)
    contents = container_bodies(c, data, level)
    if len(contents) > 1:
        c.cover("several containers")
    only_objects(c, c.concat(*contents), records)


@harness("C23", "C04", quick=[{"n": 66000, "per": 2000}], thorough=[{"n": 66000, "per": 2000}, {"n": 70000, "per": 20000}],
         bounds="66000 (70000) equal objects of 16 bytes and one of any content in containers of 2000-2001 (20000-20001)", covers=("plain",))
def thousands(c, n, per):
    """Numbers of objects beyond 16 bits."""
    f = c.memfile()
    w = BlfWriter(f, 0, c.length("buf", per, per + 1) * 16)
    same = NotImplementedObject.unpack(b"LOBJ\x10\0\1\0\x10\0\0\0\x4d\0\0\0")
    for _ in range(n - 1):
        w.write(same)
    obj = NotImplementedObject.unpack(raw_bytes(c, "o", 16))
    w.write(obj)
    w.close()
    data = c.content(f)
    check_counts(c, BlfReader(c.memfile(data)).file_statistics, data, 0, [16] * n, "after close")
    got = container_bodies(c, data, 0)
    c.check(sum([len(x) for x in got]) == 16 * n, "the containers hold all objects")
    c.check(c.eq(c.sub(got[-1], len(got[-1]) - 16, len(got[-1])), obj.pack()), "the last of them at the end")


class Named:
    """A path-like object."""

    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        return self.path


class Wrapped:
    """A binary file object that is none of the library's classes."""

    def __init__(self, f):
        self._f = f

    def __getattr__(self, name):
        return getattr(self._f, name)


MODES = ("opened", "update")
WAYS = ("str", "bytes", "path", "pathlike", "object", "wrapped")


def by_name(path, way):
    return {"str": path, "bytes": os.fsencode(path) if way == "bytes" else None, "path": pathlib.Path(path) if way == "path" else None,
            "pathlike": Named(path)}[way]


NAMES = ("out.blf", "log", "Two words.BLF", "r\u00e4ume.blf", "a.b.c", "$HOME.log", ".hidden", "x.blf.gz", "%d {0}.asc",
         "~/#.blf", "-", "~#", "#/../#.blf", "file:#.blf", "a#*?.blf", " # ", "@#|&;.blf")


def named(c, use, name, content=None):
    """A file name: in the scratch directory, or (with # for the use, or a dash) relative to it."""
    if "#" in name or name == "-":
        return c.path(name.replace("#", use), content, True)
    return c.path(use + " " + name, content)


@harness("C24", quick=[{"out": o, "into": i, "k": k, "name": ""} for o, i, k in (("opened", "opened", 0), ("update", "update", 3), ("str", "update", 1), ("opened", "path", 2))] +
         [{"out": o, "into": WAYS[(i + 1 + k) % 6], "k": (i + k) % 5, "name": NAMES[(5 * i + 3 * k) % 17]} for i, o in enumerate(WAYS) for k in (0, 3)],
         thorough=[{"out": o, "into": w, "k": k, "name": NAMES[(2 * i + j + k) % 17]} for i, o in enumerate(WAYS) for j, w in enumerate(WAYS) for k in (0, 3)],
         bounds="0-2 objects of any size, any level, any buffer size with at most 2 containers; str, bytes, pathlib and path-like names, "
         "memory files, open files and foreign file objects; 17 kinds of names, with and without ending, absolute and relative, of missing and of existing files with any content of up to 2**24 bytes", covers=("read",))
def any_file(c, out, into, k, name):
    """However the file is given, the log is the same, and reading leaves it alone."""
    bs = bufsize(c, k)
    level = c.int("level", 0, 9)
    c.zlib_residues([1, 4, 1, 4])
    c.zlib_same()
    things = [thing(c, f"o{i}", x) for i, x in enumerate(((), (3,), (0, 5), ("CanMessage",), (7, 2))[k])]
    few_containers(c, bs, [s for _, s in things], 2)
    ref = c.memfile()
    with BlfWriter(ref, level, bs) as w:
        write_all(c, w, things)
    want = c.content(ref)
    g = p = None
    if out in ("object", "wrapped"):
        g = c.memfile()
        target = g if out == "object" else Wrapped(g)
    elif out in MODES:
        p = c.path("out.blf", c.zeros(3) if out == "update" else None)
        target = open(p, "r+b" if out == "update" else "wb")
        target.truncate(0)
    else:
        old = c.bytes("old", c.length("old length", 0, 1 << 24)) if c.bool("exists") else None
        p = named(c, "out", name, old)
        target = by_name(p, out)
    w = BlfWriter(target, level, bs)
    write_all(c, w, things)
    w.close()
    data = c.content(g) if g is not None else c.disk(p)
    c.check(c.eq(len(data), len(want)), "the same length however the file is given")
    for a, b in ((0, 40), (72, len(want))):  # without the clock readings of the file header
        c.check(c.eq(c.sub(data, a, b), c.sub(want, a, b)), "the same bytes however the file is given")
    if g is not None:
        c.check(c.is_closed(g), "closed")
    else:
        c.check(c.handles(p) == 0, "closed")
    h = None
    if into in ("object", "wrapped"):
        h = c.memfile(data)
        source = h if into == "object" else Wrapped(h)
    elif into in MODES:
        q = c.path("in.blf", data)
        source = open(q, "r+b" if into == "update" else "rb")
    else:
        q = named(c, "in", name, data)
        source = by_name(q, into)
    with BlfReader(source) as r:
        for obj, _s in things:
            got = r.read_object()
            c.check(got is not None, "every object is found")
            c.check(c.eq(got, obj), "every object is unchanged")
        c.check(r.read_object() is None, "nothing else is found")
    if h is not None:
        c.check(c.is_closed(h), "closed")
        c.check(c.eq(c.content(h), data), "reading leaves the file alone")
        c.check(c.log(h) == [], "reading writes nothing")
    else:
        c.check(c.handles(q) == 0, "closed")
        c.check(c.eq(c.disk(q), data), "reading leaves the file alone")
    c.cover("read")


@harness("C01", "C04", "C23", quick=[{"kinds": k, "level": v, "into": i} for k, v, i in (
    ((), 0, "path"), ((3,), 6, "object"), ((0, 5), 0, "str"), (("AppText", 1), 9, "bytes"), ((0, "CanFdMessage64"), 0, "path"))],
         thorough=[{"kinds": k, "level": v, "into": i} for k in ((), (3,), (0, 5), ("AppText", 1), (0, "CanFdMessage64")) for v in (0, 6) for i in WAYS],
         bounds="0-2 objects of any size in a named file, any buffer size with at most 2 containers, levels 0, 6 and 9", covers=("read back",))
def on_disk(c, kinds, level, into):
    """A log written to a named file."""
    bs = bufsize(c, 0)
    c.zlib_residues([1, 0, 4])
    p = c.path("log.blf")
    things = [thing(c, f"o{i}", k) for i, k in enumerate(kinds)]
    few_containers(c, bs, [s for _, s in things], 2)
    records = [obj.pack() for obj, _s in things]
    w = BlfWriter(p, level, bs)
    write_all(c, w, things)
    w.close()
    data = c.disk(p)
    only_objects(c, c.concat(*container_bodies(c, data, level)), records)
    r = BlfReader(c.memfile(data) if into == "object" else Wrapped(c.memfile(data)) if into == "wrapped" else by_name(p, into))
    check_counts(c, r.file_statistics, data, level, [s for _, s in things], "after close")
    for obj, _s in things:
        got = r.read_object()
        c.check(got is not None, "every object is found")
        c.check(c.eq(got, obj), "every object is unchanged")
    c.check(r.read_object() is None, "nothing else is found")
    c.cover("read back")


@harness("C22", "C24", quick=[{"way": w, "again": a, "k": k} for k, (w, a) in enumerate((("str", "str"), ("path", "str"), ("bytes", "bytes")))],
         thorough=[{"way": w, "again": a, "k": k} for w in WAYS[:4] for a in WAYS[:4] for k in range(3)],
         bounds="a log of one object, then one of two objects of any size, any levels, under the same name", covers=("read",))
def same_name(c, way, again, k):
    """A log that takes the place of another is read as it is now."""
    c.zlib_residues([1, 4, 1, 4])
    p = c.path("log.blf")
    level = c.int("level", 0, 9)
    for i, (kinds, lv, at) in enumerate((((3,), 0, way), (((0, 5), (3, "AppText"), (0, 0))[k], level, again))):
        things = [thing(c, f"o{i}.{j}", x) for j, x in enumerate(kinds)]
        bs = bufsize(c, k, f"buf{i}")
        few_containers(c, bs, [s for _, s in things], 2)
        with BlfWriter(by_name(p, at), lv, bs) as w:
            write_all(c, w, things)
        data = c.disk(p)
        for _ in range(2):
            with BlfReader(by_name(p, at)) as r:
                check_counts(c, r.file_statistics, data, lv, [s for _, s in things], "a log under a name")
                c.check(c.eq(r.file_statistics.pack(), c.sub(data, 0, 144)), "the header of the log that is there now")
                for obj, _s in things:
                    got = r.read_object()
                    c.check(got is not None, "every object is found")
                    c.check(c.eq(got, obj), "every object is unchanged")
                c.check(r.read_object() is None, "nothing else is found")
    c.cover("read")


@harness("C24", quick=[{"way": w, "name": n} for i, n in enumerate(NAMES) for w in (WAYS[i % 4], WAYS[(i + 2 + i // 4) % 4])],
         thorough=[{"way": w, "name": n} for n in NAMES for w in WAYS[:4]],
         bounds="17 kinds of names (tildes, variables, patterns, dashes, other directories, white space), absolute and relative; one "
         "CanMessage", covers=("read",))
def odd_names(c, way, name):
    """The name is taken as it is."""
    p = named(c, "log", name)
    obj, _s = thing(c, "o", "CanMessage")
    with BlfWriter(by_name(p, way)) as w:
        w.write(obj)
    data = c.disk(p)
    c.check(data is not None, "the log has the given name")
    with BlfReader(by_name(p, way)) as r:
        c.check(c.eq(list(r), [obj]), "and is read back by it")
    c.check(c.eq(c.disk(p), data), "reading leaves the file alone")
    c.check(c.handles(p) == 0, "closed")
    c.cover("read")


@harness("C24", quick=[{"k": k, "how": h} for k, h in ((0, "seek"), (3, "seek"), (3, "read"), (0, "read update"))],
         thorough=[{"k": k, "how": h} for k in (0, 1, 2, 3, 4) for h in ("seek", "read", "seek update", "read update")],
         bounds="0-2 objects of any size, any level and buffer size with at most 2 containers, behind any up to 2**20 bytes; memory files "
         "and open files of up to 8192 bytes read to the place before", covers=("read",))
def from_here(c, k, how):
    """A file object is read from where it stands."""
    bs = bufsize(c, k)
    level = c.int("level", 0, 9)
    c.zlib_residues([1, 4, 1, 4])
    things = [thing(c, f"o{i}", x) for i, x in enumerate(((), (3,), (0, 5), ("CanMessage",), (7, 2))[k])]
    few_containers(c, bs, [s for _, s in things], 2)
    f = c.memfile()
    with BlfWriter(f, level, bs) as w:
        write_all(c, w, things)
    n = c.length("n", 0, 1 << 20)
    data = c.concat(c.bytes("before", n), c.content(f))
    if how == "seek":
        h = c.memfile(data)
        h.seek(n)
    else:
        h = open(c.path("log.blf", data), "r+b" if "update" in how else "rb")
        if "seek" in how:
            h.seek(n)
        else:
            c.assume(len(data) <= 8192)
            h.read(n)
    r = BlfReader(h)
    for obj, _s in things:
        got = r.read_object()
        c.check(got is not None, "every object is found")
        c.check(c.eq(got, obj), "every object is unchanged")
    c.check(r.read_object() is None, "nothing else is found")
    c.cover("read")


@harness("C24", quick=[{"what": w, "side": s} for w in ("none", "number", "list", "object", "class") for s in ("reader", "writer")] +
         [{"what": w, "side": "reader"} for w in ("missing", "short", "foreign")],
         bounds="arguments of 5 unsuitable types; names of missing files, of files shorter than the header and of files with another signature",
         covers=("refused",))
def no_file(c, what, side):
    """What is no file is refused."""
    if what in ("none", "number", "list", "object", "class"):
        x = {"none": None, "number": 12, "list": [b"LOGG"], "object": object(), "class": float}[what]
        _, exc = c.attempt(BlfReader if side == "reader" else BlfWriter, x)
        c.check(isinstance(exc, TypeError), "refused with TypeError")
    elif what == "missing":
        p = c.path("missing.blf")
        _, exc = c.attempt(BlfReader, p)
        c.check(isinstance(exc, FileNotFoundError), "a missing file is reported as missing")
        c.check(c.disk(p) is None, "and not created")
    else:
        n = c.length("n", 0, HEADER - 1) if what == "short" else c.length("n", HEADER, 1 << 24)
        data = c.bytes("data", n)
        if what == "foreign":
            c.assume(c.neg(c.eq(c.sub(data, 0, 4), b"LOGG")))
        p = c.path("other.blf", data)
        _, exc = c.attempt(BlfReader, p)
        c.check(isinstance(exc, ValueError), "refused with ValueError")
        c.check(c.eq(c.disk(p), data), "and left alone")
    c.cover("refused")


@harness("C24", quick=[{"k": k} for k in (0, 3)], bounds="objects of any size, any level and buffer size with at most 2 containers", covers=("found",))
def own_position(c, k):
    """A writer extends its own file only: the second log of the same name replaces the first."""
    bs = bufsize(c, 0)
    p = c.path("log.blf")
    a, b = raw_object(c, "a", 5), thing(c, "b", k)
    few_containers(c, bs, [a[1], b[1]], 2)
    for x in (a, b):
        with BlfWriter(p, 0, bs) as w:
            w.write(x[0])
    with BlfReader(p) as r:
        c.check(r.file_statistics.object_count == 1, "one object")
        got = r.read_object()
        c.check(got is not None, "the object is found")
        c.check(c.eq(got, b[0]), "the object of the second log")
        c.check(r.read_object() is None, "and no other")
    c.cover("found")
