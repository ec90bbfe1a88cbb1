"""Long histories: what holds for a few calls holds after hundreds of them (C01, C05, C18)."""
from checks.api import harness
from checks.c_log import bad_thing, check_counts, containers, raw_bytes
from checks.c_headers import file_header
from checks.c_reader import debris, pack_container
from vblf.general import NotImplementedObject
from vblf.reader import BlfReader
from vblf.writer import BlfWriter


def plain(i):
    """One of many objects, all different."""
    n = 16 + i % 23
    return NotImplementedObject.unpack(b"LOBJ\x10\0\1\0" + bytes([n, 0, 0, 0, 77, 0, 0, 0]) + bytes((i * 7 + k) % 251 for k in range(n - 16)))


def written(c, n, level, bs):
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    objs = [plain(i) for i in range(n)]
    for o in objs:
        w.write(o)
    w.close()
    return c.content(f), objs


@harness("C18", quick=[{"n": 300, "bs": 500, "how": h} for h in range(4)] + [{"n": 1100, "bs": 4096, "how": 0}],
         thorough=[{"n": n, "bs": b, "how": h} for n, b in ((300, 500), (1100, 4096), (2100, 100)) for h in range(5)],
         bounds="300-1100 (2100) objects; single reads and iterations changing at any one of 40 places, at the start, around powers of two and "
         "at the end", covers=("drained",))
def long_visit(c, n, bs, how):
    """Changing between single reads and iteration anywhere in a long log."""
    data, objs = written(c, n, 0, bs)
    marks = sorted({x for p in (0, 1, 2, 4, 8, 16, 32, 64, 100, 128, 255, 256, 257, 300, 512, 1000, 1024, n) for x in (p - 1, p, p + 1) if 0 <= x <= n})
    k = c.choice("change", marks)
    r = BlfReader(c.memfile(data))
    got = []
    if how == 0:  # single reads, then a loop
        for _ in range(k):
            got.append(r.read_object())
        got += list(r)
    elif how == 1:  # a loop that is left, then single reads
        if k:
            for o in r:
                got.append(o)
                if len(got) == k:
                    break
        while (o := r.read_object()) is not None:
            got.append(o)
    elif how == 2:  # a loop that is left, then another
        it = iter(r)
        for _ in range(k):
            got.append(next(it))
        got += [o for o in r]
        c.check(next(it, None) is None, "the first iterator ends too")
    elif how == 3:  # single reads in the midst of a loop
        for o in r:
            got.append(o)
            if len(got) == k:
                o = r.read_object()
                if o is not None:
                    got.append(o)
    else:  # one loop inside another
        for o in r:
            got.append(o)
            if len(got) == k + 1:
                for x in r:
                    got.append(x)
                    if len(got) > 2 * k:
                        break
    c.check(len(got) == n, "every object once")
    for g, o in zip(got, objs):
        c.check(c.eq(g, o), "in order")
    c.check(r.read_object() is None, "then the end")
    c.cover("drained")


@harness("C05", quick=[{"n": 40, "every": e, "kind": k} for e, k in ((1, "size"), (3, "field"), (7, "own"), (1, "interrupt"))],
         thorough=[{"n": n, "every": e, "kind": k} for n in (40, 300) for e in (1, 3, 11) for k in ("size", "field", "own", "short", "long", "interrupt")],
         bounds="40 (300) accepted writes with a rejected one (any values) before every 1st, 3rd, 7th (11th) of them, buffers of 100-101 bytes",
         covers=("rejected",))
def rejected_often(c, n, every, kind):
    """A long history of rejected writes."""
    bad, _ = bad_thing(c, "bad", kind)
    level = c.choice("level", [0, 6])
    c.zlib_residues([3, 0, 6])
    f = c.memfile()
    w = BlfWriter(f, level, c.length("buf", 100, 101))
    objs = []
    for i in range(n):
        if i % every == 0:
            _, got = c.attempt_any(w.write, bad)
            c.check(got is not None, "a bad object is rejected")
            c.cover("rejected")
        o = plain(i) if i else NotImplementedObject.unpack(raw_bytes(c, "first", 43))
        objs.append(o)
        w.write(o)
    w.close()
    data = c.content(f)
    r = BlfReader(c.memfile(data))
    for o in objs:
        got = r.read_object()
        c.check(got is not None, "every accepted object is found")
        c.check(c.eq(got, o), "every accepted object is unchanged")
    c.check(r.read_object() is None, "nothing else is found")
    check_counts(c, r.file_statistics, data, level, [len(o.pack()) for o in objs], "with rejected writes")


@harness("C01", "C07", quick=[{"n": 4200, "bs": 1000, "level": 0}, {"n": 2100, "bs": 100000, "level": 6}, {"n": 17000, "bs": 3000, "level": 0}, {"n": 66000, "bs": 4096, "level": 0, "_w": 40}],
         thorough=[{"n": n, "bs": b, "level": v} for n, b, v in ((4200, 1000, 0), (2100, 100000, 6), (17000, 3000, 0), (66000, 131072, 0), (600, 40, 6))],
         bounds="2100-66000 objects, the first and the last of any content", covers=("read back",), max_steps=8_000_000)
def long_log(c, n, bs, level):
    """Thousands of objects read back."""
    f = c.memfile()
    w = BlfWriter(f, level, bs)
    c.zlib_residues([3])
    objs = [plain(i) for i in range(n)]
    objs[0] = NotImplementedObject.unpack(raw_bytes(c, "first", 43))
    objs[-1] = NotImplementedObject.unpack(raw_bytes(c, "last", 61))
    for o in objs[:-1]:
        w.write(o)
    given = sum(len(o.pack()) for o in objs[:-1])
    c.check(given - sum(held(c, c.content(f), level, bs)) < bs, "less than a buffer is missing from the file after thousands of writes")
    w.write(objs[-1])
    w.close()
    data = c.content(f)
    held(c, data, level, bs)
    r = BlfReader(c.memfile(data))
    for o in objs:
        got = r.read_object()
        c.check(got is not None, "every object is found")
        c.check(c.eq(got, o), "every object is unchanged")
    c.check(r.read_object() is None, "nothing else is found")
    c.cover("read back")


def held(c, data, level, bs):
    sizes = [len(p) for p in containers(c, data, level)[0]]
    c.check(c.all([n <= bs for n in sizes]), "a container holds at most a buffer")
    return sizes


@harness("C19", quick=[{"n": 70000, "place": p} for p in range(2)], thorough=[{"n": n, "place": p} for n in (70000, 140000) for p in range(3)],
         bounds="70000 (140000) zero bytes and three of any other value without the signature before an object of any content", covers=("skipped",), max_steps=12_000_000)
def much_debris(c, n, place):
    """However many bytes lie between objects, they are skipped."""
    a, b = raw_bytes(c, "a", 43), raw_bytes(c, "b", 29)
    gap = c.concat(bytes(n), debris(c, "debris", 3))
    h = file_header(c, 0)
    if place == 0:
        data = c.concat(h, pack_container(c, "c0", a, 0), gap, pack_container(c, "c1", b, 0))
    elif place == 1:
        data = c.concat(h, pack_container(c, "c0", c.concat(a, gap, b), 0))
    else:
        data = c.concat(h, a, gap, b)
    r = BlfReader(c.memfile(data))
    for rec in (a, b):
        got = r.read_object()
        c.check(got is not None, "the object behind many bytes is found")
        c.check(c.eq(got.pack(), rec), "the object behind many bytes is unchanged")
    c.check(r.read_object() is None, "nothing else is found")
    c.cover("skipped")


@harness("C02", "C14", quick=[{"n": 66000}], thorough=[{"n": 17000}, {"n": 66000}, {"n": 132000}],
         bounds="66000 (132000) objects of 16 bytes in one container, one of any content among them at the start, in the middle or at the end",
         covers=("crowded",), max_steps=4_000_000)
def crowded(c, n):
    """A container of many small objects."""
    one = b"LOBJ\x10\0\1\0\x10\0\0\0\x4d\0\0\0"
    k = c.choice("where", [0, n // 2, n - 1])
    obj = raw_bytes(c, "o", 16, 77)
    body = c.concat(one * k, obj, one * (n - 1 - k))
    r = BlfReader(c.memfile(c.concat(file_header(c, 0), pack_container(c, "ct", body, 0))))
    got = list(r)
    c.check(len(got) == n, "every object of a crowded container")
    c.check(c.eq(got[k].pack(), obj), "every object unchanged")
    c.check(c.all([got[i].buffer == one for i in range(0, n, 1 + n // 50) if i != k]), "every object unchanged")
    c.cover("crowded")
