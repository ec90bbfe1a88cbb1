"""The harness interface, symbolic side."""
from __future__ import annotations

import datetime as _dt

import z3

from . import core, models, seqs
from .core import Bounded, SymBool, SymFloat, SymInt, eng, mkbool, sand, snot, sor
from .models import SymDatetime, SymStream, symbolic
from .seqs import SymBytes, SymStr


class SymCtx:
    symbolic = True

    def __init__(self):
        self.lens = []

    # ---- inputs
    def _reg(self, name, rec):
        e = eng()
        assert name not in e.inputs, name
        e.inputs[name] = rec

    def int(self, name, lo, hi):
        if lo == hi:
            v = lo
        else:
            v = core.var(name, lo, hi)
        self._reg(name, ("int", v))
        return v

    def length(self, name, lo, hi):
        v = self.int(name, lo, hi)
        if type(v) is SymInt:
            eng().env.setdefault("lens", []).append(v)
        return v

    def u8(self, name):
        return self.int(name, 0, 255)

    def u16(self, name):
        return self.int(name, 0, 0xFFFF)

    def u32(self, name):
        return self.int(name, 0, 0xFFFFFFFF)

    def u64(self, name):
        return self.int(name, 0, 0xFFFFFFFFFFFFFFFF)

    def enum(self, name, cls):
        """Any member of an integer enumeration."""
        v = core.var(name, min(int(m) for m in cls), max(int(m) for m in cls))
        self._reg(name, ("int", v))
        self.assume(mkbool(seqs._zmember(v.z(), [int(m) for m in cls])))
        return v.tagged(cls)

    def flags(self, name, cls, bits):
        return self.int(name, 0, (1 << bits) - 1).tagged(cls)

    def bool(self, name):
        b = z3.Bool(name)
        self._reg(name, ("bool", b))
        return bool(SymBool(b))

    def choice(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if bool(i == k):
                return options[k]
        return options[-1]

    def bytes(self, name, n, hi=None):
        """Arbitrary bytes: of length n (int or symbolic), or of any length in [n, hi]."""
        if hi is not None:
            n = self.length(name + ".len", n, hi)
        base = seqs.ArrBase.get(name)
        self._reg(name, ("bytes", base, n))
        if isinstance(n, SymInt):
            return SymBytes.make((seqs.Seg(base, 0, n),))
        return SymBytes.make((seqs.Seg(base, 0, n),)) if n else b""

    def text(self, name, n, hi=None, codec="cp1252"):
        """(text, encoded length): any text of the encoding whose encoded length is n / in [n, hi]."""
        if hi is not None:
            n = self.length(name + ".len", n, hi)
        if codec == "utf-8":
            return self._utf8(name, n), n
        base = seqs.ArrBase.get(name, codec=seqs.Table.get(codec))
        self._reg(name, ("text", base, n, codec))
        b = SymBytes.make((seqs.Seg(base, 0, n),))
        return seqs.decode(b, codec), n

    def _utf8(self, name, n):
        if core.bounds(n)[1] < 2 or not bool(mkbool(z3.Bool(name + ".wide"))):
            base = seqs.ArrBase.get(name, codec=seqs.ASCII)
            self._reg(name, ("text", base, n, "ascii"))
            return SymStr.make((seqs.Seg(seqs.MapBase.get(base, seqs.ASCII), 0, n),)) if not seqs.same(n, 0) else ""
        base = seqs.ArrBase.get(name + ".utf8")
        c = core.var(name + ".chars", 1, None)
        e = eng()
        e.assume(c < n)
        e.assume(c * 4 >= n)
        self._reg(name, ("utf8", base, n, c))
        u = seqs.new_utf8(base, 0, n, c)
        return SymStr.make((seqs.Seg(u, 0, c),))

    def float64(self, name):
        base = seqs.ArrBase.get(name)
        self._reg(name, ("float", base))
        return SymFloat(bits=[base.read(i) for i in range(8)])

    def datetime(self, name, tz=None):
        y = core.var(name + ".y", 1, 9999)
        m = core.var(name + ".m", 1, 12)
        d = core.var(name + ".d", 1, 31)
        h = core.var(name + ".H", 0, 23)
        mi = core.var(name + ".M", 0, 59)
        s = core.var(name + ".S", 0, 59)
        us = core.var(name + ".us", 0, 999999)
        self._reg(name, ("datetime", (y, m, d, h, mi, s, us)))
        eng().assume(d <= models.days_in_month(y, m))
        return SymDatetime(y, m, d, h, mi, s, us, tz)

    # ---- environment
    def clock(self, mode):
        eng().env["clock"] = {"mode": mode, "n": 0, "used": []}

    def clock_set(self, now, steady):
        """From here on the system clock shows now and the monotonic clock steady, in units of 2**-20 s."""
        eng().env["clock"] = {"mode": "set", "n": 0, "used": [], "now": now, "steady": steady}

    def steady_readings(self):
        return list(eng().env.get("steady", ()))

    def clock_readings(self):
        c = eng().env.get("clock")
        return [] if c is None else list(c["used"])

    def instant(self, n):
        """UTC datetime of a clock reading."""
        return models.from_instant(n, _dt.timezone.utc)

    def zlib_same(self):
        """Provably equal data gives the same stream (otherwise only data built the same way does)."""
        eng().env["zlib_memo"] = True

    def made_with(self, stream, level):
        """Whether a compressed stream was made with this level."""
        t = models._zlib_find(seqs.wrap(stream))
        return t is not None and t[3] == level

    def zlib_residues(self, rs):
        eng().env["zlib_len"] = list(rs)

    def inflate_max(self, n):
        eng().env["inflate_max"] = n

    def memfile(self, data=b""):
        return SymStream(data)

    def path(self, name, content=None, relative=False):
        """A file name in a scratch directory (relative: as seen from there); content None: the file does not exist."""
        fs = eng().env.setdefault("fs", {})
        key = models.scratch_name("/scratch/" + name)
        fs[key] = None if content is None else SymStream(content)
        return name if relative else key

    def disk(self, path):
        f = eng().env["fs"][models.scratch_name(path)]
        return None if f is None else f.content()

    def handles(self, path):
        """Number of open handles of a named file."""
        key = models.scratch_name(path)
        return sum(1 for f in eng().env.get("opened", ()) if f.opened_as == key and not f.is_closed)

    def content(self, f):
        return f.content()

    def log(self, f):
        """[(position, bytes)] of every write to a memfile."""
        return list(f.log)

    def is_closed(self, f):
        return f.closed

    # ---- calls
    def attempt(self, fn, *a, **k):
        try:
            from .instrument import rt_call

            return rt_call(fn, *a, **k), None
        except Exception as exc:  # noqa: BLE001
            return None, exc

    def attempt_any(self, fn, *a, **k):
        """Also for interruptions, which are no Exception."""
        try:
            return self.attempt(fn, *a, **k)
        except core.EngineStop:
            raise
        except BaseException as exc:  # noqa: BLE001
            return None, exc

    def passing(self, exc):
        """Let the engine's own exceptions through a catch-all."""
        if isinstance(exc, core.EngineStop):
            raise exc

    # ---- logic
    def all(self, *cs):
        cs = list(cs[0]) if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return sand(*cs)

    def any(self, *cs):
        cs = list(cs[0]) if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return sor(*cs)

    def neg(self, c):
        return snot(c)

    def implies(self, a, b):
        return sor(snot(a), b)

    def ite(self, c, a, b):
        """An int: a if c else b (without forking)."""
        k = core.boolint(c)
        if isinstance(k, int) and type(k) is not SymInt:
            return a if k else b
        return b + k * (a - b)

    def assume(self, c):
        eng().assume(c)

    def check(self, c, msg):
        eng().check(c, msg)

    def cover(self, label):
        eng().covered.add(label)

    def observe(self, label, v):
        eng().env.setdefault("obs", []).append((label, v))

    def eq(self, a, b):
        return deep_eq(a, b)

    def is_a(self, x, cls):
        return isinstance(x, cls)

    def concat(self, *parts):
        return seqs.join(b"", parts, False)

    def zeros(self, n):
        return seqs.repeat(b"\0", n)

    def sub(self, b, lo, hi):
        """b[lo:hi] for 0 <= lo <= hi <= len(b)."""
        return seqs.wrap(b).cut(lo, hi)

    def code(self, t, i):
        """The i-th code point of a short text."""
        return seqs.wrap(t).elems()[i]

    def le_int(self, b, lo, width, signed=False):
        """Little-endian integer at a fixed place of a record (the oracle's own reading)."""
        piece = seqs.wrap(b).cut(lo, lo + width)
        es = list(piece) if not seqs.is_symseq(piece) else piece.elems(width)
        return core.from_digits(es, signed)

    def le_bytes(self, v, width):
        """The oracle's own little-endian encoding of an in-range value."""
        return seqs.from_elems(core.digits_of(v, width), "bytes")

    def float_bytes(self, v):
        if type(v) is SymFloat:
            return seqs.from_elems(list(v.bits), "bytes")
        import struct

        return struct.pack("<d", v)

    def float_from(self, b):
        es = seqs.wrap(b).elems(8)
        if all(core.is_int(x) for x in es):
            import struct

            return struct.unpack("<d", bytes(es))[0]
        return SymFloat(bits=es)


def deep_eq(a, b):
    ta, tb = type(a), type(b)
    if ta is SymFloat or tb is SymFloat:
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        ba, bb = _fbits(a), _fbits(b)
        return sand(*[x == y for x, y in zip(ba, bb)])
    if isinstance(a, float) and isinstance(b, float):
        import struct

        return struct.pack("<d", a) == struct.pack("<d", b)
    if symbolic(a) or symbolic(b):
        if isinstance(a, (bytes, bytearray, str)) != isinstance(b, (bytes, bytearray, str)):
            return False
        r = a == b
        return False if r is NotImplemented else r
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return sand(*[deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return False
        return sand(*[deep_eq(a[k], b[k]) for k in a])
    if _record(a) and _record(b):
        if type(a) is not type(b):
            return False
        return deep_eq(_state(a), _state(b))
    r = a == b
    return False if r is NotImplemented else r


def _record(x):
    return type(x).__module__.split(".")[0] == "vblf" and not isinstance(x, (int, type)) and (
        hasattr(x, "__dict__") or hasattr(type(x), "__slots__"))


def _state(x):
    slots = {n: getattr(x, n) for c in type(x).__mro__ for n in getattr(c, "__slots__", ()) if n != "__dict__" and hasattr(x, n)}
    return {**slots, **getattr(x, "__dict__", {})}


def _fbits(x):
    if type(x) is SymFloat:
        if x.bits is None:
            raise Bounded("bit pattern of a computed float")
        return x.bits
    if symbolic(x):
        raise Bounded("bit pattern of a symbolic number")
    import struct

    return list(struct.pack("<d", x))
