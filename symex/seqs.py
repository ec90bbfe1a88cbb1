"""Symbolic byte strings and texts of symbolic length.

A sequence is a rope of views (base, start, length) with symbolic start and length.  Bases are
immutable: a literal, a list of element values, a constant fill, an uninterpreted array (arbitrary
content of arbitrary length), or a character-decoded view of another base.  Slicing and
concatenation only move views, so content of any length costs nothing; adjacent views of the same
base merge again.
"""
from __future__ import annotations

import codecs

import z3

from . import core
from .core import (is_int, Atom, Bounded, SymBool, SymInt, atom, eng, ikey, mkbool, mkint, sand, settle, snot, sor, zint)


# --------------------------------------------------------------------------- codecs


class Table:
    """A single-byte text encoding, taken from Python's own codec."""

    cache: dict = {}

    def __init__(self, name):
        self.name = name
        self.dec = []
        for b in range(256):
            try:
                self.dec.append(ord(bytes([b]).decode(name)))
            except UnicodeDecodeError:
                self.dec.append(None)
        self.enc = {c: b for b, c in enumerate(self.dec) if c is not None}
        self.total = None not in self.dec

    @classmethod
    def get(cls, name):
        name = codecs.lookup(name).name
        if name not in cls.cache:
            if name not in ("cp1252", "iso8859-1", "ascii"):
                raise Bounded(f"text encoding {name} is not modelled")
            cls.cache[name] = Table(name)
        return cls.cache[name]

    def zdec(self, z):
        """z3 term of the code point of byte z (-1 where undefined)."""
        return _piecewise(z, [(b, -1 if c is None else c) for b, c in enumerate(self.dec)])

    def zvalid(self, z):
        return _zmember(z, [b for b, c in enumerate(self.dec) if c is not None])


def runs_of(vals):
    """[(lo, hi)] of consecutive integers."""
    out = []
    for v in sorted(vals):
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return out


def _zmember(z, vals):
    return z3.Or(*[z3.And(z >= lo, z <= hi) if lo != hi else z == lo for lo, hi in runs_of(vals)])


def _piecewise(z, pairs):
    runs = []  # lo, hi, kind, value
    for k, v in pairs:
        if runs and runs[-1][1] == k - 1 and (runs[-1][2] == v - k or (runs[-1][3] is not None and runs[-1][3] == v)):
            lo, hi, d, c = runs[-1]
            runs[-1] = (lo, k, d if d == v - k else None, c if c == v else None)
        else:
            runs.append((k, k, v - k, v))
    runs.sort(key=lambda r: r[1] - r[0])  # biggest last = default
    expr = None
    for lo, hi, d, c in reversed(runs):
        val = z3.IntVal(c) if c is not None else (z if d == 0 else z + d)
        expr = val if expr is None else z3.If(z3.And(z >= lo, z <= hi), val, expr)
    return expr


# --------------------------------------------------------------------------- bases


class Base:
    __slots__ = ()
    text = False


class LitBase(Base):
    __slots__ = ("val", "text")

    def __init__(self, val):
        self.val = val
        self.text = isinstance(val, str)

    def read(self, i):
        if is_int(i):
            if not 0 <= i < len(self.val):
                return 0  # only reachable where a guard makes the element irrelevant
            v = self.val[i]
            return ord(v) if self.text else v
        vals = [ord(c) for c in self.val] if self.text else list(self.val)
        return _select(vals, i)


class TermBase(Base):
    __slots__ = ("elems", "text")

    def __init__(self, elems, text=False):
        self.elems = elems
        self.text = text

    def read(self, i):
        if is_int(i):
            return self.elems[i] if 0 <= i < len(self.elems) else 0
        return _select(self.elems, i)


class FillBase(Base):
    __slots__ = ("elem", "text")
    cache: dict = {}

    def __init__(self, elem, text):
        self.elem = elem
        self.text = text

    @classmethod
    def get(cls, elem, text=False):
        k = (ikey(elem), text)
        if k not in cls.cache:
            cls.cache[k] = FillBase(elem, text)
        return cls.cache[k]

    def read(self, i):
        return self.elem


class ArrBase(Base):
    """Arbitrary content: an uninterpreted function from index to element."""

    __slots__ = ("name", "f", "hi", "text", "codec")
    cache: dict = {}

    def __init__(self, name, hi=255, text=False, codec=None):
        self.name = name
        self.f = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.hi = hi
        self.text = text
        self.codec = codec  # every byte is defined in this encoding

    @classmethod
    def get(cls, name, hi=255, text=False, codec=None):
        k = (name, hi, text, codec)
        if k not in cls.cache:
            cls.cache[k] = ArrBase(name, hi, text, codec)
        return cls.cache[k]

    def read(self, i):
        def make():
            z = self.f(zint(i))
            ax = []
            if self.codec is not None and not self.codec.total:
                ax.append(self.codec.zvalid(z))
            return Atom(z, 0, self.hi, ax, i.atoms() if isinstance(i, SymInt) else ())

        a = atom(("arr", self.name, self.hi, self.codec, ikey(i)), make)
        e = eng()
        e.introduce(a)
        e.note_read(self, i)
        return mkint(0, {a: 1})


class MapBase(Base):
    """The characters of a byte base in a single-byte encoding."""

    __slots__ = ("inner", "codec")
    text = True
    cache: dict = {}

    def __init__(self, inner, codec):
        self.inner = inner
        self.codec = codec

    @classmethod
    def get(cls, inner, codec):
        k = (inner, codec)
        if k not in cls.cache:
            cls.cache[k] = MapBase(inner, codec)
        return cls.cache[k]

    def read(self, i):
        b = self.inner.read(i)
        return map_elem(b, self.codec)


def map_elem(b, codec):
    if is_int(b):
        c = codec.dec[b]
        return -1 if c is None else c

    def make():
        return Atom(codec.zdec(b.z()), -1, 0x10FFFF, [], b.atoms())

    return mkint(0, {atom(("map", codec.name, ikey(b)), make): 1})


class EncBase(Base):
    """The bytes of a text base in a single-byte encoding (elements known to be encodable)."""

    __slots__ = ("inner", "codec")
    text = False
    cache: dict = {}

    def __init__(self, inner, codec):
        self.inner = inner
        self.codec = codec

    @classmethod
    def get(cls, inner, codec):
        k = (inner, codec)
        if k not in cls.cache:
            cls.cache[k] = EncBase(inner, codec)
        return cls.cache[k]

    def read(self, i):
        return enc_elem(self.inner.read(i), self.codec)


def enc_elem(c, codec):
    if is_int(c):
        return codec.enc[c]

    def make():
        pairs = sorted(codec.enc.items())
        return Atom(_piecewise(c.z(), pairs), 0, 255, [], c.atoms())

    return mkint(0, {atom(("enc", codec.name, ikey(c)), make): 1})


class Utf8Text(Base):
    """A non-ASCII text known only as the bytes (base, start, n) that encode it."""

    __slots__ = ("inner", "start", "n", "nchars")
    text = True

    def __init__(self, inner, start, n, nchars):
        self.inner = inner
        self.start = start
        self.n = n
        self.nchars = nchars

    def read(self, i):
        raise Bounded("characters of a non-ASCII UTF-8 text are not modelled")


def _select(elems, i):
    key = ("sel", tuple(ikey(x) for x in elems), ikey(i))

    def make():
        z = zint(i)
        expr = None
        deps = list(i.atoms())
        los, his = [], []
        for k in range(len(elems) - 1, -1, -1):
            x = elems[k]
            expr = zint(x) if expr is None else z3.If(z == k, zint(x), expr)
            if isinstance(x, SymInt):
                deps.extend(x.atoms())
            lo, hi = core.bounds(x)
            los.append(lo)
            his.append(hi)
        lo = None if None in los else min(los)
        hi = None if None in his else max(his)
        return Atom(expr, lo, hi, [], tuple(dict.fromkeys(deps)))

    if not elems:
        raise IndexError("index out of range")
    if len(elems) > 300:
        raise Bounded("symbolic index into a long literal")
    return mkint(0, {atom(key, make): 1})


# --------------------------------------------------------------------------- segments


class Seg:
    __slots__ = ("base", "start", "n")

    def __init__(self, base, start, n):
        self.base = base
        self.start = start
        self.n = n

    def sub(self, off, n):
        if isinstance(self.base, FillBase):
            return Seg(self.base, 0, settle(n))
        return Seg(self.base, settle(self.start + off), settle(n))

    def key(self):
        return (self.base, ikey(self.start), ikey(self.n))


def _const_elems(seg):
    """Element list of a short constant-length segment over explicit values, else None."""
    if not is_int(seg.n) or not is_int(seg.start):
        return None
    b = seg.base
    if isinstance(b, LitBase):
        v = b.val[seg.start:seg.start + seg.n]
        return [ord(c) for c in v] if b.text else list(v)
    if isinstance(b, TermBase):
        return b.elems[seg.start:seg.start + seg.n]
    if isinstance(b, FillBase) and seg.n <= 512:
        return [b.elem] * seg.n
    return None


def _append(out, seg):
    if is_int(seg.n) and seg.n <= 0:
        return
    if out:
        p = out[-1]
        if p.base is seg.base and (isinstance(p.base, FillBase) or same(p.start + p.n, seg.start)):
            out[-1] = Seg(p.base, p.start, p.n + seg.n)
            return
        if is_int(p.n) and is_int(seg.n) and p.n + seg.n <= 2048:
            a = _const_elems(p)
            b = _const_elems(seg) if a is not None else None
            if a is not None and b is not None:
                out[-1] = explicit(a + b, seg.base.text)
                return
    out.append(seg)


def explicit(elems, text):
    if all(is_int(x) for x in elems):
        v = "".join(map(chr, elems)) if text else bytes(elems)
        return Seg(LitBase(v), 0, len(v))
    return Seg(TermBase(elems, text), 0, len(elems))


def same(a, b):
    d = settle(a - b)
    return is_int(d) and d == 0


def le(a, b):
    return bool(a <= b)


# --------------------------------------------------------------------------- sequences


class SymSeq:
    __slots__ = ("segs", "_len", "_codec_ok")
    text = False
    pytype: type = bytes

    def __init__(self, segs):
        self.segs = tuple(segs)
        n = 0
        for s in self.segs:
            n = n + s.n
        self._len = n

    @property
    def __class__(self):
        return type(self).pytype

    # -- construction helpers
    @classmethod
    def make(cls, segs):
        """Normalised: a real bytes/str when fully concrete."""
        out = []
        for s in segs:
            _append(out, s)
        if not out:
            return "" if cls.text else b""
        if len(out) == 1:
            s = out[0]
            b = s.base
            if is_int(s.n) and is_int(s.start):
                if isinstance(b, LitBase):
                    return b.val[s.start:s.start + s.n]
                if isinstance(b, FillBase) and is_int(b.elem) and s.n <= 1 << 16:
                    return chr(b.elem) * s.n if cls.text else bytes([b.elem]) * s.n
        return cls(out)

    @property
    def length(self):
        return self._len

    def key(self):
        return tuple(s.key() for s in self.segs)

    # -- access
    def at(self, i):
        """Element i, 0 <= i < length known."""
        pos = 0
        last = len(self.segs) - 1
        for k, s in enumerate(self.segs):
            end = pos + s.n
            if k == last or bool(i < end):
                return s.base.read(0 if isinstance(s.base, FillBase) else settle(s.start + (i - pos)))
            pos = end
        raise IndexError

    def cut(self, a, b):
        """Elements a..b, 0 <= a <= b <= length known."""
        a = settle(a)
        b = settle(b)
        n = settle(b - a)
        if is_int(n) and n <= 0:
            return type(self).make(())
        if same(n, self._len) and same(a, 0):
            return self
        out = []
        pos = 0
        i = 0
        segs = self.segs
        while i < len(segs) - 1:
            end = pos + segs[i].n
            if not le(end, a):
                break
            pos = end
            i += 1
        off = settle(a - pos)
        need = n
        while i < len(segs):
            s = segs[i]
            avail = s.n - off
            if i == len(segs) - 1 or le(need, avail):
                out.append(s.sub(off, need))
                break
            out.append(s.sub(off, avail))
            need = settle(need - avail)
            off = 0
            i += 1
        return type(self).make(out)

    def elems(self, n=None):
        """All element values of a sequence of constant length."""
        if n is None:
            n = self._len
            if not is_int(n):
                n = eng().concretize(n, 64)
        if n > 4096:
            raise Bounded("long sequence expanded element by element")
        out = []
        pos = 0
        for s in self.segs:
            if not is_int(s.n):
                break
            c = _const_elems(s)
            if c is None:
                c = [s.base.read(s.start + k) for k in range(s.n)]
            out.extend(c)
            pos += s.n
        while len(out) < n:
            out.append(self.at(len(out)))
        return out[:n]

    # -- python protocol
    def __len__(self):
        return eng().concretize(self._len)

    def __bool__(self):
        n = self._len
        return n > 0 if is_int(n) else bool(n > 0)

    def __add__(self, o):
        o = coerce(o, self.text)
        if o is None:
            return NotImplemented
        return type(self).make(self.segs + o.segs)

    def __radd__(self, o):
        o = coerce(o, self.text)
        if o is None:
            return NotImplemented
        return type(self).make(o.segs + self.segs)

    def __mul__(self, n):
        return repeat(self, n)

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, step = norm_slice(i, self._len)
            if step == 1:
                return self.cut(a, b)
            es = self.elems()
            return from_elems(es[i] if step == -1 and i.start is None and i.stop is None
                              else es[slice(_c(i.start), _c(i.stop), step)], "str" if self.text else "bytes")
        if not isinstance(i, (int, SymInt, SymBool)):
            raise TypeError("indices must be integers or slices")
        i = norm_index(i, self._len)
        v = self.at(i)
        if self.text:
            return from_elems([v], "str")
        return v

    def __iter__(self):
        i = 0
        while bool(i < self._len):
            eng().tick()
            v = self.at(i)
            yield from_elems([v], "str") if self.text else v
            i += 1

    def __contains__(self, x):
        if self.text or not isinstance(x, (int, SymInt)):
            return bool(find(self, x) >= 0)
        return bool(sor(*[e == x for e in self.elems()]))

    def __eq__(self, o):
        o = coerce(o, self.text)
        if o is None:
            return False
        return seq_eq(self, o)

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        return 0x5EED  # equality decides

    def _order(self, o, strict):
        o = coerce(o, self.text)
        if o is None:
            return NotImplemented
        a, b = self.elems(), o.elems()
        r = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))):
            r = sor(x < y, sand(x == y, r))
        return r

    def __lt__(self, o):
        return self._order(o, True)

    def __le__(self, o):
        return self._order(o, False)

    def __gt__(self, o):
        r = self._order(o, False)
        return r if r is NotImplemented else snot(r)

    def __ge__(self, o):
        r = self._order(o, True)
        return r if r is NotImplemented else snot(r)

    def __repr__(self):
        return f"<symbolic {self.pytype.__name__}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- shared methods
    def startswith(self, p, start=None, end=None):
        s = self if start is None and end is None else wrap(self[slice(start, end)])
        if isinstance(p, tuple):
            return sor(*[s.startswith(q) for q in p])
        p = coerce(p, self.text, strict=True)
        if not le(p.length, s.length):
            return False
        return seq_eq(wrap(s.cut(0, p.length)), p)

    def endswith(self, p, start=None, end=None):
        s = self if start is None and end is None else wrap(self[slice(start, end)])
        if isinstance(p, tuple):
            return sor(*[s.endswith(q) for q in p])
        p = coerce(p, self.text, strict=True)
        if not le(p.length, s.length):
            return False
        return seq_eq(wrap(s.cut(s.length - p.length, s.length)), p)

    def removesuffix(self, p):
        if bool(self.endswith(p)) and coerce(p, self.text):
            return self.cut(0, self.length - coerce(p, self.text).length)
        return self

    def removeprefix(self, p):
        if bool(self.startswith(p)) and coerce(p, self.text):
            return self.cut(coerce(p, self.text).length, self.length)
        return self

    def _stripset(self, chars):
        if chars is None:
            return [ord(c) for c in " \t\n\r\x0b\x0c"] + ([0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0] if self.text else [])
        c = coerce(chars, self.text, strict=True)
        es = c.elems()
        if not all(is_int(x) for x in es):
            raise Bounded("strip with symbolic characters")
        return es

    def rstrip(self, chars=None):
        vals = self._stripset(chars)
        segs = list(self.segs)
        while segs:
            s = segs[-1]
            keep = _strip_point(s, vals, right=True)
            if keep is None:
                segs.pop()
                continue
            segs[-1] = s.sub(0, keep)
            break
        return type(self).make(segs)

    def lstrip(self, chars=None):
        vals = self._stripset(chars)
        segs = list(self.segs)
        while segs:
            s = segs[0]
            drop = _strip_point(s, vals, right=False)
            if drop is None:
                segs.pop(0)
                continue
            segs[0] = s.sub(drop, s.n - drop)
            break
        return type(self).make(segs)

    def strip(self, chars=None):
        r = wrap(self.rstrip(chars)).lstrip(chars)
        return r

    def ljust(self, width, fill=None):
        return self._just(width, fill, left=True)

    def rjust(self, width, fill=None):
        return self._just(width, fill, left=False)

    def _just(self, width, fill, left):
        if le(width, self._len):
            return self
        if fill is None:
            fill = " " if self.text else b" "
        pad = wrap(repeat(fill, width - self._len), self.text)
        segs = self.segs + pad.segs if left else pad.segs + self.segs
        return type(self).make(segs)

    def find(self, sub, start=None, end=None):
        if start is None and end is None:
            return find(self, sub)
        a, b, _ = norm_slice(slice(start, end), self._len)
        r = find(wrap(self.cut(a, b), self.text), sub)
        return r + a if bool(r >= 0) else -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if bool(r < 0):
            raise ValueError("subsection not found")
        return r

    def rfind(self, sub, start=None, end=None):
        if start is None and end is None:
            return find(self, sub, last=True)
        raise Bounded("rfind with bounds")

    def count(self, sub):
        if isinstance(sub, (int, SymInt)):
            r = 0
            for e in self.elems():
                r = r + core.boolint(e == sub)
            return r
        p = coerce(sub, self.text, strict=True)
        short = (core.bounds(self._len)[1] or EXPAND + 1) <= EXPAND
        if same(p.length, 1) and short:
            return self.count_elem(p.elems()[0])
        m = p.length
        if not is_int(m) or m == 0:
            raise Bounded("counting an empty or unknown part")
        rest, done = self, 0
        while True:
            k = find(wrap(rest, self.text), sub)
            if bool(k < 0):
                return done
            done += 1
            if done > 3 and not short:
                raise Bounded("more than three occurrences in content of unbounded length")
            rest = wrap(rest, self.text).cut(k + m, rest._len)

    def count_elem(self, v):
        r = 0
        for e in self.elems():
            r = r + core.boolint(e == v)
        return r

    def partition(self, sep):
        k = find(self, sep)
        if bool(k < 0):
            return self, type(self).make(()), type(self).make(())
        m = coerce(sep, self.text).length
        return self.cut(0, k), sep, self.cut(k + m, self._len)

    def rpartition(self, sep):
        k = find(self, sep, last=True)
        if bool(k < 0):
            return type(self).make(()), type(self).make(()), self
        m = coerce(sep, self.text).length
        return self.cut(0, k), sep, self.cut(k + m, self._len)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit != -1:
                raise Bounded("split on white space")
            return strs.words(self)
        out = []
        short = (core.bounds(self._len)[1] or EXPAND + 1) <= EXPAND
        rest = self
        while maxsplit != 0:
            k = find(wrap(rest, self.text), sep)
            if bool(k < 0):
                break
            m = coerce(sep, self.text).length
            rest = wrap(rest, self.text)
            out.append(rest.cut(0, k))
            if len(out) > 3 and not short:
                raise Bounded("more than three parts of content of unbounded length")
            rest = rest.cut(k + m, rest._len)
            maxsplit -= 1
        out.append(rest)
        return out

    def replace(self, old, new, count=-1):
        out = type(self).make(())
        rest = self
        m = coerce(old, self.text, strict=True).length
        if not is_int(m) or m == 0:
            raise Bounded("replacing an empty or unknown part")
        short = (core.bounds(self._len)[1] or EXPAND + 1) <= EXPAND
        done = 0
        while count != 0:
            r = wrap(rest, self.text)
            k = find(r, old)
            if bool(k < 0):
                break
            done += 1
            if done > 3 and not short:
                raise Bounded("more than three replacements in content of unbounded length")
            out = wrap(out, self.text) + r.cut(0, k) + new
            rest = r.cut(k + m, r._len)
            count -= 1
        return wrap(out, self.text) + rest if done else self

    def _case(self, fn):
        hi = core.bounds(self._len)[1]
        if self.text or hi is None or hi > EXPAND:
            return strs.case_mapped(self, "upper" if fn is _upper else "lower")
        out = []
        for x in self.elems():
            if is_int(x):
                out.append(fn(x))
                continue
            lo, up = (97, 122) if fn is _upper else (65, 90)
            isl = core.boolint(sand(x >= lo, x <= up))
            out.append(x - 32 * isl if fn is _upper else x + 32 * isl)
        return from_elems(out, "bytes")

    def upper(self):
        return self._case(_upper)

    def lower(self):
        return self._case(_lower)

    def __getattr__(self, name):
        if not name.startswith("_") and hasattr(self.pytype, name):
            if name in strs.ALL:
                return lambda: strs.predicate(self, name)
            if name in ("isupper", "islower"):
                return lambda: strs.is_case(self, name)
            if name in ("swapcase", "casefold"):
                return lambda: strs.case_mapped(self, name)
            return strs.method(self, name)
        raise AttributeError(f"'{self.pytype.__name__}' object has no attribute '{name}'")

    def translate(self, table, delete=b""):
        return strs.translate(self, table, delete)

    def splitlines(self, keepends=False):
        return strs.splitlines(self, keepends)

    def join(self, parts):
        return join(self, parts, self.text)

    def isascii(self):
        return sand(*[e < 128 for e in self.elems()]) if is_int(self._len) else bool(all_pred(self, _ascii_pred))


def _upper(x):
    return x - 32 if 97 <= x <= 122 else x


def _lower(x):
    return x + 32 if 65 <= x <= 90 else x


class SymBytes(SymSeq):
    __slots__ = ()
    text = False
    pytype = bytes

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self, encoding, errors)

    def tobytes(self):
        return self

    def __bytes__(self):
        raise Bounded("symbolic bytes handed to native code")

    def hex(self, *a):
        return core.marker(SymInt(id(self), {}))


class SymStr(SymSeq):
    __slots__ = ()
    text = True
    pytype = str

    def encode(self, encoding="utf-8", errors="strict"):
        return encode(self, encoding, errors)

    def __mod__(self, o):
        return repr(self)


# --------------------------------------------------------------------------- helpers


def _c(x):
    return x if x is None else eng().concretize(x)


def from_elems(elems, kind):
    text = kind == "str"
    cls = SymStr if text else SymBytes
    return cls.make((explicit(list(elems), text),)) if elems else ("" if text else b"")


def wrap(x, text=None):
    """SymSeq view of a real or symbolic bytes/str."""
    if type(x) in (SymBytes, SymStr):
        return x
    if isinstance(x, str):
        return SymStr((Seg(LitBase(str(x)), 0, len(x)),) if x else ())
    if type(x) is SymByteArray or type(x) is SymMemory:
        return wrap(x.seq)
    if isinstance(x, (bytes, bytearray, memoryview)):
        x = bytes(x)
        return SymBytes((Seg(LitBase(x), 0, len(x)),) if x else ())
    raise TypeError(f"a bytes-like object is required, not '{type(x).__name__}'")


def coerce(x, text, strict=False):
    if type(x) in (SymBytes, SymStr):
        r = x
    elif isinstance(x, str) or type(x) in (SymByteArray, SymMemory) or isinstance(x, (bytes, bytearray, memoryview)):
        r = wrap(x)
    else:
        r = None
    if r is None or r.text != text:
        if strict:
            raise TypeError(f"a {'str' if text else 'bytes-like object'} is required")
        return None
    return r


def is_symseq(x):
    return type(x) in (SymBytes, SymStr, SymByteArray, SymMemory)


def is_byteslike(x):
    return isinstance(x, (bytes, bytearray, memoryview)) or type(x) in (SymBytes, SymByteArray, SymMemory)


def seqlen(x):
    if type(x) in (SymBytes, SymStr):
        return x.length
    if type(x) in (SymByteArray, SymMemory):
        return seqlen(x.seq)
    return len(x)


def norm_index(i, n):
    if isinstance(i, SymBool):
        i = core.boolint(i)
    if bool(i < 0):
        i = i + n
        if bool(i < 0):
            raise IndexError("index out of range")
    elif not bool(i < n):
        raise IndexError("index out of range")
    return i


def norm_slice(sl, n):
    step = 1 if sl.step is None else eng().concretize(sl.step)
    if step != 1:
        return 0, n, step

    def clip(x, default):
        if x is None:
            return default
        if isinstance(x, SymBool):
            x = core.boolint(x)
        if not isinstance(x, (int, SymInt)):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        x = x + 0
        if bool(x < 0):
            x = x + n
            return 0 if bool(x < 0) else x
        return x if le(x, n) else n

    a = clip(sl.start, 0)
    b = clip(sl.stop, n)
    if is_int(b - a):
        if b - a < 0:
            b = a
    elif not (same(a, 0) or same(b, n)) and not le(a, b):
        b = a
    return a, b, 1


def repeat(x, n):
    if isinstance(n, SymBool):
        n = core.boolint(n)
    if not isinstance(n, (int, SymInt)):
        raise TypeError("can't multiply sequence by non-int")
    if type(x) is SymByteArray or isinstance(x, bytearray):
        return SymByteArray(repeat(wrap(x), n))
    s = wrap(x)
    if is_int(n):
        if n <= 0 or not s.segs:
            return type(s).make(())
        if same(s.length, 1):
            return type(s).make((Seg(FillBase.get(s.elems()[0], s.text), 0, n),))
        if n > 64:
            raise Bounded("many repetitions of a sequence")
        return type(s).make(s.segs * n)
    if not s.segs:
        return type(s).make(())
    if not same(s.length, 1):
        return repeat(x, eng().concretize(n))
    if bool(n <= 0):
        return type(s).make(())
    return type(s).make((Seg(FillBase.get(s.elems()[0], s.text), 0, n),))


def join(sep, parts, text):
    out = []
    sep = wrap(sep)
    first = True
    for p in parts:
        c = coerce(p, text)
        if c is None:
            raise TypeError("sequence item: wrong type")
        if not first:
            out.extend(sep.segs)
        out.extend(c.segs)
        first = False
    return (SymStr if text else SymBytes).make(out)


def _zero(seg):
    return is_int(seg.n) and seg.n == 0


EXPAND = 80


def seq_eq(a, b):
    """Equality as a formula (the lengths and alignment may fork)."""
    a, b = wrap(a), wrap(b)
    if a.text != b.text:
        return False
    la, lb = a.length, b.length
    d = la - lb
    if is_int(d):
        if d:
            return False
    elif not bool(d == 0):
        return False
    conds = []
    sa, sb = list(a.segs), list(b.segs)
    i = j = 0
    while i < len(sa) and j < len(sb):
        x, y = sa[i], sb[j]
        if _zero(x):
            i += 1
            continue
        if _zero(y):
            j += 1
            continue
        dn = x.n - y.n
        if is_int(dn) and dn == 0:
            n, nx, ny = x.n, None, None
        elif i == len(sa) - 1 and j == len(sb) - 1:
            n, nx, ny = x.n, None, None  # the lengths are equal on this path
        elif le(x.n, y.n):
            n = x.n
            nx = None
            ny = y.sub(n, y.n - n)
        else:
            n = y.n
            nx = x.sub(n, x.n - n)
            ny = None
        c = piece_eq(x, y, n)
        if c is False:
            # a possibly empty piece cannot refute
            c = _when_nonempty(n)
            if c is False:
                return False
        if c is not True:
            conds.append(c)
        if nx is None:
            i += 1
        else:
            sa[i] = nx
        if ny is None:
            j += 1
        else:
            sb[j] = ny
    return sand(*conds)


def _when_nonempty(n):
    return n <= 0 if is_int(n) else (n <= 0)


def piece_eq(x, y, n):
    bx, by = x.base, y.base
    if bx is by:
        if isinstance(bx, FillBase) or same(x.start, y.start):
            return True
        if isinstance(x.start - y.start, SymInt) and bool(x.start == y.start):
            return True
    if isinstance(bx, FillBase) and isinstance(by, FillBase):
        return sor(n <= 0, bx.elem == by.elem)
    if isinstance(bx, Utf8Text) or isinstance(by, Utf8Text):
        if (isinstance(bx, Utf8Text) and isinstance(by, Utf8Text) and bx.inner is by.inner
                and same(x.start, 0) and same(y.start, 0)
                and bool(bx.start == by.start) and bool(bx.n == by.n)):
            return True
        raise Bounded("comparison inside a non-ASCII UTF-8 text")
    if isinstance(bx, MapBase) and isinstance(by, MapBase) and bx.codec is by.codec:
        # undefined bytes never occur in decoded text, so the decoding is injective
        return piece_eq(Seg(bx.inner, x.start, n), Seg(by.inner, y.start, n), n)
    if is_int(n) and n <= EXPAND or _explicit_small(x, n) or _explicit_small(y, n):
        return _elem_eq(x, y, n)
    hi = min([h for h in (core.bounds(n)[1], _room(x), _room(y)) if h is not None], default=None)
    if hi is not None and hi <= EXPAND:
        return _elem_eq_sym(x, y, n, hi)
    return universal_eq(x, y, n)


def _room(s):
    """An upper bound of the length of a piece of explicit elements."""
    b = s.base
    if not isinstance(b, (LitBase, TermBase)):
        return None
    start = core.bounds(s.start)[0]
    return len(b.val if isinstance(b, LitBase) else b.elems) - (start if start is not None and start > 0 else 0)


def _explicit_small(s, n):
    return is_int(n) and n <= 2048 and isinstance(s.base, (LitBase, TermBase))


def _read(s, k):
    return s.base.read(0 if isinstance(s.base, FillBase) else settle(s.start + k))


def _elem_eq(x, y, n):
    cs = []
    for k in range(n):
        c = _read(x, k) == _read(y, k)
        if c is False:
            return False
        if c is not True:
            cs.append(c)
    return sand(*cs)


def _elem_eq_sym(x, y, n, hi):
    cs = []
    for k in range(hi):
        c = _read(x, k) == _read(y, k)
        if c is True:
            continue
        cs.append(sor(n <= k, c))
    return sand(*cs)


def universal_eq(x, y, n):
    """Equality of two long pieces: a proposition whose truth gives equal elements at every read
    and whose falsity gives a differing position."""
    e = eng()
    p = z3.Bool(e.fresh("eq"))
    k = core.var(e.fresh("diff"), None, None)
    kz = k.z()
    vx, vy = _read(x, k), _read(y, k)
    e.axiom(z3.Or(p, z3.And(kz >= 0, kz < zint(n), zint(vx) != zint(vy))))
    arrs = [b for b in (_root(x.base), _root(y.base)) if b is not None]

    def inst(base, idx):
        out = []
        for s, o in ((x, y), (y, x)):
            if _root(s.base) is base:
                off = idx - s.start
                a, b = _read(s, off), _read(o, off)
                out.append(z3.Implies(z3.And(p, zint(off) >= 0, zint(off) < zint(n)), zint(a) == zint(b)))
        return z3.And(*out) if out else None

    e.universal(arrs, inst)
    return mkbool(p)


def _root(b):
    while isinstance(b, (MapBase, EncBase)):
        b = b.inner
    return b if isinstance(b, ArrBase) else None


def all_pred(seq, pred, name="all"):
    """Proposition 'every element satisfies pred' (pred: element -> SymBool/bool)."""
    props = []
    for s in wrap(seq).segs:
        b = s.base
        if isinstance(b, FillBase):
            c = pred(b.elem)
            props.append(c if c is True else sor(s.n <= 0, c))
            continue
        if is_int(s.n) and s.n <= EXPAND:
            props.append(sand(*[pred(_read(s, k)) for k in range(s.n)]))
            continue
        hi = min([h for h in (core.bounds(s.n)[1], _room(s)) if h is not None], default=None)
        if hi is not None and (hi <= EXPAND or isinstance(b, (LitBase, TermBase))):
            props.append(sand(*[sor(s.n <= k, pred(_read(s, k))) for k in range(hi)]))
            continue
        e = eng()
        p = z3.Bool(e.fresh(name))
        k = core.var(e.fresh("viol"), None, None)
        kz = k.z()
        bad = snot(pred(_read(s, k)))
        if bad is False:
            props.append(True)
            continue
        badz = bad.e if isinstance(bad, SymBool) else z3.BoolVal(True)
        e.axiom(z3.Or(p, z3.And(kz >= 0, kz < zint(s.n), badz)))
        root = _root(b)

        def inst(base, idx, s=s, p=p):
            off = idx - s.start
            c = pred(_read(s, off))
            if c is True:
                return None
            cz = c.e if isinstance(c, SymBool) else z3.BoolVal(False)
            return z3.Implies(z3.And(p, zint(off) >= 0, zint(off) < zint(s.n)), cz)

        if root is not None:
            e.universal([root], inst)
        props.append(mkbool(p))
    return sand(*props)


def _in_vals(vals):
    def pred(v):
        if is_int(v):
            return v in vals
        return mkbool(_zmember(v.z(), vals))

    return pred


def _ascii_pred(v):
    return v < 128


def _strip_point(s, vals, right):
    """How many elements of the segment stay (right) / go (left); None if it vanishes."""
    pred = _in_vals(set(vals))
    b = s.base
    if isinstance(b, FillBase):
        if isinstance(s.n, SymInt) and bool(s.n <= 0):
            return None
        if bool(pred(b.elem)):
            return None
        return s.n if right else 0
    if is_int(s.n) and s.n <= EXPAND:
        order = range(s.n - 1, -1, -1) if right else range(s.n)
        for k in order:
            if not bool(pred(_read(s, k))):
                return k + 1 if right else k
        return None
    e = eng()
    if bool(s.n <= 0):
        return None
    if bool(all_pred(SymBytes((s,)) if not b.text else SymStr((s,)), pred)):
        return None
    k = core.var(e.fresh("strip"), 0, None)  # position of the last (first) kept element
    e.assume(k < s.n)
    e.assume(snot(pred(_read(s, k))))
    rest = s.sub(k + 1, s.n - k - 1) if right else s.sub(0, k)
    if isinstance(rest.n, SymInt) or rest.n > 0:
        e.assume(all_pred(SymBytes((rest,)) if not b.text else SymStr((rest,)), pred))
    return k + 1 if right else k


def find(seq, sub, last=False):
    """Index of the first (last) occurrence, or -1."""
    seq = wrap(seq)
    if isinstance(sub, (int, SymInt)):
        pat = [sub]
    else:
        pat = coerce(sub, seq.text, strict=True).elems()
    m = len(pat)
    n = settle(seq.length)
    if m == 0:
        return n if last else 0
    lo, hi = core.bounds(n)
    if hi is None or hi > EXPAND:
        if hi is None or eng().possible(n > EXPAND):
            return _find_long(seq, pat, last)
        hi = EXPAND
    if is_int(n):
        starts = range(n - m, -1, -1) if last else range(n - m + 1)
        for k in starts:
            eng().tick()
            if bool(sand(*[seq.at(k + t) == pat[t] for t in range(m)])):
                return k
        return -1
    if last:
        n = eng().concretize(n, EXPAND + 1)
        return find(wrap(seq.cut(0, n)), sub, last)
    k = 0
    while bool(n >= k + m):
        eng().tick()
        if bool(sand(*[seq.at(k + t) == pat[t] for t in range(m)])):
            return k
        k += 1
    return -1


def _find_long(seq, pat, last):
    """Windows piece by piece.  'Not found so far' is instantiated where the content is read."""
    e = eng()
    n = seq.length
    m = len(pat)
    if not le(m, n):
        return -1
    starts = []
    pos = 0
    for s in seq.segs:
        starts.append(pos)
        pos = pos + s.n

    def at_edge(i):
        """Windows that begin in piece i and end behind it."""
        s, p = seq.segs[i], starts[i]
        if i == len(seq.segs) - 1 or m == 1:
            return None
        for t in range(m - 1, 0, -1) if not last else range(1, m):  # t elements inside the piece
            if not bool(s.n >= t):
                if last:
                    break
                continue
            k = p + s.n - t
            if not le(k + m, n):
                continue
            c = sand(*[_read(s, s.n - t + u) == pat[u] for u in range(t)])
            if c is False or not bool(c):
                continue
            if bool(sand(*[seq.at(k + u) == pat[u] for u in range(t, m)])):
                return k
        return None

    def inside(i):
        s, p = seq.segs[i], starts[i]
        b = s.base
        if isinstance(b, FillBase):
            c = sand(*[b.elem == v for v in pat])
            if c is False or not bool(s.n >= m) or not bool(c):
                return None
            return p + s.n - m if last else p
        if isinstance(b, (LitBase, TermBase)):
            elems = b.elems if isinstance(b, TermBase) else [ord(x) for x in b.val] if b.text else b.val
            ks = range(len(elems) - m + 1)
            for k in reversed(ks) if last else ks:
                c = sand(*[elems[k + t] == pat[t] for t in range(m)])
                if c is False:
                    continue
                c = sand(s.start <= k, k + m <= s.start + s.n, c)
                if c is not False and bool(c):
                    return p + (k - s.start)
            return None
        if is_int(s.n) and s.n <= EXPAND:
            ks = range(s.n - m + 1)
            for k in reversed(ks) if last else ks:
                c = sand(*[_read(s, k + t) == pat[t] for t in range(m)])
                if c is not False and bool(c):
                    return p + k
            return None
        if not bool(s.n >= m):
            return None
        found = z3.Bool(e.fresh("find"))
        k = core.var(e.fresh("at"), None, None)
        hit = sand(*[_read(s, k + t) == pat[t] for t in range(m)])
        if hit is False:
            return None
        hitz = hit.e if isinstance(hit, SymBool) else z3.BoolVal(True)
        kz, nz = k.z(), zint(s.n)
        e.axiom(z3.Implies(found, z3.And(kz >= 0, kz <= nz - m, hitz)))
        root = _root(b)
        if root is not None and isinstance(b, ArrBase):
            pz = [zint(v) for v in pat]

            def inst(base, idx):
                off = zint(idx - s.start)
                out = []
                for t in range(m):  # the read element is the t-th of the window
                    w = off - t
                    start = zint(s.start) + w
                    miss = z3.Or(*[base.f(start + u) != pz[u] for u in range(m)])
                    before = w > kz if last else w < kz
                    out.append(z3.Implies(z3.And(w >= 0, w <= nz - m, z3.Or(z3.Not(found), before)), miss))
                return z3.And(*out)

            e.universal([root], inst)
        return p + k if bool(mkbool(found)) else None

    order = range(len(seq.segs))
    for i in reversed(order) if last else order:
        for step in (at_edge, inside) if last else (inside, at_edge):
            k = step(i)
            if k is not None:
                return k
    return -1



# --------------------------------------------------------------------------- text


def _codec_name(encoding):
    if not isinstance(encoding, str):
        raise TypeError("encoding must be str")
    return codecs.lookup(str(encoding)).name


def decode(seq, encoding="utf-8", errors="strict"):
    name = _codec_name(encoding)
    seq = wrap(seq)
    if name == "utf-8":
        return _decode_utf8(seq, errors)
    if name == "utf-8-sig":
        bom = bool(seq.length >= 3) and all(bool(seq[i] == x) for i, x in enumerate(b"\xef\xbb\xbf"))
        return _decode_utf8(wrap(seq[3:]) if bom else seq, errors)
    codec = Table.get(name)
    if not codec.total:
        valid = [b for b, c in enumerate(codec.dec) if c is not None]
        pred = _in_vals(set(valid))
        for s in seq.segs:
            r = _root(s.base)
            if r is not None and s.base is r and r.codec is codec:
                continue
            ok = all_pred(SymBytes((s,)), pred, "decodable")
            if not bool(ok):
                if errors != "strict":
                    raise Bounded("lenient decoding of undefined bytes")
                raise UnicodeDecodeError(name, b"?", 0, 1, "character maps to <undefined>")
    out = []
    for s in seq.segs:
        out.append(_decode_seg(s, codec))
    return SymStr.make(out)


def _decode_seg(s, codec):
    b = s.base
    if isinstance(b, EncBase) and b.codec is codec:
        return Seg(b.inner, s.start, s.n)
    c = _const_elems(s)
    if c is not None:
        return explicit([map_elem(x, codec) for x in c], True)
    if isinstance(b, FillBase):
        return Seg(FillBase.get(map_elem(b.elem, codec), True), 0, s.n)
    return Seg(MapBase.get(b, codec), s.start, s.n)


def encode(seq, encoding="utf-8", errors="strict"):
    name = _codec_name(encoding)
    seq = wrap(seq)
    if name == "utf-8":
        return _encode_utf8(seq, errors)
    if name == "utf-8-sig":
        return b"\xef\xbb\xbf" + _encode_utf8(seq, errors)
    codec = Table.get(name)
    pred = _in_vals(set(codec.enc))
    out = []
    for s in seq.segs:
        b = s.base
        if isinstance(b, MapBase) and b.codec is codec:
            out.append(Seg(b.inner, s.start, s.n))
            continue
        if isinstance(b, Utf8Text):
            raise Bounded("non-ASCII UTF-8 text in another encoding")
        if not bool(all_pred(SymStr((s,)), pred, "encodable")):
            if errors == "strict":
                raise UnicodeEncodeError(name, "?", 0, 1, "character maps to <undefined>")
            if errors not in ("replace", "ignore") or _const_elems(s) is None:
                raise Bounded("lenient encoding")
            for x in _const_elems(s):
                if bool(pred(x)):
                    out.append(explicit([enc_elem(x, codec)], False))
                elif errors == "replace":
                    out.append(explicit([63], False))
            continue
        c = _const_elems(s)
        if c is not None:
            out.append(explicit([enc_elem(x, codec) for x in c], False))
        elif isinstance(b, FillBase):
            out.append(Seg(FillBase.get(enc_elem(b.elem, codec), False), 0, s.n))
        else:
            out.append(Seg(EncBase.get(b, codec), s.start, s.n))
    return SymBytes.make(out)


ASCII = Table.get("ascii")


def _ascii_root(b):
    return isinstance(b, ArrBase) and b.codec is ASCII


def _decode_utf8(seq, errors):
    e = eng()
    # the bytes of exactly one known UTF-8 text?
    if len(seq.segs) == 1:
        s = seq.segs[0]
        for u in e.env.get("utf8", ()):
            if u.inner is s.base and same(u.start, s.start) and same(u.n, s.n):
                return SymStr.make((Seg(u, 0, u.nchars),))
    if not seq.segs:
        return ""
    if all(_ascii_root(s.base) for s in seq.segs) or bool(all_pred(seq, _ascii_pred, "ascii")):
        return SymStr.make([_decode_seg(s, ASCII) for s in seq.segs])
    if is_int(seq.length) and seq.length <= 12:
        return from_elems(_utf8_chars(seq.elems(), errors), "str")
    # arbitrary non-ASCII bytes: either malformed, or some shorter text (over-approximated)
    if bool(mkbool(z3.Bool(e.fresh("malformed")))):
        if errors != "strict":
            raise Bounded("lenient decoding")
        raise UnicodeDecodeError("utf-8", b"?", 0, 1, "invalid")
    if len(seq.segs) != 1:
        raise Bounded("non-ASCII UTF-8 text made of several parts")
    s = seq.segs[0]
    n = core.var(e.fresh("u8chars"), 1, None)
    e.assume(n < s.n)
    e.assume(n * 4 >= s.n)
    return SymStr.make((Seg(new_utf8(s.base, s.start, s.n, n), 0, n),))


def new_utf8(base, start, n, nchars):
    u = Utf8Text(base, start, n, nchars)
    eng().env.setdefault("utf8", []).append(u)
    return u


def _utf8_chars(es, errors):
    """Exact strict UTF-8 decoding of a short list of byte values (forks per class of byte)."""
    out = []
    i = 0

    def bad():
        if errors != "strict":
            raise Bounded("lenient decoding")
        raise UnicodeDecodeError("utf-8", b"?", 0, 1, "invalid")

    def cont(k, lo=0x80, hi=0xBF):
        if k >= len(es):
            bad()
        if not bool(sand(es[k] >= lo, es[k] <= hi)):
            bad()
        return es[k] - 0x80

    while i < len(es):
        b = es[i]
        if bool(b < 0x80):
            out.append(b)
            i += 1
        elif bool(b < 0xC2):
            bad()
        elif bool(b < 0xE0):
            out.append((b - 0xC0) * 64 + cont(i + 1))
            i += 2
        elif bool(b < 0xF0):
            lo = 0xA0 if bool(b == 0xE0) else 0x80
            hi = 0x9F if bool(b == 0xED) else 0xBF
            out.append((b - 0xE0) * 4096 + cont(i + 1, lo, hi) * 64 + cont(i + 2))
            i += 3
        elif bool(b < 0xF5):
            lo = 0x90 if bool(b == 0xF0) else 0x80
            hi = 0x8F if bool(b == 0xF4) else 0xBF
            out.append((b - 0xF0) * 262144 + cont(i + 1, lo, hi) * 4096 + cont(i + 2) * 64 + cont(i + 3))
            i += 4
        else:
            bad()
    return out


def _utf8_bytes(chars, errors):
    """Exact UTF-8 encoding of a short list of code points (forks per length of the encoding)."""
    out = []
    for ch in chars:
        if bool(ch < 0x80):
            out.append(ch)
        elif bool(ch < 0x800):
            out += [0xC0 + ch // 64, 0x80 + ch % 64]
        elif bool(ch < 0x10000):
            if bool(sand(ch >= 0xD800, ch <= 0xDFFF)):
                if errors != "strict":
                    raise Bounded("lenient encoding")
                raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
            out += [0xE0 + ch // 4096, 0x80 + ch // 64 % 64, 0x80 + ch % 64]
        else:
            out += [0xF0 + ch // 262144, 0x80 + ch // 4096 % 64, 0x80 + ch // 64 % 64, 0x80 + ch % 64]
    return out


def _encode_utf8(seq, errors):
    e = eng()
    out = []
    for s in seq.segs:
        b = s.base
        if isinstance(b, Utf8Text):
            if same(s.start, 0) and same(s.n, b.nchars):
                out.append(Seg(b.inner, b.start, b.n))
                continue
            raise Bounded("part of a non-ASCII UTF-8 text")
        one = SymStr((s,))
        if isinstance(b, MapBase) and b.codec is ASCII or bool(all_pred(one, _ascii_pred, "ascii")):
            c = _const_elems(s)
            if c is not None:
                out.append(explicit(c, False))
            elif isinstance(b, MapBase):
                out.append(Seg(b.inner, s.start, s.n))
            elif isinstance(b, FillBase):
                out.append(Seg(FillBase.get(b.elem, False), 0, s.n))
            else:
                out.append(Seg(EncBase.get(b, ASCII), s.start, s.n))
            continue
        if is_int(s.n) and s.n <= 12 and isinstance(b, (TermBase, LitBase)):
            out.append(explicit(_utf8_bytes(one.elems(), errors), False))
            continue
        # some non-ASCII character: longer than the text (content over-approximated)
        n = core.var(e.fresh("u8len"), 1, None)
        e.assume(n > s.n)
        e.assume(n <= s.n * 4)
        a = ArrBase.get(e.fresh("u8bytes"))
        e.notes.add("UTF-8 encoding of a non-ASCII single-byte text is over-approximated")
        out.append(Seg(a, 0, n))
    return SymBytes.make(out)


# --------------------------------------------------------------------------- mutable holders


class SymByteArray:
    """A bytearray whose content may be symbolic."""

    __slots__ = ("seq", "exports")
    __class__ = property(lambda self: bytearray)
    __hash__ = None

    def __init__(self, seq=b""):
        self.seq = wrap(seq)
        self.exports = 0

    def _set(self, segs):
        self.seq = wrap(SymBytes.make(segs))

    @property
    def length(self):
        return self.seq.length

    def __len__(self):
        return eng().concretize(self.seq.length)

    def __bool__(self):
        return bool(self.seq)

    def __getitem__(self, i):
        r = self.seq[i]
        return SymByteArray(r) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        n = self.seq.length
        if isinstance(i, slice):
            a, b, step = norm_slice(i, n)
            if step != 1:
                raise Bounded("extended slice assignment")
            if isinstance(v, (list, tuple)):
                v = from_elems([_byte(x) for x in v], "bytes")
            v = coerce(v, False, strict=True)
            self._set(wrap(self.seq.cut(0, a)).segs + v.segs + wrap(self.seq.cut(b, n)).segs)
            return
        i = norm_index(i, n)
        v = _byte(v)
        self._set(wrap(self.seq.cut(0, i)).segs + (explicit([v], False),) + wrap(self.seq.cut(i + 1, n)).segs)

    def __delitem__(self, i):
        n = self.seq.length
        if isinstance(i, slice):
            a, b, step = norm_slice(i, n)
            if step != 1:
                raise Bounded("extended slice deletion")
        else:
            a = norm_index(i, n)
            b = a + 1
        self._set(wrap(self.seq.cut(0, a)).segs + wrap(self.seq.cut(b, n)).segs)

    def put(self, off, data):
        """Overwrite in place (the range is known to be inside)."""
        data = wrap(data)
        n = self.seq.length
        self._set(wrap(self.seq.cut(0, off)).segs + data.segs + wrap(self.seq.cut(off + data.length, n)).segs)

    def extend(self, data):
        if not is_byteslike(data):
            data = from_elems([_byte(x) for x in data], "bytes")
        self._set(self.seq.segs + wrap(data).segs)

    def append(self, v):
        self._set(self.seq.segs + (explicit([_byte(v)], False),))

    def insert(self, i, v):
        self[i:i] = from_elems([_byte(v)], "bytes")

    def pop(self, i=-1):
        v = self.seq[i]
        if i == -1:
            del self[-1:]
        else:
            del self[i:i + 1]
        return v

    def clear(self):
        self.seq = wrap(b"")

    def copy(self):
        return SymByteArray(self.seq)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        o = coerce(o, False)
        return NotImplemented if o is None else SymByteArray(SymBytes.make(self.seq.segs + o.segs))

    def __radd__(self, o):
        o = coerce(o, False)
        return NotImplemented if o is None else SymBytes.make(o.segs + self.seq.segs)

    def __mul__(self, n):
        return SymByteArray(repeat(self.seq, n))

    def __eq__(self, o):
        o = coerce(o, False)
        return False if o is None else seq_eq(self.seq, o)

    def __ne__(self, o):
        return snot(self == o)

    def __iter__(self):
        return iter(self.seq)

    def __contains__(self, x):
        return x in self.seq

    def __bytes__(self):
        raise Bounded("symbolic bytearray handed to native code")

    def __repr__(self):
        return "<symbolic bytearray>"

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self.seq, encoding, errors)

    def __getattr__(self, name):
        if name in ("startswith", "endswith", "find", "rfind", "index", "count", "isascii"):
            return getattr(self.seq, name)
        if name in ("removesuffix", "removeprefix", "strip", "rstrip", "lstrip", "ljust", "rjust"):
            f = getattr(self.seq, name)
            return lambda *a: SymByteArray(f(*a))
        if hasattr(bytearray, name):
            raise Bounded(f"bytearray.{name} is not modelled")
        raise AttributeError(name)


def _byte(v):
    if isinstance(v, SymBool):
        v = core.boolint(v)
    if not isinstance(v, (int, SymInt)):
        raise TypeError("an integer is required")
    if not bool(sand(v >= 0, v <= 255)):
        raise ValueError("byte must be in range(0, 256)")
    return v + 0


class SymMemory:
    """memoryview over symbolic bytes or a bytearray."""

    __slots__ = ("target", "off", "n")
    __class__ = property(lambda self: memoryview)
    __hash__ = None

    def __init__(self, target, off=0, n=None):
        if type(target) is SymMemory:
            off, target, n = target.off + off, target.target, target.n if n is None else n
        self.target = target
        self.off = off
        self.n = seqlen(target) if n is None else n

    @property
    def seq(self):
        return wrap(wrap(self.target).cut(self.off, self.off + self.n))

    @property
    def nbytes(self):
        return self.n

    @property
    def readonly(self):
        return type(self.target) is not SymByteArray

    def put(self, off, data):
        if self.readonly:
            raise TypeError("cannot modify read-only memory")
        self.target.put(self.off + off, data)

    def __len__(self):
        return eng().concretize(self.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, step = norm_slice(i, self.n)
            if step != 1:
                raise Bounded("extended memoryview slice")
            return SymMemory(self.target, self.off + a, b - a)
        return self.seq[i]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            a, b, _ = norm_slice(i, self.n)
            v = wrap(v)
            if not bool(v.length == b - a):
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
            self.put(a, v)
        else:
            self.put(norm_index(i, self.n), from_elems([_byte(v)], "bytes"))

    def tobytes(self):
        return SymBytes.make(self.seq.segs)

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __eq__(self, o):
        o = coerce(o, False)
        return False if o is None else seq_eq(self.seq, o)

    def __iter__(self):
        return iter(self.seq)

    def cast(self, fmt):
        if fmt == "B":
            return self
        raise Bounded("memoryview.cast")


def to_bytes_value(x):
    """bytes(x) for a bytes-like value."""
    return SymBytes.make(wrap(x).segs)


from . import strs  # noqa: E402
