"""Models of the library functions the code under test calls: struct, zlib, io, time, datetime,
enum, and the built-ins that cannot work on symbolic values by themselves."""
from __future__ import annotations

import builtins
import calendar
import codecs
import datetime as _dt
import enum
import functools
import io
import itertools
import os
import pathlib
import re
import struct
import tempfile
import threading
import time
import zlib
import _thread

import z3

from . import core, seqs
from .core import (is_int, Atom, Bounded, SymBool, SymFloat, SymInt, atom, digits_of, eng, from_digits, ikey, mkbool, mkint,
                   sand, snot, sor, zint)
from .seqs import SymByteArray, SymBytes, SymMemory, SymStr, explicit, from_elems, is_byteslike, is_symseq, le, same, seqlen, wrap


def symbolic(x):
    return type(x) in (SymInt, SymBool, SymFloat, SymBytes, SymStr, SymByteArray, SymMemory, SymDatetime, SymDate, SymTime, SymDelta)


# --------------------------------------------------------------------------- struct

INT = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
       "l": (8, True), "L": (8, False), "q": (8, True), "Q": (8, False), "n": (8, True), "N": (8, False), "P": (8, False)}
STD = dict(INT, l=(4, True), L=(4, False))


class StructModel:
    """struct.Struct over symbolic values (native little-endian sizes and alignment for '@')."""

    __class__ = property(lambda self: struct.Struct)

    def __init__(self, fmt):
        if isinstance(fmt, (bytes, bytearray)):
            fmt = fmt.decode("ascii")
        if not isinstance(fmt, str):
            raise TypeError("Struct() argument 1 must be a str or bytes object")
        self.format = fmt
        self.native = None
        if "\u27e6" not in fmt:
            self.native = struct.Struct(fmt)
        self.order, self.fields, self.size = self._parse(fmt)
        if self.native is not None:
            assert self.size == self.native.size

    def _parse(self, fmt):
        order = "@"
        if fmt and fmt[0] in "@=<>!":
            order, fmt = fmt[0], fmt[1:]
        table = INT if order == "@" else STD
        fields = []
        off = 0
        i = 0
        while i < len(fmt):
            c = fmt[i]
            if c.isspace():
                i += 1
                continue
            count = 1
            if c == "\u27e6":
                j = fmt.index("\u27e7", i) + 1
                count = core.MARK[fmt[i:j]]
                if bool(count < 0):
                    raise struct.error("bad char in struct format")
                i = j
                c = fmt[i]
            elif c.isdigit():
                j = i
                while j < len(fmt) and fmt[j].isdigit():
                    j += 1
                count = int(fmt[i:j])
                i = j
                if i >= len(fmt):
                    raise struct.error("repeat count given without format specifier")
                c = fmt[i]
            i += 1
            if c in table:
                w = table[c][0]
                kind = ("i", w, table[c][1])
            elif c == "x":
                off = off + count
                continue
            elif c in "sp":
                if c == "p":
                    raise Bounded("struct format p")
                fields.append((off, ("s", count), None))
                off = off + count
                continue
            elif c in "dfe":
                w = {"d": 8, "f": 4, "e": 2}[c]
                kind = ("f", w, c)
            elif c == "?":
                w, kind = 1, ("?", 1, None)
            elif c == "c":
                w, kind = 1, ("c", 1, None)
            else:
                raise struct.error("bad char in struct format")
            if order == "@":
                if isinstance(off, SymInt):
                    off = off + (-off) % w
                else:
                    off += -off % w
            count = eng().concretize(count) if isinstance(count, SymInt) else count
            for _ in range(count):
                fields.append((off, kind, None))
                off = off + w
        return order, fields, off

    def __repr__(self):
        return "<struct>"

    @property
    def big(self):
        return self.order in ">!"

    # -- packing
    def pack(self, *vals):
        if self.native is not None and not any(symbolic(v) or isinstance(v, SymByteArray) for v in vals):
            return self.native.pack(*vals)
        if len(vals) != len(self.fields):
            raise struct.error(f"pack expected {len(self.fields)} items for packing (got {len(vals)})")
        out = []
        pos = 0
        zero = seqs.FillBase.get(0)
        for (off, kind, _), v in zip(self.fields, vals):
            gap = off - pos
            if not same(gap, 0):
                out.append(seqs.Seg(zero, 0, gap))
            if kind[0] == "s":
                w = kind[1]
                if not (isinstance(v, (bytes, bytearray)) or type(v) in (SymBytes, SymByteArray)):
                    raise struct.error("argument for 's' must be a bytes object")
                s = wrap(v)
                if le(w, s.length):
                    out.extend(wrap(s.cut(0, w)).segs)
                else:
                    out.extend(s.segs)
                    out.append(seqs.Seg(zero, 0, w - s.length))
                pos = off + w
                continue
            es = self._elems(kind, v)
            out.append(explicit(es[::-1] if self.big else es, False))
            pos = off + kind[1]
        gap = self.size - pos
        if not same(gap, 0):
            out.append(seqs.Seg(zero, 0, gap))
        return SymBytes.make(out)

    def _elems(self, kind, v):
        k, w, arg = kind
        if k == "i":
            if isinstance(v, SymBool):
                v = core.boolint(v)
            if not isinstance(v, (int, SymInt)):
                if hasattr(type(v), "__index__") and not symbolic(v):
                    v = v.__index__()
                else:
                    raise struct.error("required argument is not an integer")
            lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if arg else (0, (1 << (8 * w)) - 1)
            if not (bool(v >= lo) and bool(v <= hi)):
                raise struct.error("argument out of range")
            return digits_of(v, w)
        if k == "?":
            return [core.boolint(v) if isinstance(v, SymBool) else (core.boolint(v != 0) if isinstance(v, SymInt) else int(bool(v)))]
        if k == "c":
            s = wrap(v)
            if not bool(s.length == 1):
                raise struct.error("char format requires a bytes object of length 1")
            return s.elems()
        if isinstance(v, SymFloat):
            if arg == "d" and v.bits is not None:
                return list(v.bits)
            raise Bounded("packing a computed float")
        if isinstance(v, (SymInt, SymBool)):
            raise Bounded("packing a symbolic integer as a float")
        return list(struct.pack("<" + arg, v))

    def _slot(self, buf, offset, what):
        """Checked absolute offset of this record inside buf."""
        n = seqlen(buf)
        if isinstance(offset, SymBool):
            offset = core.boolint(offset)
        if not isinstance(offset, (int, SymInt)):
            raise TypeError("integer offset required")
        if bool(offset < 0):
            if bool(offset + self.size > 0):
                raise struct.error(f"{what}: no space at negative offset")
            offset = offset + n
            if bool(offset < 0):
                raise struct.error(f"{what}: offset out of range")
        if not le(self.size, n - offset):
            raise struct.error(f"{what} requires a bigger buffer")
        return offset

    def pack_into(self, buffer, offset, *vals):
        if len(vals) != len(self.fields):
            raise struct.error(f"pack_into expected {len(self.fields)} items for packing (got {len(vals)})")
        if type(buffer) not in (SymByteArray, SymMemory):
            if isinstance(buffer, bytearray):
                raise Bounded("pack_into a native buffer")
            raise TypeError("argument must be read-write bytes-like object")
        offset = self._slot(buffer, offset, "pack_into")
        buffer.put(offset, self.pack(*vals))

    # -- unpacking
    def unpack(self, buf):
        if not is_byteslike(buf):
            raise TypeError(f"a bytes-like object is required, not '{type(buf).__name__}'")
        if self.native is not None and isinstance(buf, (bytes, bytearray)) and not is_symseq(buf):
            return self.native.unpack(buf)
        s = wrap(buf)
        if not bool(s.length == self.size):
            raise struct.error(f"unpack requires a buffer of {self.size} bytes")
        return self._read(s)

    def unpack_from(self, buffer, offset=0):
        if not is_byteslike(buffer):
            raise TypeError(f"a bytes-like object is required, not '{type(buffer).__name__}'")
        if self.native is not None and not is_symseq(buffer) and is_int(offset) and not isinstance(offset, SymInt):
            return self.native.unpack_from(buffer, offset)
        offset = self._slot(buffer, offset, "unpack_from")
        s = wrap(buffer)
        return self._read(wrap(s.cut(offset, offset + self.size)))

    def iter_unpack(self, buffer):
        s = wrap(buffer)
        if not self.size:
            raise struct.error("cannot iteratively unpack with a struct of length 0")
        if not bool(s.length % self.size == 0):
            raise struct.error("iterative unpacking requires a multiple of the size")

        def gen():
            pos = 0
            while bool(pos < s.length):
                eng().tick()
                yield self._read(wrap(s.cut(pos, pos + self.size)))
                pos = pos + self.size

        return gen()

    def _read(self, s):
        if isinstance(s, bytes) and not is_symseq(s):
            return self.native.unpack(s)
        out = []
        for off, kind, _ in self.fields:
            if kind[0] == "s":
                out.append(s.cut(off, off + kind[1]))
                continue
            w = kind[1]
            piece = s.cut(off, off + w)
            es = list(piece) if not is_symseq(piece) else piece.elems(w)
            if self.big:
                es = es[::-1]
            out.append(self._value(kind, es))
        return tuple(out)

    def _value(self, kind, es):
        k, w, arg = kind
        if k == "i":
            return from_digits(es, signed=arg)
        if k == "?":
            return es[0] != 0
        if k == "c":
            return from_elems(es, "bytes")
        if all(is_int(x) for x in es):
            return struct.unpack("<" + arg, bytes(es))[0]
        if arg == "d":
            return SymFloat(bits=es)
        raise Bounded(f"struct format {arg}")


_SC: dict = {}


def _struct(fmt):
    if isinstance(fmt, str) and "\u27e6" not in fmt:
        if fmt not in _SC:
            _SC[fmt] = StructModel(fmt)
        return _SC[fmt]
    return StructModel(fmt)


# --------------------------------------------------------------------------- zlib


def zlib_compress(data, /, level=-1, wbits=15):
    if not is_byteslike(data):
        raise TypeError("a bytes-like object is required")
    if isinstance(level, (SymInt, SymBool)):
        if not bool(sand(level >= -1, level <= 9)):
            raise zlib.error("Bad compression level")
    elif not is_int(level):
        raise TypeError("integer required")
    elif not -1 <= level <= 9:
        raise zlib.error("Bad compression level")
    if wbits != 15:
        raise Bounded("zlib with another window")
    e = eng()
    s = wrap(data)
    toks = e.env.setdefault("zlib", [])
    calls = e.env.setdefault("zlib_calls", [])
    for k, t in enumerate(toks):
        if _same_input(t, s, level):
            calls.append(k)
            return SymBytes.make((seqs.Seg(t[0], 0, t[1]),))
    k = len(toks)
    calls.append(k)
    base = seqs.ArrBase.get(f"z{k}")
    n = s.length
    cfg = e.env.get("zlib_len")
    if cfg is None:
        L = core.var(f"z{k}.len", 8, (1 << 31) - 1)
    else:
        L = core.var(f"z{k}.q", 1, (1 << 28) - 1) * 8 + cfg[k % len(cfg)]
    e.assume(L <= n + n // 1000 + 64)
    # a stream starts with its method byte (deflate, 32 KiB window); nothing else is assumed of its content
    stream = SymBytes.make((seqs.Seg(base, 0, L),))
    e.assume(wrap(stream).at(0) == 0x78)
    toks.append((base, L, s, level))
    e.inputs[f"z{k}"] = ("zlib", base, L)
    return stream


def _same_input(t, s, level):
    """Whether a known stream was made from just this input (no fork on the content)."""
    if t[2].key() == s.key() and ikey(t[3]) == ikey(level):
        return True
    if not eng().env.get("zlib_memo"):
        return False
    same = level == t[3]
    if same is not True and (same is False or eng().decide(same) is not True):
        return False
    same = t[2].length == s.length
    if same is not True and (same is False or eng().decide(same) is not True):
        return False
    same = seqs.seq_eq(t[2], s)
    return same is True or (same is not False and eng().decide(same) is True)


def _zlib_find(s):
    """(token, rest) when s starts with a whole known stream."""
    e = eng()
    if not s.segs:
        return None
    f = s.segs[0]
    for t in e.env.get("zlib", ()):
        if f.base is t[0] and (same(f.start, 0) or eng().decide(f.start == 0) is True):
            if le(t[1], f.n):
                return t
            return None
    return None


def zlib_decompress(data, /, wbits=15, bufsize=16384):
    if not is_byteslike(data):
        raise TypeError("a bytes-like object is required")
    if not is_symseq(data):
        return zlib.decompress(data)
    s = wrap(data)
    t = _zlib_find(s)
    if t is not None:
        return seqs.to_bytes_value(t[2])
    e = eng()
    if s.segs and any(s.segs[0].base is t[0] for t in e.env.get("zlib", ())):
        raise zlib.error("Error -5 while decompressing data: incomplete or truncated stream")
    # unknown content: an error or any bytes at all, the same for the same content
    memo = e.env.setdefault("inflate_memo", [])
    for prev, out in memo:
        if prev.key() == s.key() or bool(seqs.seq_eq(prev, s)):
            if out is None:
                raise zlib.error("Error -3 while decompressing data: incorrect header check")
            return out
    if bool(mkbool(z3.Bool(e.fresh("zbad")))):
        memo.append((s, None))
        raise zlib.error("Error -3 while decompressing data: incorrect header check")
    k = e.env.setdefault("inflated", 0)
    e.env["inflated"] = k + 1
    n = core.var(f"inf{k}.len", 0, e.env.get("inflate_max", 1 << 31))
    base = seqs.ArrBase.get(f"inf{k}")
    e.inputs[f"inf{k}"] = ("inflate", base, n, s)
    out = SymBytes.make((seqs.Seg(base, 0, n),))
    memo.append((s, out))
    return out


class CompressObj:
    def __init__(self, level=-1, *a, **k):
        if is_int(level) and not isinstance(level, SymInt) and not -1 <= level <= 9:
            raise ValueError("Invalid initialization option")
        self.level = level
        self.parts = wrap(b"")
        self.done = False

    def compress(self, data):
        self.parts = wrap(SymBytes.make(self.parts.segs + wrap(data).segs))
        return b""

    def flush(self, mode=4):
        if mode != 4:
            raise Bounded("zlib partial flush")
        if self.done:
            return b""
        self.done = True
        return zlib_compress(seqs.to_bytes_value(self.parts), self.level)


class DecompressObj:
    """decompressobj; with max_length the output comes in pieces (the rest of the input is then the whole stream again)."""

    def __init__(self, *a, **k):
        self.eof = False
        self.unused_data = b""
        self.unconsumed_tail = b""
        self.pending = wrap(b"")
        self.held = None  # output not given yet

    def _give(self, out, max_length):
        out = wrap(out)
        if is_int(max_length) and max_length == 0 or not bool(max_length < out.length):
            self.held, self.eof, self.unconsumed_tail = None, True, b""
            return seqs.to_bytes_value(out)
        self.held = wrap(out.cut(max_length, out.length))
        self.unconsumed_tail = b"\0"  # some input is left; its content does not matter
        return seqs.to_bytes_value(out.cut(0, max_length))

    def decompress(self, data, max_length=0):
        if bool(max_length < 0):
            raise ValueError("max_length must be non-negative")
        if self.eof:
            self.unused_data = wrap(self.unused_data) + data
            return b""
        if self.held is not None:
            return self._give(self.held, max_length)
        s = wrap(SymBytes.make(self.pending.segs + wrap(data).segs))
        t = _zlib_find(s)
        if t is None:
            known = s.segs and any(s.segs[0].base is t[0] for t in eng().env.get("zlib", ()))
            if known or not s.segs:
                self.pending = s
                return b""
            return self._give(zlib_decompress(seqs.to_bytes_value(s)), max_length)
        self.unused_data = s.cut(t[1], s.length)
        return self._give(t[2], max_length)

    def flush(self, length=16384):
        if self.held is not None:
            return self._give(self.held, 0)
        return b""


# --------------------------------------------------------------------------- streams


FD = 1 << 20  # numbers of the open files of the model


def by_fd(fd):
    opened = eng().env.get("opened", ())
    return opened[fd - FD] if is_int(fd) and 0 <= fd - FD < len(opened) else None


class Stat:
    __class__ = property(lambda self: os.stat_result)

    def __init__(self, size):
        self.st_size = size
        self.st_mode = 0o100644

    def __getitem__(self, i):
        if i == 6:
            return self.st_size
        raise Bounded("file status")

    def __getattr__(self, name):
        raise Bounded("file status " + name)


def sym_fstat(fd):
    f = by_fd(fd)
    return os.fstat(fd) if f is None else Stat(f.arrived())


def sym_stat(path, *a, **k):
    if is_int(path) and by_fd(path) is not None:
        return sym_fstat(path)
    fs, key = fs_key(path)
    if key is None:
        return os.stat(path, *a, **k)
    return Stat(sym_getsize(path))


def sym_fsync(fd):
    if by_fd(fd) is None:
        os.fsync(fd)


def sym_ftruncate(fd, n):
    f = by_fd(fd)
    if f is None:
        raise Bounded("os.ftruncate of a real file")
    f.truncate(n)


class SymLock:
    """threading.Lock and RLock in a program of one thread: waiting for a held lock never ends."""

    def __init__(self, again=False):
        self.again = again
        self.count = 0
        self.env = None

    @property
    def held(self):
        """How often it is held on this path."""
        if self.env is not eng().env:
            self.env, self.count = eng().env, 0
        return self.count

    @held.setter
    def held(self, n):
        self.count = n

    def acquire(self, blocking=True, timeout=-1):
        if self.held and not self.again:
            if not blocking or timeout >= 0:
                return False
            raise core.Hang("waits for a lock that is never released")
        self.held += 1
        return True

    acquire_lock = acquire

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held -= 1

    release_lock = release

    def locked(self):
        return self.held > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SymStream:
    """io.BytesIO / a binary file whose content may be symbolic.  Every write is logged."""

    def __init__(self, data=b"", readable=True, writable=True, name=None, kind=None):
        self.buf = wrap(data)
        self.pos = 0
        self.is_closed = False
        self.log = []
        self._r = readable
        self._w = writable
        self.kind = kind
        self.name = name
        self.closes = 0
        self.on_write = None
        self.opened_as = None
        self.append = False
        self.synced = self.buf.length  # of a named file: what has left the buffer of the file object
        self.pending = []
        self.reads = []  # of a named file, through its buffer
        self.moved = False

    @property
    def raw(self):
        """The file below the buffer: what was read through the buffer is gone from it."""
        if self.opened_as is None or self.kind is io.FileIO:
            raise AttributeError("no attribute 'raw'")
        if not same(self.synced, self.buf.length):
            raise Bounded("the raw file below unwritten data")
        for pos, n in self.reads:
            if bool(n > 0):
                if self.moved or bool(self.buf.length - pos > 8192):
                    raise Bounded("the position of the raw file")
                return SymRaw(self)
        return self

    def arrived(self):
        """Length of a named file as seen by others: small writes wait in the buffer."""
        for n in self.pending:
            if bool(n - self.synced > 8192):
                self.synced = n
        self.pending.clear()
        return self.synced

    @property
    def __class__(self):
        return io.BytesIO if self.kind is None else self.kind

    @property
    def closed(self):
        return self.is_closed

    @property
    def mode(self):
        if self.kind is None:
            raise AttributeError("'_io.BytesIO' object has no attribute 'mode'")
        return "ab+" if self.append and self._r else "ab" if self.append else "rb+" if self._r and self._w else "rb" if self._r else "wb"

    def _check(self):
        if self.is_closed:
            raise ValueError("I/O operation on closed file.")

    def readable(self):
        self._check()
        return self._r

    def writable(self):
        self._check()
        return self._w

    def seekable(self):
        self._check()
        return True

    def read(self, n=-1, /):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation("read")
        eng().tick(4)
        size = self.buf.length
        if isinstance(n, SymBool):
            n = core.boolint(n)
        if n is not None and not isinstance(n, (int, SymInt)):
            raise TypeError("argument should be integer or None")
        if not bool(self.pos < size):
            return b""
        left = size - self.pos
        if n is None or bool(n < 0) or le(left, n):
            n = left
        out = self.buf.cut(self.pos, self.pos + n)
        if self.opened_as is not None and len(self.reads) < 8:
            self.reads.append((self.pos, n))
        self.pos = self.pos + n
        return out

    def read1(self, n=-1, /):
        """At most what one system call reads (named files)."""
        if self.opened_as is not None and bool(sor(n < 0, n > 8192)):
            n = 8192
        return self.read(n)

    def readall(self):
        return self.read()

    def peek(self, n=0):
        """What is in the buffer, whatever was asked for: the rest of a short file, at least one byte of a long one."""
        p = self.pos
        r = self.read(8192)
        self.pos = p
        return r

    def readinto(self, target):
        d = self.read(seqlen(target))
        SymMemory(target).put(0, d) if type(target) is not SymMemory else target.put(0, d)
        return seqlen(d)

    def readline(self, *a):
        raise Bounded("readline")

    def write(self, data, /):
        self._check()
        if not self._w:
            raise io.UnsupportedOperation("write")
        if not is_byteslike(data):
            raise TypeError("a bytes-like object is required")
        eng().tick(4)
        d = wrap(data)
        if self.on_write is not None:
            self.on_write(self, d)
        size = self.buf.length
        if self.append:
            self.pos = size
        self.log.append((self.pos, seqs.to_bytes_value(d)))
        segs = self.buf.segs
        if same(self.pos, size):
            segs = segs + d.segs
        elif bool(self.pos >= size):
            segs = (*segs, seqs.Seg(seqs.FillBase.get(0), 0, self.pos - size), *d.segs)
        else:
            end = self.pos + d.length
            tail = wrap(self.buf.cut(end, size)).segs if bool(end < size) else ()
            segs = wrap(self.buf.cut(0, self.pos)).segs + d.segs + tail
        self.buf = wrap(SymBytes.make(segs))
        self.pos = self.pos + d.length
        if self.opened_as is not None:
            self.pending.append(self.buf.length)
        return d.length

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def seek(self, off, whence=0, /):
        self._check()
        if not isinstance(off, (int, SymInt)):
            raise TypeError("integer required")
        if whence == 0:
            if bool(off < 0):
                raise ValueError("negative seek value")
            p = off
        elif whence in (1, 2):
            p = (self.pos if whence == 1 else self.buf.length) + off
            if bool(p < 0):
                if self.kind is not None:
                    raise OSError(22, "Invalid argument")
                p = 0
        else:
            raise ValueError("invalid whence")
        self.pos = p
        self.moved = bool(self.reads)
        self.sync()
        return p

    def tell(self):
        self._check()
        return self.pos

    def truncate(self, size=None):
        self._check()
        size = self.pos if size is None else size
        if bool(size < self.buf.length):
            self.buf = wrap(self.buf.cut(0, size))
        elif self.kind is not None:
            self.buf = wrap(SymBytes.make((*self.buf.segs, seqs.Seg(seqs.FillBase.get(0), 0, size - self.buf.length))))
        self.log.append(("truncate", size))
        return size

    def getvalue(self):
        self._check()
        return seqs.to_bytes_value(self.buf)

    def getbuffer(self):
        return SymMemory(self.getvalue())

    def sync(self):
        self.synced = self.buf.length
        self.pending.clear()

    def flush(self):
        self._check()
        self.sync()

    def close(self):
        if not self.is_closed:
            self.closes += 1
            self.sync()
        self.is_closed = True

    def fileno(self):
        self._check()
        if self.opened_as is None:
            raise io.UnsupportedOperation("fileno")
        return FD + eng().env["opened"].index(self)

    def isatty(self):
        return False

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        raise Bounded("line iteration over a binary file")

    # harness side
    def content(self):
        return seqs.to_bytes_value(self.buf)


class SymRaw:
    """The file below a buffer that has taken everything that is left."""

    def __init__(self, file):
        self.file = file
        self.pos = file.buf.length

    @property
    def __class__(self):
        return io.FileIO

    def _through(self, name, *a):
        keep, self.file.pos = self.file.pos, self.pos
        try:
            return getattr(self.file, name)(*a)
        finally:
            self.pos, self.file.pos = self.file.pos, keep

    def read(self, n=-1, /):
        return self._through("read", n)

    def readall(self):
        return self._through("read")

    def readinto(self, target):
        return self._through("readinto", target)

    def write(self, data, /):
        return self._through("write", data)

    def seek(self, off, whence=0, /):
        return self._through("seek", off, whence)

    def tell(self):
        return self._through("tell")

    def __getattr__(self, name):
        return getattr(self.file, name)

    def __enter__(self):
        self.file._check()
        return self

    def __exit__(self, *a):
        self.file.close()

    def __iter__(self):
        raise Bounded("line iteration over a binary file")


class SymBuffered:
    """io.BufferedReader and its like around another stream, without reading ahead."""

    def __init__(self, raw, cls):
        self.raw = raw
        self._cls = cls

    @property
    def __class__(self):
        return self._cls

    def detach(self):
        raw, self.raw = self.raw, None
        return raw

    def __getattr__(self, name):
        return getattr(self.raw, name)

    def __enter__(self):
        self.raw._check()
        return self

    def __exit__(self, *a):
        self.raw.close()

    def __iter__(self):
        raise Bounded("line iteration over a binary file")


def buffered(cls):
    def make(raw, buffer_size=8192):
        return SymBuffered(raw, cls) if type(raw) in (SymStream, SymBuffered) else cls(raw, buffer_size)

    return make


def checksum(native, name):
    """A number that equal data share; which one is left open."""

    def f(data, value=None, /):
        start = value if value is not None else 0 if name == "crc32" else 1
        data = seqs.to_bytes_value(wrap(data)) if is_symseq(data) else data
        if not symbolic(data) and is_int(start):
            return native(data, start)
        seen = eng().env.setdefault("checksums", [])
        for n, d, s, r in seen:
            if n == name and same(s, start) and wrap(d).key() == wrap(data).key():
                return r
        r = core.var(f"{name}.{len(seen)}", 0, 0xFFFFFFFF)
        seen.append((name, data, start, r))
        return r

    return f


def sym_open(file, mode="r", *a, **k):
    e = eng()
    if k.get("opener") is not None or not k.get("closefd", True):
        raise Bounded("open with an opener or a descriptor that stays open")
    if is_int(file) and not isinstance(file, bool):
        return sym_fdopen(file, mode)
    fs = e.env.get("fs")
    key = os.fspath(file) if not isinstance(file, (str, bytes)) else file
    if fs is None:
        raise Bounded("open of a real file")
    key = scratch_name(key)
    if key not in fs and os.path.exists(key):
        raise Bounded("open of a real file")
    if "b" not in mode:
        raise Bounded("text mode file")
    kind = "".join(sorted(mode.replace("b", "")))
    old = fs.get(key)
    if kind not in ("r", "w", "x", "a", "+r", "+w", "+x", "+a"):
        raise ValueError(f"invalid mode: {mode!r}")
    if "r" in kind and old is None:
        raise FileNotFoundError(2, "No such file or directory", key)
    if "x" in kind and old is not None:
        raise FileExistsError(17, "File exists", key)
    if kind == "r":
        f = SymStream(old.buf, True, False, kind=io.BufferedReader)
    else:
        keep = old is not None and kind[-1] in "ra"
        f = SymStream(old.buf if keep else b"", "+" in kind, True, kind=io.BufferedRandom if "+" in kind else io.BufferedWriter)
        if "a" in kind:
            f.append, f.pos = True, f.buf.length
        fs[key] = f
    f.opened_as = key
    e.env.setdefault("opened", []).append(f)
    return f


def sym_os_open(path, flags, mode=0o777, **k):
    """A descriptor of a file of the model; opened by os.fdopen or open."""
    fs = eng().env.get("fs")
    if fs is None:
        raise Bounded("open of a real file")
    key = scratch_name(os.fspath(path))
    old = fs.get(key)
    if old is None and os.path.exists(key):
        raise Bounded("open of a real file")
    rw = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
    rest = flags & ~(rw | os.O_CREAT | os.O_TRUNC | os.O_EXCL | os.O_APPEND | os.O_CLOEXEC | os.O_NOCTTY | os.O_NOFOLLOW | os.O_SYNC | os.O_DSYNC)
    if rest or flags & os.O_TRUNC and rw == os.O_RDONLY:
        raise Bounded("os.open flags")
    if old is None and not flags & os.O_CREAT:
        raise FileNotFoundError(2, "No such file or directory", path)
    if old is not None and flags & os.O_CREAT and flags & os.O_EXCL:
        raise FileExistsError(17, "File exists", path)
    f = SymStream(b"" if old is None or flags & os.O_TRUNC else old.buf, rw != os.O_WRONLY, rw != os.O_RDONLY, kind=io.FileIO)
    if flags & os.O_APPEND:
        f.append = True
    if rw != os.O_RDONLY or old is None:
        fs[key] = f
    f.opened_as = key
    opened = eng().env.setdefault("opened", [])
    opened.append(f)
    return FD + len(opened) - 1


def sym_fdopen(fd, mode="r", *a, **k):
    f = by_fd(fd)
    if f is None:
        raise Bounded("os.fdopen of a real file")
    if "b" not in mode:
        raise Bounded("text mode file")
    kind = "".join(sorted(mode.replace("b", "")))
    if kind not in ("r", "w", "x", "a", "+r", "+w", "+x", "+a"):
        raise ValueError(f"invalid mode: {mode!r}")
    f.kind = io.BufferedRandom if "+" in kind else io.BufferedReader if kind == "r" else io.BufferedWriter
    if "+" not in kind:  # the descriptor may do more than the file object
        f._r = f._r and kind == "r"
        f._w = f._w and kind != "r"
    if "a" in kind:
        f.append, f.pos = True, f.buf.length
    return f


def sym_os_write(fd, data):
    f = by_fd(fd)
    if f is None:
        raise Bounded("os.write to a real file")
    n = f.write(data)
    f.sync()
    return n


def sym_os_read(fd, n):
    f = by_fd(fd)
    if f is None:
        raise Bounded("os.read of a real file")
    return getattr(f, "raw", f).read(n)


def sym_os_lseek(fd, pos, whence=0):
    f = by_fd(fd)
    if f is None:
        raise Bounded("os.lseek of a real file")
    return getattr(f, "raw", f).seek(pos, whence)


def sym_os_close(fd):
    f = by_fd(fd)
    if f is None:
        raise Bounded("os.close of a real file")
    f._check()
    f.close()


def scratch_name(key):
    """The absolute name of a file: relative ones lie in the scratch directory, the current one."""
    if isinstance(key, bytes):
        key = os.fsdecode(key)
    here = os.getcwd()
    key = os.path.normpath(os.path.join(here, key))
    return "/scratch" + key[len(here):] if key.startswith(here + "/") else key


def fs_key(path):
    """The scratch table and the key of a path in it."""
    fs = eng().env.get("fs") or {}
    try:
        key = os.fspath(path)
    except TypeError:
        return fs, None
    if not isinstance(key, (str, bytes)):
        return fs, None
    key = scratch_name(key)
    return fs, key if key in fs else None


def sym_exists(path):
    fs, key = fs_key(path)
    if key is None:
        return os.path.exists(path)
    return fs[key] is not None


def sym_getsize(path):
    fs, key = fs_key(path)
    if key is None:
        return os.path.getsize(path)
    if fs[key] is None:
        raise FileNotFoundError(2, "No such file or directory", key)
    return fs[key].arrived()


def sym_remove(path, *a, **k):
    fs, key = fs_key(path)
    if key is None:
        raise Bounded("removal of a real file")
    if fs[key] is None:
        raise FileNotFoundError(2, "No such file or directory", key)
    fs[key] = None


def sym_replace(src, dst, *a, **k):
    fs, x = fs_key(src)
    _, y = fs_key(dst)
    if x is None or y is None:
        raise Bounded("renaming of a real file")
    if fs[x] is None:
        raise FileNotFoundError(2, "No such file or directory", x)
    fs[y], fs[x] = fs[x], None


def path_open(self, mode="r", buffering=-1, *a, **k):
    return sym_open(self, mode)


def path_read_bytes(self):
    with sym_open(self, "rb") as f:
        return f.read()


def path_write_bytes(self, data):
    with sym_open(self, "wb") as f:
        return f.write(data)


def path_unlink(self, missing_ok=False):
    if missing_ok and not sym_exists(self):
        return
    sym_remove(self)


def sym_bytesio(initial=b""):
    return SymStream(initial)


# --------------------------------------------------------------------------- clock and datetime

GRID = 20  # clock readings are multiples of 2**-20 seconds
LO, HI = 0, 4102444800  # 1970..2100
TZ_OFFSET = 5 * 3600 + 45 * 60  # local time of the model and of the replays: UTC+05:45


def clock_reading():
    """The next reading of the system clock, in units of 2**-20 seconds."""
    e = eng()
    c = e.env.setdefault("clock", {"mode": "fixed", "n": 0, "used": []})
    i = c["n"]
    c["n"] += 1
    if c["mode"] == "set":
        n = c["now"]
    elif c["mode"] == "fixed":
        n = (1_700_000_000 << GRID) + i * (1 << GRID) // 8
    else:
        # days, hours, minutes, seconds and the fraction, so that calendar fields stay linear
        n = core.var(f"clk{i}.d", 0, HI // 86400 - 1)
        for part, top in (("h", 23), ("m", 59), ("s", 59)):
            n = n * (top + 1 if part != "h" else 24) + core.var(f"clk{i}.{part}", 0, top)
        n = n * (1 << GRID) + core.var(f"clk{i}.f", 0, (1 << GRID) - 1)
        if c["mode"] == "monotone" and c["used"]:
            e.assume(n >= c["used"][-1])
        if c["mode"] == "still" and c["used"]:
            n = c["used"][-1]
    c["used"].append(n)
    return n


def steady_reading():
    """The next reading of the monotonic clock, in units of 2**-20 seconds: it never goes backwards."""
    e = eng()
    used = e.env.setdefault("steady", [])
    clock = e.env.get("clock", {"mode": "fixed"})
    if clock["mode"] == "set":
        n = clock["steady"]
    elif clock["mode"] == "fixed":
        n = (5000 << GRID) + len(used) * (1 << GRID) // 8
    else:
        n = core.var(f"steady{len(used)}", 0, 1 << 50)
        if used:
            n = n + used[-1]
    used.append(n)
    return n


def sym_steady():
    return SymFloat.on_grid(steady_reading(), GRID)


def sym_steady_ns():
    return steady_reading() * 1_000_000_000 // (1 << GRID)


def sym_time():
    return SymFloat.on_grid(clock_reading(), GRID)


def sym_time_ns():
    return clock_reading() * 1_000_000_000 // (1 << GRID)


def no_model(name):
    def f(*a, **k):
        raise Bounded(f"{name} is not modelled")

    return f


class SymDatetime:
    __slots__ = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo", "instant", "_wd", "fold", "_day")
    __class__ = property(lambda self: _dt.datetime)

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, instant=None, wd=None):
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second, self.microsecond = hour, minute, second, microsecond
        self.tzinfo = tzinfo
        self.instant = instant
        self._wd = wd
        self._day = None  # days since the epoch
        self.fold = 0

    def weekday(self):
        if self._wd is None:
            y, m, d = self.year, self.month, self.day
            if not any(isinstance(x, SymInt) for x in (y, m, d)):
                self._wd = _dt.date(y, m, d).weekday()
            else:
                f = z3.Function("weekday", *[z3.IntSort()] * 4)
                deps = tuple(a for x in (y, m, d) if isinstance(x, SymInt) for a in x.atoms())
                a = atom(("weekday", ikey(y), ikey(m), ikey(d)),
                         lambda: Atom(f(zint(y), zint(m), zint(d)), 0, 6, [], deps))
                self._wd = mkint(0, {a: 1})
                eng().env.setdefault("weekdays", []).append((y, m, d, self._wd))
        return self._wd

    def isoweekday(self):
        return self.weekday() + 1

    def days(self):
        """Days since 1970-01-01."""
        if self._day is None:
            y, m, d = self.year, self.month, self.day
            if not any(isinstance(x, SymInt) for x in (y, m, d)):
                return _dt.date(y, m, d).toordinal() - EPOCH
            wd = self.weekday()
            f = z3.Function("week", *[z3.IntSort()] * 4)
            deps = tuple(a for x in (y, m, d) if isinstance(x, SymInt) for a in x.atoms())
            a = atom(("week", ikey(y), ikey(m), ikey(d)), lambda: Atom(f(zint(y), zint(m), zint(d)), 0, 521722, [], deps))
            self._day = mkint(0, {a: 7}) + wd + 1 - EPOCH
            eng().env.setdefault("civils", []).append((self._day, y, m, d))
        return self._day

    def toordinal(self):
        return self.days() + EPOCH

    def micros(self):
        """Microseconds since 1970-01-01, as on the clock on the wall."""
        s = ((self.days() * 24 + self.hour) * 60 + self.minute) * 60 + self.second
        return s * 1_000_000 + self.microsecond

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(None)

    def date(self):
        r = SymDate(self.year, self.month, self.day, wd=self._wd)
        r._day = self._day
        return r

    def time(self):
        return SymTime(self.hour, self.minute, self.second, self.microsecond)

    def timetz(self):
        return SymTime(self.hour, self.minute, self.second, self.microsecond, self.tzinfo)

    def __add__(self, o):
        if not isinstance(o, _dt.timedelta):
            return NotImplemented
        return shifted(self, delta_micros(o))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return shifted(self, -delta_micros(o))
        if isinstance(o, _dt.datetime):
            return difference(self, o)
        return NotImplemented

    def __rsub__(self, o):
        return difference(o, self) if isinstance(o, _dt.datetime) else NotImplemented

    def _order(self, o):
        d = difference(self, o)
        return d.us if isinstance(d, SymDelta) else d // _dt.timedelta(microseconds=1)

    def __lt__(self, o):
        return self._order(o) < 0

    def __le__(self, o):
        return self._order(o) <= 0

    def __gt__(self, o):
        return self._order(o) > 0

    def __ge__(self, o):
        return self._order(o) >= 0

    def isocalendar(self):
        class C(tuple):
            year = property(lambda s: s[0])
            weekday = property(lambda s: s[2])

        # the year of the Thursday of the week
        wd, y = self.weekday(), self.year
        if bool(sand(self.month == 1, self.day + 3 - wd < 1)):
            y = y - 1
        elif bool(sand(self.month == 12, self.day + 3 - wd > 31)):
            y = y + 1
        return C((y, None, wd + 1))

    def _fields(self):
        return (self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond)

    def replace(self, **k):
        names = ("year", "month", "day", "hour", "minute", "second", "microsecond")
        if k.keys() <= {"tzinfo", "fold"}:
            r = SymDatetime(*self._fields(), k.get("tzinfo", self.tzinfo), None, self._wd)
            r._day = self._day
            r.fold = k.get("fold", self.fold)
            return r
        vals = {n: getattr(self, n) for n in names}
        tz = k.pop("tzinfo", self.tzinfo)
        vals.update(k)
        return make_datetime(**vals, tzinfo=tz)

    def timetuple(self):
        return struct_time(self, -1)

    def utctimetuple(self):
        off = self.utcoffset()
        return struct_time(self if off is None else shifted(self, -delta_micros(off)), 0)

    def astimezone(self, tz=None):
        if self.instant is None:
            raise Bounded("astimezone of a constructed datetime")
        return from_instant(self.instant, tz if tz is not None else "local")

    def timestamp(self):
        if self.instant is not None and self.tzinfo is not None:
            return SymFloat.make_ratio((self.micros() - delta_micros(self.utcoffset())), 1_000_000)
        off = TZ_OFFSET * 1_000_000 if self.tzinfo is None else delta_micros(self.utcoffset())
        return SymFloat.make_ratio(self.micros() - off, 1_000_000)

    def __eq__(self, o):
        if not isinstance(o, _dt.datetime):
            return False
        if (self.tzinfo is None) != (o.tzinfo is None):
            return False
        f = o._fields() if isinstance(o, SymDatetime) or type(o) is SymDatetime else (
            o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond)
        if self.tzinfo is not None and self.tzinfo != o.tzinfo:
            return self._order(o) == 0
        return sand(*[a == b for a, b in zip(self._fields(), f)])

    def __ne__(self, o):
        return snot(self == o)

    __hash__ = None

    def __repr__(self):
        return "<symbolic datetime>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbolic datetime>"

    def __getattr__(self, name):
        if hasattr(_dt.datetime, name):
            raise Bounded(f"datetime.{name} is not modelled")
        raise AttributeError(name)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


EPOCH = _dt.date(1970, 1, 1).toordinal()


class StructTime(tuple):
    __class__ = property(lambda self: time.struct_time)


for _i, _n in enumerate(("tm_year", "tm_mon", "tm_mday", "tm_hour", "tm_min", "tm_sec", "tm_wday", "tm_yday", "tm_isdst")):
    setattr(StructTime, _n, property(lambda self, i=_i: self[i]))


def struct_time(d, dst):
    y = d.year
    if not any(isinstance(x, SymInt) for x in (y, d.month, d.day)):
        yday = _dt.date(y, d.month, d.day).timetuple().tm_yday
    else:
        yday = None
    return StructTime((y, d.month, d.day, d.hour, d.minute, d.second, d.weekday(), yday, dst))


class SymDate(SymDatetime):
    """A date: a datetime at midnight."""

    __slots__ = ()
    __class__ = property(lambda self: _dt.date)

    def __eq__(self, o):
        return isinstance(o, _dt.date) and not isinstance(o, _dt.datetime) and sand(self.year == o.year, self.month == o.month, self.day == o.day)

    def __add__(self, o):
        return SymDatetime.__add__(self, o).date()

    def __sub__(self, o):
        r = SymDatetime.__sub__(self, o if isinstance(o, _dt.timedelta) else midnight(o))
        return r.date() if isinstance(r, _dt.datetime) else r

    __hash__ = None


class SymTime:
    __slots__ = ("hour", "minute", "second", "microsecond", "tzinfo", "fold")
    __class__ = property(lambda self: _dt.time)

    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        self.hour, self.minute, self.second, self.microsecond, self.tzinfo, self.fold = hour, minute, second, microsecond, tzinfo, 0

    def replace(self, **k):
        return make_time(**{n: k.get(n, getattr(self, n)) for n in ("hour", "minute", "second", "microsecond", "tzinfo")})

    def __eq__(self, o):
        return isinstance(o, _dt.time) and sand(*[getattr(self, n) == getattr(o, n) for n in ("hour", "minute", "second", "microsecond")])

    __hash__ = None

    def __repr__(self):
        return "<symbolic time>"

    def __getattr__(self, name):
        if hasattr(_dt.time, name):
            raise Bounded(f"time.{name} is not modelled")
        raise AttributeError(name)


class SymDelta:
    """A timedelta: microseconds."""

    __slots__ = ("us",)
    __class__ = property(lambda self: _dt.timedelta)

    def __init__(self, us):
        self.us = us

    days = property(lambda self: self.us // 86_400_000_000)
    seconds = property(lambda self: self.us % 86_400_000_000 // 1_000_000)
    microseconds = property(lambda self: self.us % 1_000_000)

    def total_seconds(self):
        r = SymFloat.make_ratio(self.us, 1_000_000)
        if r is None:
            raise Bounded("total_seconds of an unbounded time difference")
        return r

    def __add__(self, o):
        if isinstance(o, _dt.datetime):
            return shifted(o, self.us)
        return mkdelta(self.us + delta_micros(o)) if isinstance(o, _dt.timedelta) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return mkdelta(self.us - delta_micros(o)) if isinstance(o, _dt.timedelta) else NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return shifted(o, -self.us)
        return mkdelta(delta_micros(o) - self.us) if isinstance(o, _dt.timedelta) else NotImplemented

    def __neg__(self):
        return mkdelta(-self.us)

    def __abs__(self):
        return mkdelta(abs(self.us))

    def __mul__(self, o):
        if isinstance(o, (int, SymInt)):
            return mkdelta(self.us * o)
        raise Bounded("time difference times a float")

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self.us // delta_micros(o) if isinstance(o, _dt.timedelta) else mkdelta(self.us // o)

    def __mod__(self, o):
        return mkdelta(self.us % delta_micros(o))

    def __truediv__(self, o):
        if isinstance(o, _dt.timedelta) and is_int(delta_micros(o)):
            r = SymFloat.make_ratio(self.us, delta_micros(o))
            if r is not None:
                return r
        raise Bounded("quotient of a time difference")

    def __bool__(self):
        return bool(self.us != 0)

    def __eq__(self, o):
        return isinstance(o, _dt.timedelta) and self.us == delta_micros(o)

    def __lt__(self, o):
        return self.us < delta_micros(o)

    def __le__(self, o):
        return self.us <= delta_micros(o)

    def __gt__(self, o):
        return self.us > delta_micros(o)

    def __ge__(self, o):
        return self.us >= delta_micros(o)

    __hash__ = None

    def __repr__(self):
        return "<symbolic timedelta>"


def mkdelta(us):
    return SymDelta(us) if isinstance(us, SymInt) else _dt.timedelta(microseconds=us)


def delta_micros(d):
    return d.us if type(d) is SymDelta else d // _dt.timedelta(microseconds=1)


def make_delta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    vals = {"days": days, "seconds": seconds, "microseconds": microseconds, "milliseconds": milliseconds, "minutes": minutes,
            "hours": hours, "weeks": weeks}
    if not any(symbolic(v) for v in vals.values()):
        return _dt.timedelta(**vals)
    unit = {"microseconds": 1, "milliseconds": 1000, "seconds": 10**6, "minutes": 60 * 10**6, "hours": 3600 * 10**6, "days": 86400 * 10**6,
            "weeks": 7 * 86400 * 10**6}
    us = 0
    for n, v in vals.items():
        if isinstance(v, (int, SymInt)):
            us = us + v * unit[n]
        elif isinstance(v, SymFloat):
            r = v._exact_ratio()
            if r is None:
                raise Bounded("time difference of a computed float")
            num, den = r[0] * unit[n], r[1]
            q = (2 * num + den) // (2 * den)  # half to even
            tie = sand((2 * num + den) % (2 * den) == 0, q % 2 == 1)
            us = us + q - core.boolint(tie)
        else:
            us = us + _dt.timedelta(**{n: v}) // _dt.timedelta(microseconds=1)
    return mkdelta(us)


def midnight(d):
    if type(d) is SymDate:
        return d
    if isinstance(d, _dt.datetime) or not isinstance(d, _dt.date):
        raise TypeError("unsupported operand for -")
    return _dt.datetime(d.year, d.month, d.day)


def wall(d):
    """Microseconds since the epoch on the wall clock of a datetime."""
    if isinstance(d, SymDatetime) or type(d) in (SymDatetime, SymDate):
        return d.micros()
    return (d.replace(tzinfo=None) - _dt.datetime(1970, 1, 1)) // _dt.timedelta(microseconds=1)


def difference(a, b):
    if (a.tzinfo is None) != (b.tzinfo is None):
        raise TypeError("can't subtract offset-naive and offset-aware datetimes")
    d = wall(a) - wall(b)
    if a.tzinfo is not None:
        d = d - delta_micros(a.utcoffset()) + delta_micros(b.utcoffset())
    return mkdelta(d)


DAY_US = 86_400_000_000


def shifted(d, us):
    """d + us microseconds."""
    if isinstance(d, _dt.datetime) and type(d) is not SymDatetime and is_int(us):
        return d + _dt.timedelta(microseconds=us)
    if type(d) is SymDatetime and d._day is None and d.instant is None:
        # by fields: the same day, the next or the day before
        t = ((d.hour * 60 + d.minute) * 60 + d.second) * 1_000_000 + d.microsecond + us
        y, m, day, wd = d.year, d.month, d.day, d._wd
        if bool(t >= DAY_US):
            if bool(t >= 2 * DAY_US):
                raise Bounded("a datetime moved by days")
            t, wd = t - DAY_US, None
            if bool(day < days_in_month(y, m)):
                day = day + 1
            elif bool(m < 12):
                m, day = m + 1, 1
            elif bool(y < 9999):
                y, m, day = y + 1, 1, 1
            else:
                raise OverflowError("date value out of range")
        elif bool(t < 0):
            if bool(t < -DAY_US):
                raise Bounded("a datetime moved by days")
            t, wd = t + DAY_US, None
            if bool(day > 1):
                day = day - 1
            elif bool(m > 1):
                m = m - 1
                day = days_in_month(y, m)
            elif bool(y > 1):
                y, m, day = y - 1, 12, 31
            else:
                raise OverflowError("date value out of range")
        s = t // 1_000_000
        return SymDatetime(y, m, day, s // 3600, s // 60 % 60, s % 60, t % 1_000_000, d.tzinfo, None, wd)
    t = wall(d) + us
    if not bool(sand(t >= LO * 1_000_000, t < HI * 1_000_000)):
        raise Bounded("a datetime outside of 1970..2100")
    return from_instant(t, _dt.timezone.utc, 1_000_000).replace(tzinfo=d.tzinfo)


def make_time(hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
    vals = (hour, minute, second, microsecond)
    if not any(symbolic(v) for v in vals):
        return _dt.time(*vals, tzinfo=tzinfo, fold=fold)
    for v, top, name in zip(vals, (23, 59, 59, 999999), ("hour", "minute", "second", "microsecond")):
        if isinstance(v, SymFloat) or not isinstance(v, (int, SymInt)):
            raise TypeError("an integer is required")
        if not bool(sand(v >= 0, v <= top)):
            raise ValueError(f"{name} must be in 0..{top}")
    return SymTime(*[v + 0 for v in vals], tzinfo)


def make_date(year, month, day):
    if not any(symbolic(v) for v in (year, month, day)):
        return _dt.date(year, month, day)
    d = make_datetime(year, month, day)
    return SymDate(d.year, d.month, d.day)


def combine(d, t, tzinfo=True):
    tz = t.tzinfo if tzinfo is True else tzinfo
    r = make_datetime(d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond, tz)
    if type(r) is SymDatetime and type(d) in (SymDate, SymDatetime):
        r._wd, r._day = d._wd, d._day
    return r


def sym_gmtime(t=None):
    t = sym_time() if t is None else t
    d = sym_fromtimestamp(floor_time(t), _dt.timezone.utc)
    return struct_time(d, 0) if isinstance(d, SymDatetime) else time.gmtime(d.timestamp())


def sym_localtime(t=None):
    t = sym_time() if t is None else t
    d = sym_fromtimestamp(floor_time(t), _dt.timezone.utc)
    if type(d) is SymDatetime:
        return struct_time(from_instant(floor_time(t) * (1 << GRID), None), 0)
    return (d + _dt.timedelta(seconds=TZ_OFFSET)).timetuple()


def floor_time(t):
    if isinstance(t, SymFloat):
        r = t._exact_ratio()
        if r is None:
            raise Bounded("calendar time of a computed float")
        return r[0] // r[1]
    return t if isinstance(t, SymInt) else int(t // 1)


def sym_timegm(t):
    if not any(symbolic(x) for x in t[:6]):
        return calendar.timegm(tuple(t))
    d = SymDatetime(*t[:6])
    return d.micros() // 1_000_000


def days_in_month(y, m):
    """Number of days, as a formula."""
    leap = sor(sand(y % 4 == 0, snot(y % 100 == 0)), y % 400 == 0)
    thirty = sor(m == 4, m == 6, m == 9, m == 11)
    feb = m == 2
    return 31 - core.boolint(thirty) - 3 * core.boolint(feb) + core.boolint(sand(feb, leap))


def make_datetime(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
    vals = (year, month, day, hour, minute, second, microsecond)
    if not any(symbolic(v) for v in vals) and not isinstance(tzinfo, str):
        return _dt.datetime(*vals, tzinfo=tzinfo, fold=fold)
    for v in vals:
        if isinstance(v, SymFloat) or not isinstance(v, (int, SymInt)):
            raise TypeError("an integer is required")
    vals = tuple(v + 0 for v in vals)
    year, month, day, hour, minute, second, microsecond = vals
    known = None
    for n, y, m, d in eng().env.get("civils", ()):
        if all(ikey(a) == ikey(b) for a, b in zip((year, month, day), (y, m, d))):
            known = n  # the fields of a date are a date
    if known is None:
        if not bool(sand(year >= 1, year <= 9999)):
            raise ValueError("year is out of range")
        if not bool(sand(month >= 1, month <= 12)):
            raise ValueError("month must be in 1..12")
        if not bool(sand(day >= 1, day <= days_in_month(year, month))):
            raise ValueError("day is out of range for month")
    if not bool(sand(hour >= 0, hour <= 23)):
        raise ValueError("hour must be in 0..23")
    if not bool(sand(minute >= 0, minute <= 59)):
        raise ValueError("minute must be in 0..59")
    if not bool(sand(second >= 0, second <= 59)):
        raise ValueError("second must be in 0..59")
    if not bool(sand(microsecond >= 0, microsecond <= 999999)):
        raise ValueError("microsecond must be in 0..999999")
    r = SymDatetime(*vals, tzinfo)
    if known is not None:
        r._day, r._wd = known, (known + 3) % 7
    return r


def micros(f):
    """f / 2**20 seconds in microseconds, rounded half to even; 0 <= f < 2**20."""
    num = f * 31250 + (1 << 14)
    q = num // (1 << 15)
    tie = sand(num % (1 << 15) == 0, q % 2 == 1)
    if is_int(q):
        return q - bool(tie)
    us = q - core.boolint(tie)
    z = z3.Int(f"us!{ikey(f)}")
    return mkint(0, {atom(("us", ikey(f)), lambda: Atom(z, 0, 999999, [z == us.z()], us.atoms())): 1})


def from_instant(n, tz, per=1 << GRID):
    """datetime of the instant n / per seconds after the epoch (per: 2**20, or a divisor of 10**6)."""
    if is_int(n):
        if tz is None or isinstance(tz, str):
            return (_dt.datetime.fromtimestamp(n / per, _dt.timezone.utc) + _dt.timedelta(seconds=TZ_OFFSET)).replace(
                tzinfo=None if tz is None else _dt.timezone(_dt.timedelta(seconds=TZ_OFFSET)))
        return _dt.datetime.fromtimestamp(n / per, tz)
    if tz is None or isinstance(tz, str):
        off = TZ_OFFSET
    else:
        d = tz.utcoffset(None)
        if d is None:
            raise Bounded("time zone with rules")
        off = int(d.total_seconds())
    micro = micros(n % (1 << GRID)) if per == 1 << GRID else n % per * (1_000_000 // per)
    s = n // per + off
    sec = s % 60
    m = s // 60
    minute = m % 60
    h = m // 60
    hour = h % 24
    day_no = h // 24

    def uf(name, lo, hi):
        f = z3.Function("civil_" + name, z3.IntSort(), z3.IntSort())
        return mkint(0, {atom(("civil", name, ikey(day_no)),
                              lambda: Atom(f(zint(day_no)), lo, hi, [], day_no.atoms())): 1})

    y, mo, d = uf("year", 1970, 2100), uf("month", 1, 12), uf("day", 1, 31)
    if not is_int(day_no):
        eng().env.setdefault("civils", []).append((day_no, y, mo, d))
    wd = (day_no + 3) % 7
    tzv = None if tz is None else (_dt.timezone(_dt.timedelta(seconds=TZ_OFFSET)) if isinstance(tz, str) else tz)
    r = SymDatetime(y, mo, d, hour, minute, sec, micro, tzv, n if per == 1 << GRID else None, wd)
    r._day = day_no
    return r


def sym_fromtimestamp(t, tz=None):
    if isinstance(t, SymFloat):
        if t.grid is not None and t.grid[1] <= GRID:
            return from_instant(t.grid[0] * (1 << (GRID - t.grid[1])), tz)
        r = t._exact_ratio()
        if r is None or 1_000_000 % r[1]:
            raise Bounded("datetime of a computed time stamp")
        return from_instant(r[0], tz, r[1])  # (the rounding of n / d is far below half a microsecond)
    if isinstance(t, SymInt):
        return from_instant(t * (1 << GRID), tz)
    if tz is None:
        return from_instant(int(t * 2**GRID), None)
    return _dt.datetime.fromtimestamp(t, tz)


def sym_now(tz=None):
    return from_instant(clock_reading(), tz)


def sym_utcnow():
    d = from_instant(clock_reading(), _dt.timezone.utc)
    return d.replace(tzinfo=None)


def sym_utcfromtimestamp(t):
    return sym_fromtimestamp(t, _dt.timezone.utc).replace(tzinfo=None)


# --------------------------------------------------------------------------- enum and dict


def enum_call(cls, args, kwargs):
    v = args[0] if args else kwargs.get("value")
    if isinstance(v, SymBool):
        v = core.boolint(v)
    if type(v) is not SymInt or len(args) != 1:
        if any(symbolic(a) for a in args):
            raise Bounded("enum of a non-integer symbolic value")
        return cls(*args, **kwargs)
    if v.enumcls is cls:
        return v
    if issubclass(cls, enum.Flag):
        mask = 0
        for m in cls.__members__.values():
            mask |= int(m.value)
        b = getattr(cls, "_boundary_", enum.KEEP)
        if bool(v < 0):
            raise Bounded("negative flag value")
        if b is enum.KEEP:
            return v.tagged(cls)
        if b is enum.CONFORM:
            return (v & mask).tagged(cls) if isinstance(v & mask, SymInt) else cls(v & mask)
        ok = (v & mask) == v
        if bool(ok):
            return v.tagged(cls)
        if b is enum.EJECT:
            return v
        raise ValueError(f"invalid value for {cls.__name__}")
    vals = [m.value for m in cls]
    vals += [k for k in cls._value2member_map_ if k not in vals]
    if not all(is_int(x) for x in vals):
        ints = [x for x in vals if is_int(x)]
        vals = ints
    b = mkbool(seqs._zmember(v.z(), [int(x) for x in vals])) if vals else False
    lo, hi = v.bounds()
    if bool(b):
        return v.tagged(cls)
    r = cls._missing_(SymInt(v.k, v.m, None, v.digits))
    if r is None:
        raise ValueError(f"value is not a valid {cls.__name__}")
    return r


def dict_find(d, key):
    """(found, value): forks over groups of keys with the same value."""
    e = eng()
    if type(key) is SymInt or type(key) is SymBool:
        if type(key) is SymBool:
            key = core.boolint(key)
        items = [(int(k), v) for k, v in d.items() if is_int(k)]
        if not items:
            return False, None
        lo, hi = key.bounds()
        items = [(k, v) for k, v in items if (lo is None or k >= lo) and (hi is None or k <= hi)]
        if not items:
            return False, None
        if not bool(mkbool(seqs._zmember(key.z(), [k for k, _ in items]))):
            return False, None
        if all(is_int(v) and not isinstance(v, bool) for _, v in items):
            cls = {type(v) for _, v in items}
            cls = cls.pop() if len(cls) == 1 else None
            tag = cls if cls is not None and issubclass(cls, enum.Enum) else None
            ivals = sorted((k, int(v)) for k, v in items)
            if all(k == v for k, v in ivals):
                return True, key.tagged(tag) if tag else mkint(key.k, key.m)
            kk = ("dict", tuple(ivals), key.key())
            a = atom(kk, lambda: Atom(seqs._piecewise(key.z(), ivals), min(v for _, v in ivals),
                                      max(v for _, v in ivals), [], key.atoms()))
            return True, mkint(0, {a: 1}, tag)
        groups: dict = {}
        for k, v in items:
            groups.setdefault(id(v), (v, []))[1].append(k)
        gs = list(groups.values())
        for v, ks in gs[:-1]:
            if bool(mkbool(seqs._zmember(key.z(), ks))):
                return True, v
        return True, gs[-1][0]
    if type(key) in (SymBytes, SymStr):
        for k, v in d.items():
            if isinstance(k, str if type(key) is SymStr else bytes) and bool(key == k):
                return True, v
        return False, None
    if isinstance(key, tuple):
        for k, v in d.items():
            if isinstance(k, tuple) and len(k) == len(key) and bool(sand(*[a == b for a, b in zip(key, k)])):
                return True, v
        return False, None
    raise Bounded("symbolic dictionary key")


def has_sym_key(k):
    return symbolic(k) or (isinstance(k, tuple) and any(symbolic(x) for x in k))


def contains(x, coll):
    """x in coll"""
    if isinstance(coll, dict) and has_sym_key(x):
        return dict_find(coll, x)[0]
    if isinstance(coll, (set, frozenset)) and has_sym_key(x):
        return dict_find(dict.fromkeys(coll), x)[0]
    if isinstance(coll, type) and issubclass(coll, enum.Enum) and type(x) is SymInt:
        if x.enumcls is coll:
            return True
        return bool(mkbool(seqs._zmember(x.z(), [int(m.value) for m in coll])))
    if isinstance(coll, range) and type(x) is SymInt:
        r = sand(x >= coll.start, x < coll.stop)
        if coll.step != 1:
            raise Bounded("stepped range membership")
        return bool(r)
    if isinstance(coll, (tuple, list)) and has_sym_key(x):
        return bool(sor(*[_eqb(x, y) for y in coll]))
    if isinstance(coll, (bytes, bytearray, str)) and not is_symseq(coll) and symbolic(x):
        if type(x) is SymInt:
            return bool(mkbool(seqs._zmember(x.z(), sorted(set(coll)))))
        return bool(seqs.find(wrap(coll), x) >= 0)
    return x in coll


def _eqb(a, b):
    r = a == b
    return False if r is NotImplemented else r


def is_(a, b):
    if a is b:
        return True
    # enumeration members are singletons: identity is equality of the value
    for x, y in ((a, b), (b, a)):
        if type(x) is SymInt and x.enumcls is not None and (
            isinstance(y, x.enumcls) or (type(y) is SymInt and y.enumcls is x.enumcls)
        ):
            return bool(SymInt(x.k, x.m) == (int(y) if not isinstance(y, SymInt) else SymInt(y.k, y.m)))
    if type(a) is SymBool and isinstance(b, bool):
        return bool(a) is b
    if type(b) is SymBool and isinstance(a, bool):
        return bool(b) is a
    return False


# --------------------------------------------------------------------------- built-ins


def m_len(x):
    if type(x) in (SymBytes, SymStr, SymByteArray, SymMemory):
        return seqlen(x)
    f = type(x).__dict__.get("__len__") if not isinstance(x, (list, tuple, dict, str, bytes, set)) else None
    if f is not None and callable(f):
        return x.__len__()
    return len(x)


def m_bytes(*a, **k):
    if k:
        x = a[0] if a else k.get("source", "")
        if symbolic(x):
            return x.encode(k.get("encoding", "utf-8"))
        return bytes(*a, **k)
    if not a:
        return b""
    x = a[0]
    if type(x) in (SymStr,) or (isinstance(x, str) and len(a) > 1):
        return x.encode(*a[1:])
    if type(x) in (SymBytes, SymByteArray, SymMemory):
        return seqs.to_bytes_value(x)
    if isinstance(x, (SymInt, SymBool)):
        if isinstance(x, SymBool):
            x = core.boolint(x)
        if bool(x < 0):
            raise ValueError("negative count")
        return seqs.repeat(b"\0", x)
    if type(x) is Chain:
        r = x.whole()
        if r is not None:
            return r
    if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
        xs = list(x)
        if any(symbolic(v) for v in xs):
            return from_elems([seqs._byte(v) for v in xs], "bytes")
        return bytes(xs)
    f = getattr(type(x), "__bytes__", None)
    if f is not None and not isinstance(x, (bytes, bytearray)):
        return x.__bytes__()
    return bytes(*a)


def m_bytearray(*a, **k):
    if isinstance(a[0], bytearray) and not is_symseq(a[0]) if a else False:
        return SymByteArray(bytes(a[0]))
    return SymByteArray(m_bytes(*a, **k))


def m_memoryview(x):
    return SymMemory(x)


def m_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymInt:
            return SymInt(x.k, x.m, None, x.digits)
        if type(x) is SymBool:
            return core.boolint(x)
        if type(x) is SymFloat:
            return x.__trunc__()
        f = type(x).__dict__.get("__int__") if type(x).__module__ != "builtins" else None
        if f is not None and not isinstance(x, (int, float)):
            return x.__int__()
    if a and symbolic(a[0]):
        raise Bounded("int() of symbolic text")
    return int(*a, **k)


def m_float(x=0.0):
    if type(x) in (SymInt, SymBool, SymFloat):
        return core.to_float(x)
    return float(x)


def m_str(*a, **k):
    x = a[0] if a else ""
    if type(x) in (SymBytes, SymByteArray, SymMemory) and (len(a) > 1 or k):
        return seqs.decode(wrap(x), *a[1:], **k)
    if type(x) is SymStr:
        return x
    return str(*a, **k)


def m_bool(x=False):
    return bool(x)


def m_type(*a):
    if len(a) == 1 and symbolic(a[0]):
        return a[0].__class__
    return type(*a)


def m_range(*a):
    if not any(symbolic(x) for x in a):
        return range(*a)
    a = [core.boolint(x) if type(x) is SymBool else x for x in a]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    step = eng().concretize(step)

    def gen():
        i = start
        while bool(i < stop) if step > 0 else bool(i > stop):
            eng().tick()
            yield i
            i = i + step

    return gen()


def _clamp(name, a, b):
    """min/max of a rounded number and a constant, without forking."""
    if is_int(a):
        a, b = b, a
    if type(a) is not SymInt or not is_int(b) or not all(x.tag == "rounded" for x in a.m):
        return None
    lo, hi = a.bounds()
    f = min if name == "min" else max
    if hi is not None and lo is not None and f(lo, b) == f(hi, b):
        return f(lo, b)
    za = a.z()
    e = z3.If(za < b, za, b) if name == "min" else z3.If(za > b, za, b)
    return mkint(0, {atom(("clamp", name, ikey(a), b), lambda: Atom(
        e, None if lo is None else f(lo, b), None if hi is None else f(hi, b), [], a.atoms())): 1})


def _minmax(name):
    real = getattr(builtins, name)

    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if k or not any(type(x) in (SymInt, SymFloat, SymBool) for x in xs):
            return real(xs, **k) if len(a) == 1 else real(*a, **k)
        best = xs[0]
        for x in xs[1:]:
            m = _clamp(name, best, x)
            if m is not None:
                best = m
                continue
            if bool(x < best) if name == "min" else bool(x > best):
                best = x
        return best

    return f


def m_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def m_abs(x):
    return abs(x)


def m_from_bytes(b, byteorder="big", *, signed=False):
    if symbolic(b):
        es = wrap(b).elems()
        return from_digits(es if byteorder == "little" else es[::-1], signed)
    if isinstance(b, (list, tuple)):
        return m_from_bytes(m_bytes(b), byteorder, signed=signed)
    return int.from_bytes(b, byteorder, signed=signed)


def m_ord(x):
    if type(x) in (SymBytes, SymStr, SymByteArray):
        es = wrap(x).elems()
        if len(es) != 1:
            raise TypeError("ord() expected a character")
        return es[0]
    return ord(x)


def m_chr(x):
    if type(x) is SymInt:
        if not bool(sand(x >= 0, x <= 0x10FFFF)):
            raise ValueError("chr() arg not in range")
        return from_elems([x], "str")
    return chr(x)


def m_hash(x):
    return hash(x)


def m_repr(x):
    return repr(x)


def m_isinstance(x, cls):
    return isinstance(x, cls)


def m_issubclass(*a):
    return issubclass(*a)


def m_sorted(xs, *a, **k):
    return sorted(xs, *a, **k)


def m_divmod(a, b):
    return divmod(a, b)


def m_round(x, *a):
    return round(x, *a)


def m_pow(*a):
    return pow(*a)


def m_iter(*a):
    return iter(*a)


def m_getattr(*a):
    return getattr(*a)


class Chain:
    """itertools.chain; over byte strings it turns into a byte string without looking at each byte."""

    def __init__(self, *parts):
        self.parts = list(parts)
        self.it = None

    def __iter__(self):
        return self

    def __next__(self):
        if self.it is None:
            self.it = itertools.chain(*self.parts)
        return next(self.it)

    def whole(self):
        if self.it is None and self.parts and all(is_byteslike(p) or type(p) in (SymBytes, SymByteArray, SymMemory) for p in self.parts):
            self.it = iter(())
            return seqs.join(b"", [seqs.to_bytes_value(wrap(p)) for p in self.parts], False)
        return None


class chain_model:
    def __call__(self, *parts):
        if any(is_symseq(p) for p in parts):
            return Chain(*parts)
        return itertools.chain(*parts)

    def from_iterable(self, parts):
        return self(*parts)


class SymMatch:
    """A match of a pattern of single characters."""

    def __init__(self, pattern, string, a, b):
        self.re, self.string, self.pos, self._span = pattern, string, a, (a, b)

    def span(self, group=0):
        return self._span

    def start(self, group=0):
        return self._span[0]

    def end(self, group=0):
        return self._span[1]

    def group(self, group=0):
        return seqs.wrap(self.string)[self._span[0]:self._span[1]]

    def __getitem__(self, group):
        return self.group(group)

    def groups(self):
        return ()

    def __bool__(self):
        return True


class SymPattern:
    """A regular expression.  On symbolic data: a sequence of single characters or classes of them."""

    __class__ = property(lambda self: re.Pattern)

    def __init__(self, real):
        self.real = real

    def __getattr__(self, name):
        return getattr(self.real, name)

    def _tests(self):
        out = []
        for op, arg in re._parser.parse(self.real.pattern, self.real.flags & ~re.UNICODE if isinstance(self.real.pattern, bytes) else self.real.flags):
            op = str(op)
            if op == "LITERAL":
                out.append(lambda x, a=arg: x == a)
            elif op == "NOT_LITERAL":
                out.append(lambda x, a=arg: snot(x == a))
            elif op == "ANY":
                out.append(lambda x: True if self.real.flags & re.DOTALL else snot(x == 10))
            elif op == "IN" and all(str(o) in ("NEGATE", "LITERAL", "RANGE") for o, _ in arg):
                neg = str(arg[0][0]) == "NEGATE"
                parts = arg[1:] if neg else arg

                def test(x, parts=parts, neg=neg):
                    r = sor(*[x == a if str(o) == "LITERAL" else sand(x >= a[0], x <= a[1]) for o, a in parts])
                    return snot(r) if neg else r

                out.append(test)
            else:
                raise Bounded("regular expression on symbolic data")
        if self.real.flags & re.IGNORECASE:
            raise Bounded("regular expression on symbolic data")
        return out

    def _at(self, s, k, end, tests):
        if not le(k + len(tests), end):
            return None
        w = seqs.to_bytes_value(s) if type(s) is SymMemory else s
        if bool(sand(*[t(_code(w[k + i])) for i, t in enumerate(tests)])):
            return SymMatch(self, s, k, k + len(tests))
        return None

    def _range(self, s, pos, endpos):
        n = seqlen(s)
        end = n if endpos is None else mkmin(endpos, n)
        return pos, end

    def match(self, string, pos=0, endpos=None):
        if not (is_symseq(string) or isinstance(pos, SymInt) or isinstance(endpos, SymInt)):
            return self.real.match(string, pos, *([] if endpos is None else [endpos]))
        tests = self._tests()
        s = seqs.wrap(string)
        pos, end = self._range(s, pos, endpos)
        return self._at(s, pos, end, tests)

    def fullmatch(self, string, pos=0, endpos=None):
        if not (is_symseq(string) or isinstance(pos, SymInt) or isinstance(endpos, SymInt)):
            return self.real.fullmatch(string, pos, *([] if endpos is None else [endpos]))
        tests = self._tests()
        s = seqs.wrap(string)
        pos, end = self._range(s, pos, endpos)
        if not bool(end - pos == len(tests)):
            return None
        return self._at(s, pos, end, tests)

    def search(self, string, pos=0, endpos=None):
        if not (is_symseq(string) or isinstance(pos, SymInt) or isinstance(endpos, SymInt)):
            return self.real.search(string, pos, *([] if endpos is None else [endpos]))
        s = seqs.wrap(string)
        tests = self._tests()
        pos, end = self._range(s, pos, endpos)
        ops = re._parser.parse(self.real.pattern)
        if all(str(o) == "LITERAL" for o, _ in ops):
            lit = [a for _, a in ops]
            k = s.find(bytes(lit) if isinstance(self.real.pattern, bytes) else "".join(map(chr, lit)), pos, end)
            return None if bool(k < 0) else SymMatch(self, s, k, k + len(lit))
        k = pos
        while le(k + len(tests), end):
            eng().tick()
            m = self._at(s, k, end, tests)
            if m is not None:
                return m
            k = k + 1
        return None

    def finditer(self, string, *a):
        if not is_symseq(string):
            return self.real.finditer(string, *a)
        raise Bounded("finditer on symbolic data")

    findall = split = sub = subn = scanner = lambda self, *a, **k: _pattern_native(self, a, k)


def _code(x):
    return m_ord(x) if type(x) is SymStr or isinstance(x, str) else x


def _pattern_native(p, a, k):
    raise Bounded("this use of a regular expression")


def mkmin(a, b):
    return a if le(a, b) else b


def re_compile(pattern, flags=0):
    if isinstance(pattern, SymPattern):
        return pattern
    if is_symseq(pattern):
        raise Bounded("symbolic regular expression")
    return SymPattern(re.compile(pattern, flags))


def re_call(name):
    def call(pattern, string, flags=0):
        return getattr(re_compile(pattern, flags), name)(string)

    return call


def codec_call(fn, name):
    def call(obj, encoding="utf-8", errors="strict"):
        if is_symseq(obj):
            return getattr(seqs.wrap(obj) if type(obj) is not SymMemory else seqs.to_bytes_value(obj), name)(encoding, errors)
        return fn(obj, encoding, errors)

    return call


FUNCS = {
    codecs.decode: codec_call(codecs.decode, "decode"),
    codecs.encode: codec_call(codecs.encode, "encode"),
    struct.pack: lambda fmt, *v: _struct(fmt).pack(*v),
    struct.pack_into: lambda fmt, b, o, *v: _struct(fmt).pack_into(b, o, *v),
    struct.unpack: lambda fmt, b: _struct(fmt).unpack(b),
    struct.unpack_from: lambda fmt, buffer, offset=0: _struct(fmt).unpack_from(buffer, offset),
    struct.iter_unpack: lambda fmt, b: _struct(fmt).iter_unpack(b),
    struct.calcsize: lambda fmt: _struct(fmt).size,
    zlib.compress: zlib_compress,
    zlib.decompress: zlib_decompress,
    zlib.compressobj: CompressObj,
    zlib.decompressobj: DecompressObj,
    zlib.crc32: checksum(zlib.crc32, "crc32"),
    zlib.adler32: checksum(zlib.adler32, "adler32"),
    open: sym_open,
    io.open: sym_open,
    time.time: sym_time,
    time.time_ns: sym_time_ns,
    time.monotonic: sym_steady,
    time.monotonic_ns: sym_steady_ns,
    time.perf_counter: sym_steady,
    time.perf_counter_ns: sym_steady_ns,
    time.gmtime: sym_gmtime,
    time.localtime: sym_localtime,
    time.mktime: no_model("time.mktime"),
    _dt.datetime.combine: combine,
    itertools.chain.from_iterable: chain_model().from_iterable,
    _dt.date.fromtimestamp: lambda t: sym_fromtimestamp(t).date(),
    _dt.date.fromordinal: no_model("date.fromordinal"),
    _dt.datetime.fromordinal: no_model("datetime.fromordinal"),
    _dt.date.today: lambda: sym_now(None).date(),
    time.sleep: lambda s: None,
    _dt.datetime.fromtimestamp: sym_fromtimestamp,
    _dt.datetime.now: sym_now,
    _dt.datetime.utcnow: sym_utcnow,
    _dt.datetime.today: lambda: sym_now(None),
    _dt.datetime.utcfromtimestamp: sym_utcfromtimestamp,
    len: m_len,
    min: _minmax("min"),
    max: _minmax("max"),
    sum: m_sum,
    int.from_bytes: m_from_bytes,
    ord: m_ord,
    chr: m_chr,
    os.urandom: no_model("os.urandom"),
    os.remove: sym_remove,
    os.unlink: sym_remove,
    os.rename: sym_replace,
    os.replace: sym_replace,
    os.fstat: sym_fstat,
    os.stat: sym_stat,
    os.fsync: sym_fsync,
    os.fdatasync: sym_fsync,
    os.ftruncate: sym_ftruncate,
    _thread.allocate_lock: SymLock,
    os.open: sym_os_open,
    os.read: sym_os_read,
    os.write: sym_os_write,
    os.lseek: sym_os_lseek,
    os.close: sym_os_close,
    **{getattr(os, n): no_model("os." + n) for n in ("lstat", "truncate", "mkdir", "rmdir", "link",
                                                     "symlink", "access", "chmod", "utime")},
}
# functions written in Python (looked up for plain functions and methods)
PYTHON = {
    re.compile: re_compile,
    re.match: re_call("match"),
    re.fullmatch: re_call("fullmatch"),
    re.search: re_call("search"),
    os.path.exists: sym_exists,
    os.path.lexists: sym_exists,
    os.path.isfile: sym_exists,
    os.path.getsize: sym_getsize,
    os.fdopen: sym_fdopen,
    calendar.timegm: sym_timegm,
    tempfile.NamedTemporaryFile: no_model("tempfile"),
    tempfile.TemporaryFile: no_model("tempfile"),
    tempfile.mkstemp: no_model("tempfile"),
    tempfile.mkdtemp: no_model("tempfile"),
    pathlib.Path.open: path_open,
    pathlib.Path.exists: sym_exists,
    pathlib.Path.is_file: sym_exists,
    pathlib.Path.read_bytes: path_read_bytes,
    pathlib.Path.write_bytes: path_write_bytes,
    pathlib.Path.unlink: path_unlink,
    pathlib.Path.rename: sym_replace,
    pathlib.Path.replace: sym_replace,
    pathlib.Path.stat: sym_stat,
    threading.RLock: lambda: SymLock(True),
    pathlib.Path.touch: no_model("Path.touch"),
}
CLASSES = {
    struct.Struct: lambda fmt: _struct(fmt),
    io.BytesIO: sym_bytesio,
    io.BufferedReader: buffered(io.BufferedReader),
    io.BufferedWriter: buffered(io.BufferedWriter),
    io.BufferedRandom: buffered(io.BufferedRandom),
    bytes: m_bytes,
    bytearray: m_bytearray,
    memoryview: m_memoryview,
    int: m_int,
    float: m_float,
    str: m_str,
    bool: m_bool,
    type: m_type,
    range: m_range,
    _dt.datetime: make_datetime,
    _dt.date: make_date,
    _dt.time: make_time,
    _dt.timedelta: make_delta,
    itertools.chain: chain_model(),
}
# native functions that work on symbolic values through their operators or never look inside
SAFE = {
    isinstance, issubclass, hasattr, getattr, setattr, delattr, id, callable, iter, next, print, repr, format,
    abs, round, divmod, pow, all, any, sorted, list, tuple, dict, set, frozenset, zip, enumerate, map, filter, reversed,
    hash, vars, object.__setattr__, object.__new__, sum,
}
SAFE_METHODS = {
    list: {"append", "extend", "insert", "pop", "clear", "copy", "reverse"},
    dict: {"items", "keys", "values", "update", "copy", "clear", "setdefault"},
    set: {"clear", "copy"},
}


# --------------------------------------------------------------------------- functools


def lru_cache(maxsize=128, typed=False):
    """functools.lru_cache: the same result for equal arguments.  The last eight results are kept (a result that is
    not kept is computed again)."""
    if callable(maxsize):
        return lru_cache()(maxsize)

    def wrap(fn):
        kept = []
        keep = 8 if maxsize is None else min(8, maxsize)

        def hashable(x):
            if type(x) not in (SymInt, SymBool, SymFloat, SymDatetime, SymDate, SymTime, SymDelta):
                hash(x)

        def same(a, b):
            if a is b:
                return True
            if isinstance(a, type) or isinstance(b, type):
                return False
            return bool(a == b)

        @functools.wraps(fn)
        def cached(*a, **k):
            for x in (*a, *k.values()):
                hashable(x)
            for e in kept:
                if len(e[0]) == len(a) and list(e[1]) == list(k) and all(map(same, e[0], a)) and all(
                        same(e[1][n], k[n]) for n in k):
                    return e[2]
            r = fn(*a, **k)
            kept.append((a, k, r))
            del kept[:-keep or None]
            return r

        cached.cache_clear = kept.clear
        cached.cache_info = lambda: None
        cached.cache_parameters = lambda: {"maxsize": maxsize, "typed": typed}
        return cached

    return wrap
