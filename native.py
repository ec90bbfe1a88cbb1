"""Native replays: runs a harness on the real, uninstrumented code with concrete inputs.

Started as a server by /opt/venv/bin/python; one JSON request per line, one child process each."""
import base64
import datetime as _dt
import importlib
import io
import json
import os
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
GRID = 20
TZ_OFFSET = 5 * 3600 + 45 * 60

REAL = {n: getattr(zlib, n) for n in ("compress", "decompress", "compressobj", "decompressobj")}
REAL_TIME = {n: getattr(time, n) for n in ("time", "time_ns")}
RealDatetime = _dt.datetime


class State:
    script = None  # list of clock readings
    mode = "fixed"
    used: list = []
    steady: list = []
    steadied: list = []
    now = (0, 0)
    ticks = 0
    stub = None
    dir = None


def reading():
    i = len(State.used)
    if State.mode == "set":
        n = State.now[0]
    elif State.mode == "fixed" or not State.script:
        n = (1_700_000_000 << GRID) + i * (1 << GRID) // 8
    else:
        n = State.script[min(i, len(State.script) - 1)]
    State.used.append(n)
    return n


def steady():
    i = State.ticks
    State.ticks += 1
    if State.mode == "set":
        n = State.now[1]
    elif State.mode == "fixed" or not State.steady:
        n = (5000 << GRID) + i * (1 << GRID) // 8
    else:
        n = State.steady[min(i, len(State.steady) - 1)]
    State.steadied.append(n)
    return n


class ScriptedDatetime(RealDatetime):
    @classmethod
    def now(cls, tz=None):
        return RealDatetime.fromtimestamp(reading() / 2**GRID, tz)

    @classmethod
    def utcnow(cls):
        return RealDatetime.fromtimestamp(reading() / 2**GRID, _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class Stub:
    """zlib replaced by the model's streams (any length and content zlib's contract allows)."""

    def __init__(self, tokens, inflate, calls=None):
        self.calls = list(calls) if calls is not None else None  # the stream of each call, where known
        self.tokens = [bytes(t) for t in tokens]
        # streams of different content are never prefixes of each other
        if any(a.startswith(b) for i, a in enumerate(self.tokens) for j, b in enumerate(self.tokens) if i != j):
            self.tokens = [t[:2] + bytes([k]) + t[3:] for k, t in enumerate(self.tokens)]  # (the first byte stays)
        self.inflate = inflate
        self.made = []

    def compress(self, data, /, level=-1, wbits=15):
        data = bytes(data)
        if not -1 <= level <= 9:
            raise zlib.error("Bad compression level")
        for t, d, lv in self.made:
            if d == data and lv == level and self.calls is None:
                return t
        k = self.calls.pop(0) if self.calls else len(self.made)
        if k < len(self.made) and self.made[k][1:] == (data, level):
            return self.made[k][0]
        if k < len(self.tokens):
            t = self.tokens[k]
        else:
            return REAL["compress"](data, level)
        self.made.append((t, data, level))
        return t

    def decompress(self, data, /, wbits=15, bufsize=16384):
        data = bytes(data)
        for t, d, _ in self.made:
            if data.startswith(t):
                return d
        for t, d, _ in self.made:
            if data and t.startswith(data):
                raise zlib.error("Error -5 while decompressing data: incomplete or truncated stream")
        for raw, out in self.inflate:
            if raw == data:
                return out
        return REAL["decompress"](data)


def z_compress(data, /, level=-1, wbits=15):
    if State.stub is not None:
        return State.stub.compress(data, level)
    return REAL["compress"](data, level, wbits)


def z_decompress(data, /, wbits=15, bufsize=16384):
    if State.stub is not None:
        return State.stub.decompress(data)
    return REAL["decompress"](data, wbits, bufsize)


class StubCompressObj:
    def __init__(self, level):
        self.level, self.parts = level, b""

    def compress(self, d):
        self.parts += bytes(d)
        return b""

    def flush(self, mode=4):
        return State.stub.compress(self.parts, self.level)


class StubDecompressObj:
    def __init__(self):
        self.eof, self.unused_data, self.unconsumed_tail, self.pending = False, b"", b"", b""
        self.held = None

    def _give(self, out, max_length):
        if not max_length or max_length >= len(out):
            self.held, self.eof, self.unconsumed_tail = None, True, b""
            return out
        self.held, self.unconsumed_tail = out[max_length:], b"\0"
        return out[:max_length]

    def decompress(self, d, max_length=0):
        if self.eof:
            self.unused_data += bytes(d)
            return b""
        if self.held is not None:
            return self._give(self.held, max_length)
        self.pending += bytes(d)
        for t, out, _ in State.stub.made:
            if self.pending.startswith(t):
                self.unused_data = self.pending[len(t):]
                return self._give(out, max_length)
        for t, _, _ in State.stub.made:
            if t.startswith(self.pending):
                return b""
        return self._give(State.stub.decompress(self.pending), max_length)

    def flush(self, length=1):
        return b"" if self.held is None else self._give(self.held, 0)


def z_compressobj(level=-1, *a, **k):
    return StubCompressObj(level) if State.stub is not None else REAL["compressobj"](level, *a, **k)


def z_decompressobj(*a, **k):
    return StubDecompressObj() if State.stub is not None else REAL["decompressobj"](*a, **k)


def install():
    os.environ["TZ"] = "VRF-5:45"
    time.tzset()
    time.time = lambda: reading() / 2**GRID
    time.time_ns = lambda: reading() * 1_000_000_000 // (1 << GRID)
    time.monotonic = time.perf_counter = lambda: steady() / 2**GRID
    time.monotonic_ns = time.perf_counter_ns = lambda: steady() * 1_000_000_000 // (1 << GRID)
    _dt.datetime = ScriptedDatetime
    zlib.compress, zlib.decompress = z_compress, z_decompress
    zlib.compressobj, zlib.decompressobj = z_compressobj, z_decompressobj


class Skip(BaseException):
    pass


class Violation(BaseException):
    pass


class MemFile(io.BytesIO):
    """BytesIO that keeps its content after close and logs its writes."""

    def __init__(self, data=b""):
        super().__init__(data)
        self.writes = []
        self.final = None
        self.closes = 0

    def write(self, d):
        self.writes.append((self.tell(), bytes(d)))
        return super().write(d)

    def truncate(self, size=None):
        r = super().truncate(size)
        self.writes.append(("truncate", r))
        return r

    def close(self):
        if not self.closed:
            self.final = self.getvalue()
            self.closes += 1
        super().close()

    def content(self):
        return self.final if self.closed else self.getvalue()


def unpack_value(v):
    if isinstance(v, dict):
        if "hex" in v:
            return bytes.fromhex(v["hex"])
        if "zb64" in v:
            return REAL["decompress"](base64.b64decode(v["zb64"]))
        if "text" in v:
            return v["text"]
    return v


class NativeCtx:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.obs = []
        self.covered = set()

    def _get(self, name):
        if name not in self.inputs:
            raise Skip(f"input {name} was not fixed by the counterexample")
        return unpack_value(self.inputs[name])

    def int(self, name, lo, hi):
        v = self._get(name)
        if not lo <= v <= hi:
            raise Skip(f"{name} out of bounds")
        return v

    length = int

    def u8(self, name):
        return self.int(name, 0, 255)

    def u16(self, name):
        return self.int(name, 0, 0xFFFF)

    def u32(self, name):
        return self.int(name, 0, 0xFFFFFFFF)

    def u64(self, name):
        return self.int(name, 0, 0xFFFFFFFFFFFFFFFF)

    def enum(self, name, cls):
        return cls(self._get(name))

    def flags(self, name, cls, bits):
        return cls(self.int(name, 0, (1 << bits) - 1))

    def bool(self, name):
        return bool(self._get(name))

    def choice(self, name, options):
        return list(options)[self._get(name)]

    def bytes(self, name, n, hi=None):
        if hi is not None:
            n = self.length(name + ".len", n, hi)
        b = self._get(name)
        assert len(b) == n, (name, len(b), n)
        return b

    def text(self, name, n, hi=None, codec="cp1252"):
        if hi is not None:
            n = self.length(name + ".len", n, hi)
        t = self._get(name)
        if isinstance(t, bytes):
            t = t.decode(codec)
        assert len(t.encode(codec)) == n
        return t, n

    def float64(self, name):
        return struct.unpack("<d", self._get(name))[0]

    def datetime(self, name, tz=None):
        return RealDatetime(*self._get(name), tzinfo=tz)

    def clock(self, mode):
        State.mode = mode
        State.used = []

    def clock_set(self, now, steady):
        State.mode, State.now = "set", (now, steady)

    def steady_readings(self):
        return list(State.steadied)

    def clock_readings(self):
        return list(State.used)

    def instant(self, n):
        return RealDatetime.fromtimestamp(n / 2**GRID, _dt.timezone.utc)

    def zlib_same(self):
        pass

    def made_with(self, stream, level):
        stream = bytes(stream)
        if State.stub is not None and any(t == stream for t, _, _ in State.stub.made):
            return any(t == stream and lv == level for t, _, lv in State.stub.made)
        return REAL["compress"](zlib.decompress(stream), level) == stream

    def zlib_residues(self, rs):
        pass

    def inflate_max(self, n):
        pass

    def memfile(self, data=b""):
        return MemFile(data)

    def path(self, name, content=None, relative=False):
        p = name if relative else os.path.join(State.dir, name)
        os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
        if content is not None:
            with open(p, "wb") as f:
                f.write(content)
        return p

    def disk(self, path):
        if not os.path.exists(path):
            return None
        with open(path, "rb") as f:
            return f.read()

    def handles(self, path):
        n = 0
        for fd in os.listdir("/proc/self/fd"):
            try:
                n += os.path.realpath(os.readlink("/proc/self/fd/" + fd)) == os.path.realpath(path)
            except OSError:
                pass
        return n

    def content(self, f):
        return f.content()

    def log(self, f):
        return list(f.writes)

    def is_closed(self, f):
        return f.closed

    def attempt(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as exc:
            return None, exc

    def attempt_any(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except (Skip, Violation):
            raise
        except BaseException as exc:
            return None, exc

    def passing(self, exc):
        if isinstance(exc, (Skip, Violation)):
            raise exc

    def all(self, *cs):
        cs = list(cs[0]) if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return all(cs)

    def any(self, *cs):
        cs = list(cs[0]) if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return any(cs)

    def neg(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def assume(self, c):
        if not c:
            raise Skip("an assumption does not hold")

    def check(self, c, msg):
        if not c:
            raise Violation(msg)

    def cover(self, label):
        self.covered.add(label)

    def observe(self, label, v):
        self.obs.append([label, show(v)])

    def eq(self, a, b):
        return deep_eq(a, b)

    def is_a(self, x, cls):
        return isinstance(x, cls)

    def concat(self, *parts):
        return b"".join(bytes(p) for p in parts)

    def zeros(self, n):
        return bytes(n)

    def sub(self, b, lo, hi):
        return b[lo:hi]

    def code(self, t, i):
        return ord(t[i])

    def le_int(self, b, lo, width, signed=False):
        return int.from_bytes(b[lo:lo + width], "little", signed=signed)

    def le_bytes(self, v, width):
        return (int(v) & ((1 << (8 * width)) - 1)).to_bytes(width, "little")

    def float_bytes(self, v):
        return struct.pack("<d", v)

    def float_from(self, b):
        return struct.unpack("<d", b)[0]


def show(v):
    if isinstance(v, (bytes, bytearray, memoryview)):
        v = bytes(v)
        return v.hex() if len(v) <= 256 else f"{v[:64].hex()}...{len(v)}:{zlib.crc32(v)}"
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        return int(v)
    return f"<{type(v).__name__}>"


def deep_eq(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return struct.pack("<d", a) == struct.pack("<d", b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(deep_eq(a[k], b[k]) for k in a)
    if record(a) and record(b):
        return type(a) is type(b) and deep_eq(state(a), state(b))
    if isinstance(a, (bytes, bytearray, str)) != isinstance(b, (bytes, bytearray, str)):
        return False
    return bool(a == b)


def record(x):
    return type(x).__module__.split(".")[0] == "vblf" and not isinstance(x, (int, type))


def state(x):
    slots = {n: getattr(x, n) for c in type(x).__mro__ for n in getattr(c, "__slots__", ()) if n != "__dict__" and hasattr(x, n)}
    return {**slots, **getattr(x, "__dict__", {})}


def run(req):
    from checks.api import REGISTRY

    h = REGISTRY[req["harness"]]
    State.mode, State.script, State.used = "fixed", req.get("clock") or None, []
    State.steady, State.steadied, State.ticks = req.get("steady") or [], [], 0
    State.stub = None
    if req.get("stub"):
        z = req["stub"]
        State.stub = Stub([unpack_value(t) for t in z["tokens"]],
                          [(unpack_value(a), unpack_value(b)) for a, b in z.get("inflate", ())], z.get("calls") if req.get("exact") else None)
    c = NativeCtx(req["inputs"])
    out = {"status": "ok"}
    try:
        h.fn(c, **req["params"])
    except Violation as v:
        out = {"status": "violation", "msg": str(v)}
    except Skip as s:
        out = {"status": "skip", "msg": str(s)}
    except RecursionError:
        out = {"status": "violation", "msg": "raised RecursionError"}
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
        out = {"status": "violation", "msg": f"raised {type(exc).__name__}: {exc}", "where": where}
    out["obs"] = c.obs
    out["covered"] = sorted(c.covered)
    return out


def child(req, w):
    try:
        import ctypes

        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # end with the server
        resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        r = run(req)
    except BaseException as exc:  # noqa: BLE001
        r = {"status": "error", "msg": f"{type(exc).__name__}: {exc}", "tb": traceback.format_exc()[-2000:]}
    data = json.dumps(r).encode()
    os.write(w, struct.pack("<Q", len(data)))
    while data:
        n = os.write(w, data[:65536])
        data = data[n:]
    os._exit(0)


def serve_one(req):
    """One replay in a scratch directory of its own (files it opens under odd names land there too)."""
    scratch = tempfile.mkdtemp(prefix="vblf-replay-")
    try:
        return serve_in(scratch, req)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def serve_in(scratch, req):
    State.dir = os.path.join(scratch, "files")
    os.mkdir(State.dir)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.chdir(scratch)
        os.environ["HOME"] = os.path.join(scratch, "home")
        os.mkdir("home")
        child(req, w)
    os.close(w)
    limit = req.get("timeout", 20)
    end = REAL_TIME["time"]() + limit
    buf = b""
    import select

    while True:
        left = end - REAL_TIME["time"]()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {"status": "timeout", "msg": f"no end within {limit} s"}
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if len(buf) < 8:
        return {"status": "error", "msg": f"replay process died ({st})"}
    return json.loads(buf[8:])


def load():
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.environ.get("VBLF_SRC", "/repo/src"))
    sys.path.insert(1, HERE)
    install()
    import vblf  # noqa: F401

    for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if f.startswith("c_") and f.endswith(".py"):
            importlib.import_module("checks." + f[:-3])


def main():
    load()
    if len(sys.argv) > 1:  # replay one file by hand
        with open(sys.argv[1]) as f:
            req = json.load(f)
        r = serve_one(req)
        print(json.dumps(r, indent=1))
        sys.exit(1 if r["status"] in ("violation", "timeout") else 0)
    print("ready", flush=True)
    for line in sys.stdin:
        print(json.dumps(serve_one(json.loads(line))), flush=True)


if __name__ == "__main__":
    main()
