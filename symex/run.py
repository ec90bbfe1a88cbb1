"""Explores one harness instance, turns counterexamples into concrete inputs and replays them."""
from __future__ import annotations

import base64
import json
import os
import random
import subprocess
import time
import traceback
import zlib

import z3

from . import core, instrument, models, seqs
from .core import Bounded, Deadline, LongPath, Engine, Hang, Infeasible, SymBool, SymInt, Violated
from .ctx import SymCtx

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAPS = (0, 1, 4, 16, 40, 64, 130, 300, 1000, 5000, 20000, 1 << 17, 1 << 20, 1 << 22, 1 << 25, 1 << 27)
MAX_BYTES = 1 << 28
READ_ALL = 1200


class NoModel(Exception):
    pass


class Replayer:
    """Connection to a native replay server."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, VBLF_SRC=os.environ.get("VBLF_SRC", "/repo/src"), PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen(["/opt/venv/bin/python", os.path.join(HERE, "native.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, env=env)
        line = self.p.stdout.readline()
        if line.strip() != "ready":
            raise RuntimeError("replay server did not start")

    def ask(self, req):
        if self.p is None:
            self.start()
        for limit in (12, 30):  # a run without end is believed the second time only
            self.p.stdin.write(json.dumps(dict(req, timeout=limit)) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                self.p = None
                return {"status": "error", "msg": "replay server died"}
            r = json.loads(line)
            if r["status"] != "timeout":
                break
        return r

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p = None


# --------------------------------------------------------------------------- models to inputs


def show_bytes(v):
    v = bytes(v)
    return v.hex() if len(v) <= 256 else f"{v[:64].hex()}...{len(v)}:{zlib.crc32(v)}"


def enc(b):
    b = bytes(b)
    if len(b) <= 2048:
        return {"hex": b.hex()}
    return {"zb64": base64.b64encode(zlib.compress(b, 6)).decode()}


class Extractor:
    """Concrete inputs for the current path (plus an extra constraint)."""

    def __init__(self, e: Engine, query, variant=0):
        self.e = e
        self.query = query
        self.variant = variant

    def calendar(self):
        """The true meaning of the calendar functions, which the exploration leaves open."""
        out = []
        for y, m, d, wd in self.e.env.get("weekdays", ()):
            out.append(((_days(y, m, d) + 3) % 7 == wd))
        for n, y, m, d in self.e.env.get("civils", ()):
            out.append(_days(y, m, d) == n)
            out.append(d <= models.days_in_month(y, m))
        return [c.e for c in out if isinstance(c, SymBool)]

    def solver(self):
        s = z3.SimpleSolver() if self.variant % 2 == 0 else z3.Solver()
        s.set("timeout", 10000)
        if self.variant:
            s.set("random_seed", self.variant)
        s.add(*self.e.constraints)
        if self.query is not None:
            s.add(self.query)
        return s

    def run(self):
        e = self.e
        cal = self.calendar()
        s = self.solver()
        s.add(*cal)
        # every input must be introduced so that its bounds hold
        sizes = []
        for rec in e.inputs.values():
            if rec[0] in ("bytes", "text", "utf8", "zlib", "inflate"):
                if type(rec[2]) is SymInt:
                    sizes.append(rec[2])
        lens = [x for x in e.env.get("lens", ()) if type(x) is SymInt] + sizes
        for x in lens:
            x.z()
        for rec in e.inputs.values():
            if rec[0] == "int" and type(rec[1]) is SymInt:
                rec[1].z()
        s = self.solver()
        s.add(*cal)
        # calendar arithmetic is hard to solve but easy to meet: try fixed days first
        days = {n.z() for n, *_ in e.env.get("civils", ()) if type(n) is SymInt}
        found = False
        for day in (19800, 19801) if days else ():
            s.push()
            s.add(*[z == day for z in days])
            found = s.check() == z3.sat
            if found:
                break
            s.pop()
        if not found and s.check() != z3.sat:
            raise NoModel("no model")
        m = s.model()
        if lens:
            start = 0
            if self.variant == 2:
                start = 4
            for cap in CAPS[start:]:
                s.push()
                s.add(*[x.z() <= cap for x in lens])
                if s.check() == z3.sat:
                    m = s.model()
                    break
                s.pop()
            # then each as small as it goes
            if self.variant < 2 and len(lens) <= 12:
                for x in lens:
                    v = self.ev(m, x)
                    lo = core.bounds(x)[0] or 0
                    while lo < v:
                        mid = (lo + v) // 2
                        s.push()
                        s.add(x.z() <= mid)
                        if s.check() == z3.sat:
                            m = s.model()
                            v = self.ev(m, x)
                        else:
                            lo = mid + 1
                            s.pop()
                        if v - lo > 4096 and lo > 4096:
                            break
        fixed = [x.z() == self.ev(m, x) for x in lens]
        e.add(z3.And(*fixed) if fixed else z3.BoolVal(True))
        # read short contents completely, so that facts about all elements are instantiated
        for name, rec in list(e.inputs.items()):
            if rec[0] in ("bytes", "text", "zlib", "inflate"):
                n = self.ev(m, rec[2])
                if n <= READ_ALL:
                    for i in range(n):
                        rec[1].read(i)
            elif rec[0] == "float":
                for i in range(8):
                    rec[1].read(i)
        s = self.solver()
        s.add(*cal)
        if s.check() == z3.sat:
            m = s.model()
        elif fixed:
            raise NoModel("no model after completion")
        self.m = m
        return self.collect(m)

    def ev(self, m, x):
        if core.is_int(x):
            return int(x)
        return m.eval(x.z(), model_completion=True).as_long()

    def filler(self, name, codec):
        if codec is not None:
            return 0x61
        return 0xA5 if self.variant == 0 else (0x00 if self.variant == 1 else 0x4C)

    def array(self, m, base, n, codec=None):
        if n > MAX_BYTES:
            raise NoModel("input too large")
        fill = self.filler(base.name, codec)
        if n > 4096 and self.variant >= 1 and codec is None:
            out = bytearray(random.Random(self.variant).randbytes(n))
        else:
            out = bytearray([fill]) * n
        for idx in self.e.reads.get(base, ()):
            i = self.ev(m, idx)
            if 0 <= i < n:
                out[i] = self.ev(m, base.read(idx)) & 255
        return bytes(out)

    def seq(self, m, s):
        out = bytearray()
        for g in seqs.wrap(s).segs:
            n = self.ev(m, g.n)
            st = self.ev(m, g.start)
            if n > MAX_BYTES:
                raise NoModel("input too large")
            if isinstance(g.base, seqs.FillBase):
                out += bytes([self.ev(m, g.base.elem)]) * n
            elif isinstance(g.base, seqs.ArrBase):
                full = self.array(m, g.base, st + n, g.base.codec)
                out += full[st:st + n]
            else:
                for i in range(n):
                    out.append(self.ev(m, g.base.read(st + i)))
        return bytes(out)

    def collect(self, m):
        e = self.e
        inputs = {}
        tokens, inflate = [], []
        for name, rec in e.inputs.items():
            k = rec[0]
            if k == "int":
                inputs[name] = self.ev(m, rec[1])
            elif k == "bool":
                inputs[name] = bool(z3.is_true(m.eval(rec[1], model_completion=True)))
            elif k == "bytes":
                inputs[name] = enc(self.array(m, rec[1], self.ev(m, rec[2])))
            elif k == "text":
                inputs[name] = enc(self.array(m, rec[1], self.ev(m, rec[2]), rec[3]))
            elif k == "utf8":
                inputs[name] = {"text": utf8_text(self.ev(m, rec[2]), self.ev(m, rec[3]))}
            elif k == "float":
                inputs[name] = enc(self.array(m, rec[1], 8))
            elif k == "datetime":
                inputs[name] = [self.ev(m, x) for x in rec[1]]
            elif k == "zlib":
                tokens.append(enc(self.array(m, rec[1], self.ev(m, rec[2]))))
            elif k == "inflate":
                inflate.append([enc(self.seq(m, rec[3])), enc(self.array(m, rec[1], self.ev(m, rec[2])))])
        clock = [self.ev(m, n) for n in (e.env.get("clock") or {}).get("used", ())]
        out = {"inputs": inputs, "clock": clock, "steady": [self.ev(m, n) for n in e.env.get("steady", ())]}
        if tokens or inflate:
            out["stub"] = {"tokens": tokens, "inflate": inflate, "calls": e.env.get("zlib_calls", [])}
        return out

    def show(self, v):
        m = self.m
        if type(v) is SymBool:
            return bool(z3.is_true(m.eval(v.e, model_completion=True)))
        if type(v) is SymInt:
            return self.ev(m, v)
        if type(v) in (seqs.SymBytes, seqs.SymByteArray, seqs.SymMemory):
            return show_bytes(self.seq(m, v))
        if isinstance(v, (bytes, bytearray)):
            return show_bytes(v)
        if type(v) is seqs.SymStr:
            return None
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            return int(v)
        return f"<{type(v).__name__}>"


def _days(y, m, d):
    """Days since 1970-01-01 (proleptic Gregorian), as a formula."""
    early = core.boolint(m <= 2)
    y2 = y - early
    m2 = m + 12 * early - 3
    doy = (153 * m2 + 2) // 5 + d - 1
    return 365 * y2 + y2 // 4 - y2 // 100 + y2 // 400 + doy - 719468


def utf8_text(n, c):
    """c characters that take n bytes."""
    sizes = [1] * c
    left = n - c
    i = 0
    while left > 0 and i < c:
        add = min(3, left)
        sizes[i] += add
        left -= add
        i += 1
    return "".join({1: "a", 2: "\u00e9", 3: "\u20ac", 4: "\U0001f600"}[s] for s in sizes)


# --------------------------------------------------------------------------- exploration


class Result:
    def __init__(self, name, params):
        self.name = name
        self.params = params
        self.violation = None
        self.notes = set()
        self.covered = set()
        self.done = False
        self.paths_ok = 0
        self.assumed_away = 0
        self.validated = 0
        self.mismatch = []
        self.unconfirmed = []
        self.stats = {}
        self.samples = []
        self.wall = 0.0
        self.slowest = 0.0
        self.entered = {}

    def as_dict(self):
        return {k: (sorted(v) if isinstance(v, set) else v) for k, v in self.__dict__.items()}


def explore(h, params, replayer, deadline, validate=2, max_steps=None, smt_log=None):
    res = Result(h.name, params)
    t0 = time.monotonic()
    e = Engine(deadline=deadline, max_steps=max_steps or h.opts.get("max_steps", 400_000), log_queries=smt_log)
    core.set_engine(e)
    snap = instrument.Snapshot()
    snap0 = instrument.ENTERED.copy()
    validate_at = {1, 2, 4, 9, 25, 60, 140, 300}
    attempts = {}
    concolic = 0
    try:
        while True:
            e.start_path()
            e.deadline = deadline
            cand = None
            bounded = None
            passed = False
            try:
                snap.restore()
                h.fn(SymCtx(), **params)
                res.paths_ok += 1
                passed = True
                res.covered |= e.covered
            except Infeasible:
                res.assumed_away += 1
            except Bounded as b:
                bounded = b.why
            except Hang:
                cand = ("does not end", None)
            except Violated as v:
                cand = (v.msg, v.query)
            except Deadline:
                # the path under way may still fail when it is run
                e.deadline = deadline + 20
                e.path_end = e.deadline
                r = replay_path(res, e, h, params, replayer) if replayer is not None else None
                if r and r[0]["status"] in ("violation", "timeout"):
                    set_violation(res, r[0]["msg"], r[1], "a path without end, replayed")
                raise
            except LongPath:
                bounded = "a path took too long"
                for en in e.trace[40:]:
                    if en.alt:
                        en.alt = False
            except RecursionError:
                cand = ("raised RecursionError", None)
            except Exception as exc:  # noqa: BLE001
                tb = traceback.extract_tb(exc.__traceback__)
                where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
                cand = (f"raised {type(exc).__name__}: {exc} at {' '.join(where)}", None)
            res.slowest = max(res.slowest, time.monotonic() - e.path_end + e.path_limit)
            e.deadline = deadline + 20
            e.path_end = e.deadline
            mark = len(e.trace)
            if cand is not None:
                key = cand[0].split(":")[0]
                k = attempts[key] = attempts.get(key, 0) + 1
                if k <= 4 and not confirm(res, e, h, params, cand, replayer):
                    res.unconfirmed.append(cand[0])
                elif k > 4:
                    res.unconfirmed.append(cand[0])
                if res.violation:
                    break
            elif bounded is not None:
                res.notes.add("bounded: " + bounded)
                if concolic < 3 and replayer is not None:
                    concolic += 1
                    r = replay_path(res, e, h, params, replayer)
                    if r and r[0]["status"] in ("violation", "timeout"):
                        set_violation(res, r[0]["msg"], r[1], "a path outside the models, replayed")
                        break
            elif passed and res.paths_ok in validate_at and validate and replayer is not None:
                r = replay_path(res, e, h, params, replayer, compare=True)
                if r and r[0]["status"] == "violation":
                    set_violation(res, r[0]["msg"], r[1], "a passing path, replayed")
                    break
            del e.trace[mark:]
            if not e.next_path():
                res.done = True
                break
    except Deadline:
        res.notes.add("time budget used up")
    res.notes |= e.notes
    res.stats = e.stats.as_dict()
    if e.inconclusive:
        res.notes.add(f"{e.inconclusive} checks without an answer")
    res.entered = {k: v - snap0.get(k, 0) for k, v in instrument.ENTERED.items() if v - snap0.get(k, 0)}
    res.wall = time.monotonic() - t0
    return res


def request(h, params, data, stub):
    req = {"harness": h.name, "params": params, "inputs": data["inputs"], "clock": data["clock"], "steady": data["steady"]}
    if stub and "stub" in data:
        req["stub"] = data["stub"]
    return req


def set_violation(res, msg, req, how):
    res.violation = {"msg": msg, "how": how, "request": req}


def confirm(res, e, h, params, cand, replayer):
    """Replays a candidate on the real code; True when it is settled (confirmed)."""
    msg, query = cand
    if replayer is None:
        set_violation(res, msg, {}, "not replayed")
        return True
    why = []
    mark = len(e.constraints)
    for variant in range(4):
        del e.constraints[mark:]
        try:
            data = Extractor(e, query, variant).run()
        except NoModel as exc:
            why.append(str(exc))
            continue
        except (Bounded, Infeasible, Deadline) as exc:
            why.append(f"{type(exc).__name__} {exc}")
            continue
        for stub in (False, True):
            if stub and "stub" not in data:
                continue
            req = request(h, params, data, stub)
            r = replayer.ask(req)
            if r["status"] in ("violation", "timeout"):
                set_violation(res, r["msg"], req, "counterexample of the solver (" + msg + ")"
                              + (", zlib replaced by its model" if stub else ""))
                return True
            why.append(r["status"] + " " + r.get("msg", ""))
    res.notes.add(f"not reproduced: {msg} [{'; '.join(why)[:300]}]")
    return False


def replay_path(res, e, h, params, replayer, compare=False):
    try:
        x = Extractor(e, None)
        data = x.run()
        want = [[label, x.show(v)] for label, v in e.env.get("obs", ())] if compare else None
    except (NoModel, Bounded, Infeasible, Deadline) as exc:
        if compare:
            res.notes.add(f"no concrete run for a path: {type(exc).__name__} {exc}")
        return None
    except Exception as exc:  # noqa: BLE001
        res.notes.add(f"no concrete run for a path: {type(exc).__name__} {exc}")
        return None
    for stub in (False, True) if "stub" in data else (False,):
        req = request(h, params, data, stub)
        if compare:
            req["exact"] = True
        r = replayer.ask(req)
        if r["status"] == "violation" and not (stub and compare):
            return r, req
        if compare and stub == ("stub" in data):
            if r["status"] == "ok":
                res.validated += 1
                if len(res.samples) < 2:
                    res.samples.append({"harness": h.name, "params": params, "inputs": shorten(data["inputs"])})
                got = r.get("obs", [])
                for (l1, a), (l2, b) in zip(want, got):
                    if l1 != l2 or (a is not None and a != b):
                        res.mismatch.append(f"{h.name} {l1}: encoded {a!r} real {b!r}"[:300])
                        break
                else:
                    if len(want) != len(got):
                        res.mismatch.append(f"{h.name}: {len(want)} observations, {len(got)} real")
            else:
                res.mismatch.append(f"{h.name}: replay of a passing path: {r['status']} {r.get('msg', '')}"[:300])
    return r, req


def shorten(inputs):
    out = {}
    for k, v in list(inputs.items())[:24]:
        if isinstance(v, dict) and "hex" in v and len(v["hex"]) > 96:
            v = v["hex"][:80] + f"... ({len(v['hex']) // 2} bytes)"
        elif isinstance(v, dict) and "zb64" in v:
            v = "(long content)"
        out[k] = v
    return out
