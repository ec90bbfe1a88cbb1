#!/usr/bin/env python3
"""Decides one property:  python3-vt check.py C01 [--tier quick|thorough] [--only HARNESS] [--jobs N] [-v]

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself failed."""
import argparse
import importlib
import json
import os
import shutil
import pickle
import resource
import select
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO_SRC = os.environ.get("VBLF_SRC", "/repo/src")
if "z3" not in sys.modules:
    try:
        import z3  # noqa: F401
    except ImportError:  # started with another interpreter
        os.execv("/opt/veriftools/pyvenv/bin/python3", ["python3", *sys.argv])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def load():
    from symex import instrument

    instrument.install(REPO_SRC, HERE)
    for m in ("vblf", "vblf.constants", "vblf.general", "vblf.can", "vblf.lin", "vblf.ethernet", "vblf.flexray",
              "vblf.tp_diag", "vblf.reader", "vblf.writer"):
        importlib.import_module(m)
    for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if f.startswith("c_") and f.endswith(".py"):
            importlib.import_module("checks." + f[:-3])
    from checks.api import ORDER, REGISTRY

    return [REGISTRY[n] for n in ORDER]


class Slot:
    def __init__(self, k):
        from symex.run import Replayer

        self.k = k
        self.rep = Replayer()
        self.pid = None
        self.fd = None
        self.buf = b""
        self.task = None

    def start(self, task, deadline, validate, smt_dir):
        from symex import run

        if self.rep.p is None:
            self.rep.start()
        h, params = task
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                sys.setrecursionlimit(4000)
                log = None
                if smt_dir:
                    from symex import crosscheck

                    log = crosscheck.Logger(smt_dir, f"{h.name}-{abs(hash(str(params)))}")
                res = run.explore(h, params, self.rep, deadline, validate=validate, smt_log=log)
                if log is not None:
                    res.cross = log.finish()
                data = pickle.dumps(res.as_dict())
            except BaseException as exc:  # noqa: BLE001
                import traceback

                data = pickle.dumps({"name": h.name, "params": params, "error": f"{type(exc).__name__}: {exc}",
                                     "tb": traceback.format_exc()[-3000:]})
            view = memoryview(data)
            while view:
                n = os.write(w, view[:65536])
                view = view[n:]
            os._exit(0)
        os.close(w)
        self.pid, self.fd, self.buf, self.task = pid, r, b"", task
        self.hard = deadline + 75

    def kill(self):
        if self.pid is not None:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(self.pid, 0)
            os.close(self.fd)
            self.pid = None
        self.rep.stop()


def run_all(tasks, jobs, deadline, validate, smt_dir, verbose, stop_early=True):
    slots = [Slot(k) for k in range(min(jobs, len(tasks)))]
    todo = list(tasks)
    results = []
    try:
        while todo or any(s.pid for s in slots):
            for s in slots:
                if s.pid is None and todo:
                    h, params = todo.pop(0)
                    d = deadline
                    if h.budget:
                        d = min(d, time.monotonic() + h.budget)
                    s.start((h, params), d, validate, smt_dir)
            busy = [s for s in slots if s.pid]
            ready, _, _ = select.select([s.fd for s in busy], [], [], 2)
            for s in busy:
                if s.fd in ready:
                    d = os.read(s.fd, 1 << 20)
                    if d:
                        s.buf += d
                        continue
                    os.close(s.fd)
                    _, st = os.waitpid(s.pid, 0)
                    s.pid = None
                    try:
                        r = pickle.loads(s.buf)
                    except Exception:  # noqa: BLE001
                        r = {"name": s.task[0].name, "params": s.task[1], "error": f"worker ended with status {st}"}
                        s.rep.stop()
                    results.append(r)
                    if verbose:
                        show(r)
                    if r.get("violation") and stop_early:
                        return results, len(todo) + sum(1 for x in slots if x.pid)
                elif time.monotonic() > s.hard:
                    results.append({"name": s.task[0].name, "params": s.task[1], "error": "no end within the time budget"})
                    s.kill()
    finally:
        for s in slots:
            s.kill()
    return results, 0


def show(r):
    if "error" in r:
        print(f"  ! {r['name']} {r['params']}: {r['error']}\n{r.get('tb', '')}")
        return
    st = r["stats"]
    flag = "VIOLATION" if r["violation"] else ("ok" if r["done"] else "partial")
    print(f"  {flag:9} {r['name']} {r['params']} paths={st['paths']} ok={r['paths_ok']} checks={st['checks']}"
          f" q={st['queries']} solver={st['solver_s']:.1f}s wall={r['wall']:.1f}s slowest={r['slowest']:.1f}s val={r['validated']}")
    for n in r["notes"]:
        print("      -", n)
    for n in r["mismatch"]:
        print("      MISMATCH", n)
    if r["violation"]:
        print("     ", r["violation"]["msg"], "|", r["violation"]["how"])
        req = r["violation"]["request"]
        print("     ", json.dumps({k: req[k] for k in req if k in ("inputs", "clock")})[:600])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.monotonic()
    pid = a.property
    all_h = load()
    hs = [h for h in all_h if (pid in h.props or pid == "all") and (a.only is None or a.only in h.name)]
    if not hs:
        print(f"no harness for {pid}")
        return 2
    budget = a.budget or (780 if a.tier == "thorough" else 240)
    deadline = t0 + budget
    tasks = [(h, p) for h in hs for p in h.instances(a.tier)]
    tasks.sort(key=lambda t: -t[0].opts.get("weight", 1) * t[1].get("_w", 1))
    tasks = [(h, {k: v for k, v in p.items() if k != "_w"}) for h, p in tasks]
    smt_dir = None
    if a.tier == "thorough":
        smt_dir = tempfile.mkdtemp(prefix="vblf-smt-")
    # what the code under test might create by a relative name in spite of the file model ends here
    work_dir = tempfile.mkdtemp(prefix="vblf-work-")
    os.chdir(work_dir)
    try:
        results, skipped = run_all(tasks, a.jobs, deadline, True, smt_dir, a.v, not a.keep_going)
    finally:
        os.chdir(HERE)
        for d in (work_dir, smt_dir):
            if d:
                shutil.rmtree(d, ignore_errors=True)
    return report(pid, a, hs, tasks, results, skipped, time.monotonic() - t0)


def report(pid, a, hs, tasks, results, skipped, wall):
    good = [r for r in results if "error" not in r]
    errors = [f"{r['name']} {r['params']}: {r['error']}" for r in results if "error" in r]
    tot = {}
    for r in good:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    entered = {}
    for r in good:
        for k, v in r["entered"].items():
            if k.startswith("vblf"):
                entered[k] = entered.get(k, 0) + v
    incomplete = list(errors)
    covered = {}
    for r in good:
        covered.setdefault(r["name"], set()).update(r["covered"])
        for n in r["notes"]:
            if n != "a symbolic value was concretised":
                incomplete.append(f"{r['name']} {r['params']}: {n}")
        for n in r["mismatch"]:
            incomplete.append("model and implementation differ: " + n)
        if not r["done"] and not r["violation"]:
            incomplete.append(f"{r['name']} {r['params']}: not explored completely")
    for h in hs:
        miss = [c for c in h.covers if c not in covered.get(h.name, ())]
        if miss and not skipped:
            incomplete.append(f"{h.name}: never reached {', '.join(miss)}")
    for r in good:
        if r["done"] and r["paths_ok"] == 0:
            incomplete.append(f"{r['name']} {r['params']}: no path reached the end (vacuous)")
    viol = [r for r in good if r["violation"]]
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    replay = None
    if viol:
        replay = os.path.join("evidence", f"{pid}-replay.json")
        with open(os.path.join(HERE, replay), "w") as f:
            json.dump(dict(viol[0]["violation"]["request"], property=pid, message=viol[0]["violation"]["msg"],
                           how=viol[0]["violation"]["how"]), f, indent=1)
    per_h = {}
    for r in good:
        d = per_h.setdefault(r["name"], {"instances": 0, "complete": 0, "paths": 0, "checks": 0, "queries": 0, "solver_s": 0.0})
        d["instances"] += 1
        d["complete"] += bool(r["done"])
        d["paths"] += r["stats"]["paths"]
        d["checks"] += r["stats"]["checks"]
        d["queries"] += r["stats"]["queries"]
        d["solver_s"] = round(d["solver_s"] + r["stats"]["solver_s"], 2)
    cross = {}
    for r in good:
        for k, v in (r.get("cross") or {}).items():
            cross[k] = cross.get(k, 0) + v
    if cross.get("differ"):
        incomplete.append(f"the two solvers disagree on {cross['differ']} queries")
    samples = []
    for r in good:
        if len(samples) < 4:
            samples += r["samples"][:1]
    text = json.dumps(samples)
    if len(text) > 12000:
        samples = samples[:1]
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("branches", 0),
            "traces_validated_against_impl": sum(r["validated"] for r in good),
            "samples": samples,
            "explanation": "states: symbolic paths of the real code explored; transitions: branch decisions settled by the "
                           "solver; traces: solver models of passing paths replayed on the untouched code with equal observations",
            "harness_instances": len(tasks),
            "harness_instances_complete": sum(1 for r in good if r["done"]),
            "assertions_checked": tot.get("checks", 0),
            "assertions_discharged": tot.get("discharged", 0),
            "queries": tot.get("queries", 0),
            "queries_unknown": tot.get("unknown", 0),
            "solver_s": round(tot.get("solver_s", 0), 2),
            "functions_encoded": sorted(entered),
            "harnesses": per_h,
            "bounds": {h.name: h.note for h in hs},
            "incomplete": incomplete[:60],
            "incomplete_count": len(incomplete),
            "exhaustive": not incomplete,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if cross:
        ev["coverage"]["second_solver"] = cross
    if not a.no_evidence and a.only is None:
        body = json.dumps(ev, indent=1)
        if len(body) > 60000:
            ev["coverage"]["samples"] = samples[:1]
            ev["coverage"]["incomplete"] = incomplete[:10]
            body = json.dumps(ev, indent=1)
        with open(os.path.join(ev_dir, f"{pid}.json"), "w") as f:
            f.write(body + "\n")
    if viol:
        for r in viol[:3]:
            print(f"{r['name']} {r['params']}: {r['violation']['msg']} ({r['violation']['how']})")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    for n in incomplete[:20]:
        print("INCOMPLETE", n)
    print(f"{pid} held on everything explored: {len(good)} instances, {tot.get('paths', 0)} paths, {tot.get('checks', 0)} assertions, "
          f"{tot.get('queries', 0)} queries, solver {tot.get('solver_s', 0):.1f} s, {wall:.1f} s"
          f"{'' if not incomplete else f', {len(incomplete)} incomplete'}")
    if not good:
        return 2
    return 0


ASSUMPTIONS = [
    "the symbolic executor (symex/) and the models of struct, zlib, io, time, datetime and codecs are faithful; every run replays "
    "solver models of passing paths on the untouched code and compares observations",
    "zlib is modelled by its contract: compress gives a stream of some length (at most n + n/1000 + 64) that decompresses to its "
    "input; unknown data inflates to anything or fails",
    "z3 answers are right (thorough runs put a sample of the queries to cvc5)",
    "little-endian 64-bit CPython; files do not fail; one thread",
]

if __name__ == "__main__":
    sys.exit(main())
