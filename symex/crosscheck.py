"""Puts a sample of the decided queries to cvc5 (thorough runs)."""
import os
import random
import time

import z3

SAMPLE = 12
LIMIT_MS = 20000


class Logger:
    """Called with every query z3 decided; keeps a uniform sample as SMT-LIB text."""

    def __init__(self, directory, name):
        self.dir = directory
        self.name = name
        self.seen = {"sat": 0, "unsat": 0}
        self.kept = {"sat": [], "unsat": []}
        self.rnd = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))

    def __call__(self, constraints, extra, result):
        if result not in self.kept:
            return
        k = self.seen[result] = self.seen[result] + 1
        kept = self.kept[result]
        cap = SAMPLE if result == "unsat" else SAMPLE // 3
        if len(kept) >= cap:
            i = self.rnd.randrange(k)
            if i >= cap:
                return
        s = z3.Solver()
        s.add(*constraints)
        if extra is not None:
            s.add(extra)
        text = s.to_smt2()
        if len(kept) < cap:
            kept.append(text)
        else:
            kept[i] = text

    def finish(self):
        """{agree, differ, unanswered}: cvc5's opinion about the sample."""
        out = {"agree": 0, "differ": 0, "unanswered": 0}
        try:
            import cvc5
        except ImportError:
            return out
        t = time.monotonic()
        for want, texts in self.kept.items():
            for text in texts:
                if time.monotonic() - t > 120:
                    out["unanswered"] += 1
                    continue
                got = ask(cvc5, text)
                out["agree" if got == want else "differ" if got in ("sat", "unsat") else "unanswered"] += 1
        return out


def ask(cvc5, text):
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(LIMIT_MS))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "query")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            r = str(cmd.invoke(slv, sm)).strip()
            if r in ("sat", "unsat", "unknown"):
                res = r
        return res
    except Exception as exc:  # noqa: BLE001
        return f"error {exc}"[:200]
