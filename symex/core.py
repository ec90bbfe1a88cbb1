"""Path exploration, solver access and the scalar symbolic values (bool, int, float).

Python ints are SMT Ints (unbounded, exactly Python's semantics).  A symbolic int is a linear
combination of *atoms*; every non-linear or table-like term is its own atom with linear axioms.
"""
from __future__ import annotations

import time as _time
from fractions import Fraction
from math import gcd

import z3

# --------------------------------------------------------------------------- control flow


class EngineStop(BaseException):
    """Base of everything that ends a path from inside (never caught by code under test)."""


class Infeasible(EngineStop):
    """An assumption contradicts the path: the path does not exist."""


class Bounded(EngineStop):
    """The path left the stated bounds (or used something not modelled)."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class Hang(EngineStop):
    """The path exceeded the step budget: a candidate for non-termination."""


class Violated(EngineStop):
    def __init__(self, msg, model_query):
        super().__init__(msg)
        self.msg = msg
        self.query = model_query


class LongPath(EngineStop):
    """One path takes longer than its share."""


class Deadline(EngineStop):
    """The time budget of the harness is used up."""


def is_int(x):
    """A real int (symbolic ints claim the class int)."""
    return type(x) is not SymInt and type(x) is not SymBool and isinstance(x, int)


def is_float(x):
    return type(x) is not SymFloat and isinstance(x, float)


# --------------------------------------------------------------------------- engine


class Atom:
    __slots__ = ("id", "z", "lo", "hi", "axioms", "deps", "tag")
    count = 0
    by_id: dict = {}

    def __init__(self, z, lo, hi, axioms=(), deps=(), tag=None):
        Atom.count += 1
        self.id = Atom.count
        Atom.by_id[self.id] = self
        self.z = z
        self.lo = lo
        self.hi = hi
        ax = list(axioms)
        if lo is not None:
            ax.append(z >= lo)
        if hi is not None:
            ax.append(z <= hi)
        self.axioms = ax
        self.deps = deps
        self.tag = tag


_ATOMS: dict = {}


def atom(key, make):
    a = _ATOMS.get(key)
    if a is None:
        a = _ATOMS[key] = make()
    return a


class Entry:
    __slots__ = ("kind", "choice", "alt")

    def __init__(self, kind, choice, alt=False):
        self.kind = kind
        self.choice = choice
        self.alt = alt


class Stats:
    FIELDS = ("queries", "unknown", "solver_s", "branches", "forks", "checks", "discharged",
              "concretised", "paths", "entail")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    """One harness instance: explores all its paths."""

    def __init__(self, timeout_ms=8000, max_steps=400_000, deadline=None, log_queries=None):
        self.stats = Stats()
        self.trace: list[Entry] = []
        self.timeout_ms = timeout_ms
        self.max_steps = max_steps
        self.deadline = deadline
        self.active = False
        self.notes: set[str] = set()
        self.log_queries = log_queries
        self.inconclusive = 0

    # ---- path life cycle
    path_limit = 30.0

    def start_path(self):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", self.timeout_ms)
        self.constraints: list = []
        self.introduced: set[int] = set()
        self.fresh_axioms: list = []
        self.model = None
        self.pos = 0
        self.steps = 0
        self.path_end = _time.monotonic() + self.path_limit
        self.fresh_n = 0
        self.facts: dict = {}
        self.reads: dict = {}
        self.inputs: dict = {}
        self.covered: set = set()
        self.env: dict = {}
        self.known: dict = {}
        self.lin: dict = {}
        self.fixed: dict = {}
        self.fixed_n = 0
        self.universals: dict = {}
        self.reads_seen: set = set()
        self.depth = 0
        self.active = True
        self.stats.paths += 1

    def next_path(self) -> bool:
        """Flip the last open decision; False when everything is explored."""
        self.active = False
        while self.trace:
            e = self.trace[-1]
            if e.alt:
                e.choice = not e.choice
                e.alt = False
                return True
            self.trace.pop()
        return False

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise Hang
        if self.deadline is not None and (self.steps & 63) == 0 and _time.monotonic() > self.deadline:
            raise Deadline

    # ---- solver
    def introduce(self, a: Atom):
        if a.id in self.introduced:
            return
        self.introduced.add(a.id)
        for d in a.deps:
            self.introduce(d)
        for x in a.axioms:
            self.solver.add(x)
            self.constraints.append(x)
            self.fresh_axioms.append(x)

    def add(self, e):
        self.solver.add(e)
        self.constraints.append(e)

    def _query(self, extra, want_model=True):
        """check(path & extra) -> 'sat'/'unsat'/'unknown' (and sets self._last_model)."""
        if self.deadline is not None:
            now = _time.monotonic()
            if now > self.deadline:
                raise Deadline
            if now > self.path_end:
                raise LongPath
        t = _time.perf_counter()
        self.solver.push()
        try:
            if extra is not None:
                self.solver.add(extra)
            r = self.solver.check()
            if r == z3.unknown:
                s = z3.Solver()
                s.set("timeout", self.timeout_ms * 2)
                s.add(*self.constraints)
                if extra is not None:
                    s.add(extra)
                r = s.check()
                if r == z3.sat:
                    self._last_model = s.model()
            elif r == z3.sat and want_model:
                self._last_model = self.solver.model()
        finally:
            self.solver.pop()
        self.stats.queries += 1
        self.stats.solver_s += _time.perf_counter() - t
        if self.log_queries is not None:
            self.log_queries(self.constraints, extra, str(r))
        if r == z3.unknown:
            self.stats.unknown += 1
        return str(r)

    def _model_says(self, e):
        """Truth of e in the current model, or None."""
        if self.model is None:
            return None
        if self.fresh_axioms:
            ax, self.fresh_axioms = self.fresh_axioms, []
            for x in ax:
                if not z3.is_true(self.model.eval(x, model_completion=True)):
                    self.model = None
                    return None
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _set_model(self):
        self.model = self._last_model
        self.fresh_axioms = []

    def axiom(self, e):
        """Add a consequence or definition; a current model is re-checked against it."""
        self.solver.add(e)
        self.constraints.append(e)
        self.fresh_axioms.append(e)

    def note_read(self, base, idx):
        k = (base, ikey(idx))
        if k in self.reads_seen:
            return
        self.reads_seen.add(k)
        self.reads.setdefault(base, []).append(idx)
        if self.depth > 4:
            return
        self.depth += 1
        try:
            for u in list(self.universals.get(base, ())):
                self._inst(u, base, idx)
        finally:
            self.depth -= 1

    def _inst(self, u, base, idx):
        e = u(base, idx)
        if e is not None:
            self.axiom(e)

    def universal(self, bases, fn):
        """A universally quantified fact, instantiated at every read of the given bases.

        fn(base, idx) returns the instance (a z3 term) or None."""
        for b in set(bases):
            self.universals.setdefault(b, []).append(fn)
            for idx in list(self.reads.get(b, ())):
                self._inst(fn, b, idx)

    def lin_known(self, b):
        """What earlier decisions on the same linear form say about b (True, False or None)."""
        kind, form, v, sense = b.lin
        f = self.lin.get(form)
        if f is None:
            if self.fixed_n and self.fixed:
                c, items = 0, form[1]
                for i, co in items:
                    x = self.fixed.get(Atom.by_id[i])
                    if x is None:
                        return None
                    c += co * x
                lo = hi = c
            else:
                return None
        else:
            lo, hi = f
        if kind == "ge":
            if lo is not None and lo >= v:
                return sense
            if hi is not None and hi < v:
                return not sense
        else:
            if lo is not None and lo == v and hi == v:
                return sense
            if (lo is not None and lo > v) or (hi is not None and hi < v):
                return not sense
        return None

    def lin_learn(self, b, r):
        kind, form, v, sense = b.lin
        f = self.lin.get(form)
        lo, hi = form_bounds(form) if f is None else f
        if kind == "ge":
            if r is sense:
                lo = v if lo is None or lo < v else lo
            else:
                hi = v - 1 if hi is None or hi > v - 1 else hi
        elif r is sense:
            lo = hi = v
        else:
            if lo == v:
                lo = v + 1
            if hi == v:
                hi = v - 1
        self.lin[form] = (lo, hi)
        if lo is not None and lo == hi:
            self.fixed_n += 1
            items = form[1]
            if len(items) == 1:
                self.fixed[Atom.by_id[items[0][0]]] = lo

    def branch(self, b: "SymBool") -> bool:
        self.tick()
        self.stats.branches += 1
        if b.lin is not None:
            r = self.lin_known(b)
            if r is not None:
                return r
            r = self._branch(b)
            self.lin_learn(b, r)
            return r
        k = b.e.get_id()
        got = self.known.get(k)
        if got is not None:
            return got[1]
        r = self._branch(b)
        self.known[k] = (b.e, r)
        self.known[b.n.get_id()] = (b.n, not r)
        return r

    def _branch(self, b):
        if self.pos < len(self.trace):
            en = self.trace[self.pos]
            self.pos += 1
            self.add(b.e if en.choice else b.n)
            if self.pos == len(self.trace):
                self.model = None
            return en.choice
        says = self._model_says(b.e)
        t = f = None
        mt = mf = None
        if says is True:
            t, mt = True, self.model
        elif says is False:
            f, mf = True, self.model
        if t is None:
            r = self._query(b.e)
            t = r != "unsat"
            mt = self._last_model if r == "sat" else None
        if f is None:
            r = self._query(b.n)
            f = r != "unsat"
            mf = self._last_model if r == "sat" else None
        if not t and not f:
            raise Infeasible
        choice = bool(t)
        self.trace.append(Entry("b", choice, alt=t and f))
        self.pos += 1
        if t and f:
            self.stats.forks += 1
        self.add(b.e if choice else b.n)
        self.model = mt if choice else mf
        self.fresh_axioms = []
        return choice

    def decide(self, b) -> "bool | None":
        """True/False if the path condition settles b, None if both are possible (no fork)."""
        if type(b) is not SymBool:
            return b
        self.tick()
        if self.pos < len(self.trace):
            en = self.trace[self.pos]
            assert en.kind == "d", "nondeterministic replay"
            self.pos += 1
            return en.choice
        self.stats.entail += 1
        if b.lin is not None:
            res = self.lin_known(b)
            if res is not None:
                self.trace.append(Entry("d", res))
                self.pos += 1
                return res
        says = self._model_says(b.e)
        res = None
        if says is not True:
            r = self._query(b.e)
            if r == "unsat":
                res = False
            elif r == "sat":
                if self.model is None:
                    self._set_model()
                if says is None:
                    says = self._model_says(b.e)
        if res is None and says is not False:
            r = self._query(b.n, want_model=False)
            if r == "unsat":
                res = True
        self.trace.append(Entry("d", res))
        self.pos += 1
        return res

    def assume(self, b):
        if isinstance(b, SymBool):
            if b.lin is not None:
                r = self.lin_known(b)
                if r is True:
                    return
                if r is False:
                    raise Infeasible
                self.lin_learn(b, True)
            if self.pos < len(self.trace):
                self.add(b.e)
                self.model = None
                return
            says = self._model_says(b.e)
            self.add(b.e)
            if says is not True:
                if self._query(None) == "unsat":
                    raise Infeasible
                self.model = None
        elif not b:
            raise Infeasible

    def check(self, b, msg):
        """Prove b on this path; otherwise the path ends as a candidate violation."""
        self.stats.checks += 1
        if isinstance(b, SymInt):
            b = b != 0
        if isinstance(b, SymBool):
            if self.pos < len(self.trace):
                # proved when this prefix was explored first
                self.stats.discharged += 1
                return
            r = self._query(b.n)
            if r == "unsat":
                self.stats.discharged += 1
                self.add(b.e)
                return
            if r == "unknown":
                self.inconclusive += 1
                self.notes.add(f"solver gave no answer: {msg}")
                return
            raise Violated(msg, b.n)
        if not b:
            raise Violated(msg, None)
        self.stats.discharged += 1

    def fresh(self, prefix):
        self.fresh_n += 1
        return f"{prefix}!{self.fresh_n}"

    def possible(self, c):
        """Whether c can hold on this path (an unanswered query counts as possible)."""
        if not isinstance(c, SymBool):
            return bool(c)
        if c.lin is not None:
            k = self.lin_known(c)
            if k is not None:
                return k
        if self.pos < len(self.trace):
            en = self.trace[self.pos]
            assert en.kind == "v", "nondeterministic replay"
            self.pos += 1
            return en.choice
        r = self._query(c.e) != "unsat"
        self.trace.append(Entry("v", r))
        self.pos += 1
        return r

    def concretize(self, x, limit=None):
        """A concrete value of a symbolic int: branches over its values (bounded)."""
        if not isinstance(x, SymInt):
            return x
        x = settle(x)
        if type(x) is not SymInt:
            return x
        lo, hi = x.bounds()
        if limit is None:
            limit = 300 if lo is not None and hi is not None and hi - lo <= 300 else 3
        self.notes.add("a symbolic value was concretised")
        self.stats.concretised += 1
        for _ in range(limit):
            v = self.value_of(x)
            if self.branch(mkbool(x.z() == v)):
                return v
        raise Bounded("too many values of a concretised integer")

    def value_of(self, x):
        """Some value of x possible on this path (recorded, so replay is deterministic)."""
        if self.pos < len(self.trace):
            en = self.trace[self.pos]
            assert en.kind == "v", "nondeterministic replay"
            self.pos += 1
            return en.choice
        z = x.z()
        r = self._query(None)
        if r == "unsat":
            raise Infeasible
        if r == "unknown":
            raise Bounded("solver gave no answer")
        v = self._last_model.eval(z, model_completion=True).as_long()
        self.trace.append(Entry("v", v))
        self.pos += 1
        return v


E: Engine | None = None


def set_engine(e):
    global E
    E = e


def eng() -> Engine:
    if E is None or not E.active:
        raise Bounded("no active path")
    return E


# --------------------------------------------------------------------------- bool


class SymBool:
    __slots__ = ("e", "n", "lin")
    __class__ = property(lambda self: bool)

    def __init__(self, e, n=None, lin=None):
        self.e = e
        self.n = z3.Not(e) if n is None else n
        self.lin = lin  # (kind, form, bound, sense): form >= bound or form == bound, negated unless sense

    def force(self):
        return self

    def __bool__(self):
        return eng().branch(self)

    def __and__(self, o):
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return ~boolint(self)

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.e, o.e))
        return snot(self) if o else self

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else snot(self)
        if isinstance(o, (int, SymInt)):
            return boolint(self) == o
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return boolint(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return boolint(self) - o

    def __rsub__(self, o):
        return o - boolint(self)

    def __mul__(self, o):
        return boolint(self) * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return boolint(self) < o

    def __gt__(self, o):
        return boolint(self) > o

    def __le__(self, o):
        return boolint(self) <= o

    def __ge__(self, o):
        return boolint(self) >= o

    def __repr__(self):
        return "<symbolic bool>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mkbool(e, n=None):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e, n)


def snot(b):
    if isinstance(b, SymBool):
        n = b.lin
        return SymBool(b.n, b.e, None if n is None else (n[0], n[1], n[2], not n[3]))
    return not b


_ZC: dict = {}
_LIN: dict = {}


def zform(key):
    """The z3 term of a linear form given by its key."""
    z = _ZC.get(key)
    if z is None:
        z = _ZC[key] = _ATOM_SUM(key)
    return z


def _ATOM_SUM(key):
    k, items = key
    terms = [Atom.by_id[i].z if c == 1 else c * Atom.by_id[i].z for i, c in items]
    if k or not terms:
        terms.append(z3.IntVal(k))
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def lin_cmp(kind, d):
    """d >= 0 (kind 'ge') or d == 0 (kind 'eq') as a SymBool over a normalised linear form."""
    e = eng()
    for a in d.m:
        e.introduce(a)
    k, items = d.key()
    g = 0
    for _, c in items:
        g = gcd(g, c)
    if items[0][1] < 0:
        g = -g
    form = (0, tuple((i, c // g) for i, c in items))
    sense = True
    if kind == "ge":
        if g > 0:
            b = -(k // g)
        else:
            b = k // -g + 1
            sense = False
    else:
        if k % g:
            return False
        b = -k // g
    key = (kind, form, b, sense)
    r = _LIN.get(key)
    if r is None:
        z = zform(form)
        if kind == "ge":
            t, f = z >= b, z <= b - 1
        else:
            t = z == b
            f = z3.Not(t)
        r = _LIN[key] = SymBool(t, f, key) if sense else SymBool(f, t, key)
        _LIN[(kind, form, b, not sense)] = SymBool(f, t, (kind, form, b, not sense)) if sense else SymBool(
            t, f, (kind, form, b, not sense))
    return r


def form_bounds(form):
    lo = hi = 0
    for i, c in form[1]:
        a = Atom.by_id[i]
        l, h = (a.lo, a.hi) if c > 0 else (a.hi, a.lo)
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    return lo, hi


def settle(x):
    """x with everything this path has pinned to one value replaced by that value."""
    if type(x) is not SymInt:
        return x
    e = E
    if e is None or not e.fixed_n:
        return x
    fx = e.fixed
    if fx and any(a in fx for a in x.m):
        k = x.k
        m = {}
        for a, c in x.m.items():
            v = fx.get(a)
            if v is None:
                m[a] = c
            else:
                k += c * v
        if not m:
            return k
        x = SymInt(k, m)
    items = x.key()[1]
    g = 0
    for _, c in items:
        g = gcd(g, c)
    if items[0][1] < 0:
        g = -g
    f = e.lin.get((0, tuple((i, c // g) for i, c in items)))
    if f is not None and f[0] is not None and f[0] == f[1]:
        return x.k + g * f[0]
    return x


def sand(*bs):
    out = []
    facts = E.lin_known if E is not None and E.active else None
    for b in bs:
        if isinstance(b, SymBool):
            r = facts(b) if facts is not None and b.lin is not None else None
            if r is None:
                out.append(b)
            elif not r:
                return False
        elif not b:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool(z3.And(*[b.e for b in out]), z3.Or(*[b.n for b in out]))


def sor(*bs):
    return snot(sand(*[snot(b) for b in bs]))


def boolint(b):
    if not isinstance(b, SymBool):
        return int(b)
    a = atom(("b2i", b.e.get_id(), b.e), lambda: Atom(z3.If(b.e, z3.IntVal(1), z3.IntVal(0)), 0, 1))
    return mkint(0, {a: 1})


# --------------------------------------------------------------------------- int


def _is_int(x):
    return isinstance(x, (int, SymInt)) or isinstance(x, SymBool)


class SymInt:
    """k + sum(coeff * atom); optional enum class and byte provenance."""

    __slots__ = ("k", "m", "enumcls", "digits", "_z", "_key")

    def __init__(self, k, m, enumcls=None, digits=None):
        self.k = k
        self.m = m
        self.enumcls = enumcls
        self.digits = digits  # (tuple of little-endian byte values, signed)
        self._z = None
        self._key = None

    @property
    def __class__(self):
        return self.enumcls or int

    # -- structure
    def key(self):
        if self._key is None:
            self._key = (self.k, tuple(sorted((a.id, c) for a, c in self.m.items())))
        return self._key

    def const(self):
        return None if self.m else self.k

    def bounds(self):
        lo = hi = self.k
        for a, c in self.m.items():
            l, h = (a.lo, a.hi) if c > 0 else (a.hi, a.lo)
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi

    def z(self):
        e = eng()
        for a in self.m:
            e.introduce(a)
        if self._z is None:
            self._z = zform(self.key())
        return self._z

    def atoms(self):
        return tuple(self.m)

    def tagged(self, enumcls):
        return SymInt(self.k, self.m, enumcls, self.digits)

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, SymBool):
            o = boolint(o)
        if isinstance(o, SymInt):
            m = dict(self.m)
            for a, c in o.m.items():
                m[a] = m.get(a, 0) + c
            return mkint(self.k + o.k, m)
        if is_int(o):
            return mkint(self.k + int(o), self.m)
        if isinstance(o, (float, SymFloat)):
            return to_float(self) + o
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return mkint(-self.k, {a: -c for a, c in self.m.items()})

    def __pos__(self):
        return mkint(self.k, self.m)

    def __sub__(self, o):
        if isinstance(o, SymBool):
            o = boolint(o)
        if isinstance(o, SymInt):
            m = dict(self.m)
            for a, c in o.m.items():
                m[a] = m.get(a, 0) - c
            return mkint(self.k - o.k, m)
        if is_int(o):
            return mkint(self.k - int(o), self.m)
        if isinstance(o, (float, SymFloat)):
            return to_float(self) - o
        return NotImplemented

    def __rsub__(self, o):
        if is_int(o):
            return mkint(int(o) - self.k, {a: -c for a, c in self.m.items()})
        if is_float(o):
            return o - to_float(self)
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, SymBool):
            o = boolint(o)
        if is_int(o):
            o = int(o)
            return mkint(self.k * o, {a: c * o for a, c in self.m.items()})
        if isinstance(o, SymInt):
            if not o.m:
                return self * o.k
            if not self.m:
                return o * self.k
            x, y = sorted((self, o), key=lambda s: s.key())

            def make():
                (al, ah), (bl, bh) = x.bounds(), y.bounds()
                lo = hi = None
                if None not in (al, ah, bl, bh):
                    ps = [al * bl, al * bh, ah * bl, ah * bh]
                    lo, hi = min(ps), max(ps)
                return Atom(x.z() * y.z(), lo, hi, deps=x.atoms() + y.atoms())

            return mkint(0, {atom(("mul", x.key(), y.key()), make): 1})
        if isinstance(o, (float, SymFloat)):
            return to_float(self) * o
        f = getattr(o, "__rmul__", None)
        if f is not None and not isinstance(o, (bytes, bytearray, str, list, tuple)):
            return NotImplemented
        if isinstance(o, (bytes, bytearray, str)):
            from . import seqs

            return seqs.repeat(o, self)
        if isinstance(o, (list, tuple)):
            return o * eng().concretize(self)
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        q, _ = divmod_(self, o)
        return q

    def __mod__(self, o):
        _, r = divmod_(self, o)
        return r

    def __rfloordiv__(self, o):
        return divmod_(o, self)[0] if is_int(o) else NotImplemented

    def __rmod__(self, o):
        return divmod_(o, self)[1] if is_int(o) else NotImplemented

    def __divmod__(self, o):
        return divmod_(self, o)

    def __rdivmod__(self, o):
        return divmod_(o, self)

    def __truediv__(self, o):
        return to_float(self) / o

    def __rtruediv__(self, o):
        return to_float(o) / self

    def __pow__(self, o, mod=None):
        if is_int(o) and mod is None and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return pow(eng().concretize(self), eng().concretize(o), mod)

    def __rpow__(self, o):
        return pow(o, eng().concretize(self))

    def __lshift__(self, o):
        return self * (1 << eng().concretize(o))

    def __rlshift__(self, o):
        return o << eng().concretize(self)

    def __rshift__(self, o):
        return self // (1 << eng().concretize(o))

    def __rrshift__(self, o):
        return o >> eng().concretize(self)

    def __and__(self, o):
        if isinstance(o, SymBool):
            o = boolint(o)
        if is_int(o):
            p = bit_parts(self)
            if p is not None and o >= 0:
                op, a, b = p
                return (a & o) ^ (b & o) if op == "xor" else (a & o) | (b & o)
            return _retag(self, o, _and_const(self, int(o)))
        if isinstance(o, SymInt):
            return _bitop("and", self, o)
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            o = boolint(o)
        if is_int(o):
            o2 = int(o)
            return _retag(self, o, self + o2 - _and_const(self, o2))
        if isinstance(o, SymInt):
            d = _disjoint(self, o)
            if d is not None:
                return d
            return _bitop("or", self, o)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if is_int(o):
            o2 = int(o)
            return _retag(self, o, self + o2 - 2 * _and_const(self, o2))
        if isinstance(o, SymInt):
            d = _disjoint(self, o)
            if d is not None:
                return d
            if self.key() == o.key():
                return 0
            return _bitop("xor", self, o)
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        return self if self >= 0 else -self

    def __round__(self, nd=None):
        if nd is None:
            return self
        return round(eng().concretize(self), nd)

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = boolint(o)
        if is_float(o):
            if o != o:
                return False
            if o in (float("inf"), float("-inf")):
                return (o > 0) == (op in ("__lt__", "__le__"))
            if o == int(o):
                o = int(o)
        if isinstance(o, (float, SymFloat)):
            return getattr(to_float(self), op)(o)
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        d = settle(self - o)
        if is_int(d):
            return {"__lt__": d < 0, "__le__": d <= 0, "__gt__": d > 0, "__ge__": d >= 0}[op]
        lo, hi = d.bounds()
        if op == "__lt__":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
            return snot(lin_cmp("ge", d))
        if op == "__le__":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
            return snot(lin_cmp("ge", d - 1))
        if op == "__gt__":
            if lo is not None and lo > 0:
                return True
            if hi is not None and hi <= 0:
                return False
            return lin_cmp("ge", d - 1)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        return lin_cmp("ge", d)

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __gt__(self, o):
        return self._cmp(o, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, "__ge__")

    def __eq__(self, o):
        if isinstance(o, SymBool):
            o = boolint(o)
        if isinstance(o, (float, SymFloat)):
            return to_float(self) == o
        if not isinstance(o, (int, SymInt)):
            return False
        if is_int(o) and o == 0:
            p = bit_parts(self)
            if p is not None:
                return p[1] == p[2] if p[0] == "xor" else sand(p[1] == 0, p[2] == 0)
        d = settle(self - o)
        if is_int(d):
            return d == 0
        lo, hi = d.bounds()
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        return lin_cmp("eq", d)

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        return hash(eng().concretize(self))

    def __index__(self):
        return eng().concretize(self)

    __int__ = __index__

    def __float__(self):
        return float(eng().concretize(self))

    def __repr__(self):
        return marker(self)

    __str__ = __repr__

    def __format__(self, spec):
        return marker(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- int API
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def value(self):
        if self.enumcls is None:
            raise AttributeError("value")
        return SymInt(self.k, self.m, None, self.digits)

    @property
    def _value_(self):
        return self.value

    @property
    def name(self):
        if self.enumcls is None:
            raise AttributeError("name")
        return self.member().name

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def member(self):
        """The enum member this is (forks over the members)."""
        cls = self.enumcls
        for mem in list(cls):
            if SymInt(self.k, self.m) == int(mem):
                return mem
        return cls(eng().concretize(self))

    def bit_length(self):
        n = 0
        x = abs(self)
        while x >= (1 << n):
            n += 1
        return n

    def is_integer(self):
        return True

    def conjugate(self):
        return self

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from . import seqs

        length = eng().concretize(length)
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if not signed and self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if self < lo or self > hi:
            raise OverflowError("int too big to convert")
        ds = digits_of(self, length)
        return seqs.from_elems(ds if byteorder == "little" else ds[::-1], "bytes")


MARK = {}


def marker(x):
    """Text standing for a symbolic value (recognised again by the struct model)."""
    k = f"\u27e6{x.key()}\u27e7"
    MARK[k] = x
    return k


def _retag(self, o, r):
    cls = self.enumcls
    if cls is not None and isinstance(r, (int, SymInt)):
        import enum

        if issubclass(cls, enum.Flag):
            return r.tagged(cls) if isinstance(r, SymInt) else cls(r)
    return r


def mkint(k, m, enumcls=None):
    m = {a: c for a, c in m.items() if c}
    if not m:
        return k
    return SymInt(k, m, enumcls)


def var(name, lo, hi):
    a = atom(("var", name, lo, hi), lambda: Atom(z3.Int(name), lo, hi))
    return mkint(0, {a: 1})


def zint(x):
    return z3.IntVal(int(x)) if is_int(x) else x.z()


def ikey(x):
    return (int(x), ()) if is_int(x) else x.key()


def bounds(x):
    return (x, x) if is_int(x) else x.bounds()


def divmod_(x, c):
    if isinstance(c, SymBool):
        c = boolint(c)
    if isinstance(c, (float, SymFloat)) or isinstance(x, (float, SymFloat)):
        raise Bounded("float floor division is not modelled")
    if not isinstance(c, (int, SymInt)):
        return NotImplemented, NotImplemented
    if isinstance(c, SymInt):
        if c == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if not c > 0:
            q, r = divmod_(-x, -c)
            return q, -r
        xk, ck = ikey(x), c.key()
        xa = x.atoms() if isinstance(x, SymInt) else ()
        deps = xa + c.atoms()
        qz, rz = z3.Int(f"q!{xk}!{ck}"), z3.Int(f"r!{xk}!{ck}")
        zx, zc = zint(x), c.z()
        qa = atom(("divs", xk, ck), lambda: Atom(
            qz, None, None, [z3.Implies(zc > 0, z3.And(zx == zc * qz + rz, rz >= 0, rz < zc))], deps))
        ra = atom(("mods", xk, ck), lambda: Atom(rz, None, None, [], (*deps, qa)))
        return mkint(0, {qa: 1}), mkint(0, {ra: 1})
    c = int(c)
    if c == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if c < 0:
        q, r = divmod_(-x, -c)
        return q, -r
    if is_int(x):
        return divmod(x, c)
    if c == 1:
        return mkint(x.k, x.m), 0
    # pull out the part divisible by c
    qm, rm = {}, {}
    for a, co in x.m.items():
        q, r = divmod(co, c)
        if r == 0:
            qm[a] = q
        else:
            rm[a] = co
    qk, rk = divmod(x.k, c)
    rest = mkint(rk, rm)
    base = mkint(qk, qm)
    if is_int(rest):
        return base, rest
    lo, hi = rest.bounds()
    if lo is not None and hi is not None and lo // c == hi // c:
        q = lo // c
        return base + q, rest - q * c
    # if the rest has digits structure sum(b_i*256^i) and c = 256^n, split exactly
    g = _split_digits(rest, c)
    if g is not None:
        return base + g[0], g[1]
    k = rest.key()
    dz, mz = z3.Int(f"d!{k}!{c}"), z3.Int(f"m!{k}!{c}")
    deps = rest.atoms()
    zr = rest.z()
    qlo = None if lo is None else lo // c
    qhi = None if hi is None else hi // c
    da = atom(("div", k, c), lambda: Atom(
        dz, qlo, qhi, [zr == c * dz + mz, mz >= 0, mz < c], deps))
    ma = atom(("mod", k, c), lambda: Atom(mz, 0, c - 1, [], (*deps, da)))
    return base + mkint(0, {da: 1}), mkint(0, {ma: 1})


def _split_digits(x, c):
    """x = high*c + low with 0 <= low < c, read off the coefficients."""
    low_m, high_m = {}, {}
    lo = x.k
    if lo < 0:
        return None
    hi_sum = x.k
    for a, co in x.m.items():
        if co % c == 0:
            high_m[a] = co // c
        else:
            if a.lo is None or a.hi is None or a.lo < 0 or co < 0:
                return None
            low_m[a] = co
            hi_sum += co * a.hi
    if hi_sum >= c:
        return None
    return mkint(0, high_m), mkint(x.k, low_m)


def _and_const(x, c):
    if c == 0:
        return 0
    if c < 0:
        return x - _and_const(x, ~c)
    r = 0
    bit = 0
    while c >> bit:
        if (c >> bit) & 1:
            n = 0
            while (c >> (bit + n)) & 1:
                n += 1
            r = r + ((x // (1 << bit)) % (1 << n)) * (1 << bit)
            bit += n
        else:
            bit += 1
    return r


def _disjoint(a, b):
    for x, y in ((a, b), (b, a)):
        lo, hi = y.bounds()
        if lo is None or hi is None or lo < 0:
            continue
        p = 1 << hi.bit_length()
        if x.k % p == 0 and all(c % p == 0 for c in x.m.values()):
            return x + y
    return None


def _bitop(op, a, b):
    la, ha = a.bounds()
    lb, hb = b.bounds()
    if None in (la, ha, lb, hb) or la < 0 or lb < 0:
        raise Bounded("bit operation on unbounded symbolic integers")
    w = max(ha.bit_length(), hb.bit_length(), 1)
    x, y = z3.Int2BV(a.z(), w), z3.Int2BV(b.z(), w)
    e = {"and": x & y, "or": x | y, "xor": x ^ y}[op]
    at = atom((op, a.key(), b.key()),
              lambda: Atom(z3.BV2Int(e), 0, (1 << w) - 1, deps=a.atoms() + b.atoms()))
    if op != "and":
        BITS[at] = (op, a, b)
    return mkint(0, {at: 1})


BITS: dict = {}  # atom -> (operation, operands)


def bit_parts(x):
    """(operation, operands) of a value made by a bit operation."""
    if x.k == 0 and len(x.m) == 1:
        (a, c), = x.m.items()
        if c == 1:
            return BITS.get(a)
    return None


def digits_of(v, w):
    """The w little-endian bytes of v modulo 2**(8w) (two's complement)."""
    if isinstance(v, SymBool):
        v = boolint(v)
    if is_int(v):
        return [(int(v) >> (8 * i)) & 255 for i in range(w)]
    if v.digits is not None:
        ds, signed = v.digits
        if len(ds) == w or (len(ds) > w) or not signed:
            return list(ds[:w]) + [0] * (w - len(ds))
    # already a sum of byte-like atoms at powers of 256
    if 0 <= v.k < (1 << (8 * w)) and v.m:
        slots = {}
        for a, c in v.m.items():
            if a.lo is None or a.hi is None or a.lo < 0 or a.hi > 255 or c <= 0:
                break
            i = (c.bit_length() - 1) // 8
            if c != 1 << (8 * i) or i in slots or (v.k >> (8 * i)) & 255:
                break
            slots[i] = a
        else:
            return [mkint(0, {slots[i]: 1}) if i in slots else (v.k >> (8 * i)) & 255 for i in range(w)]
    k = v.key()
    got = _DIG.get((k, w))
    if got is not None:
        return list(got)
    lo, hi = v.bounds()
    inrange = lo is not None and hi is not None and lo >= 0 and hi < (1 << (8 * w))
    names = [z3.Int(f"y!{k}!{w}!{i}") for i in range(w)]
    total = z3.Sum(*[names[i] * (1 << (8 * i)) for i in range(w)])
    zv = v.z()
    if inrange:
        ax = [zv == total]
    else:
        over = z3.Int(f"yo!{k}!{w}")
        ax = [zv == total + over * (1 << (8 * w))]
    ax += [z3.And(n >= 0, n <= 255) for n in names]
    group = atom(("digits", k, w), lambda: Atom(z3.BoolVal(True), None, None, ax, v.atoms()))
    out = []
    for i in range(w):
        at = atom(("digit", k, w, i), lambda i=i: Atom(
            names[i], 0, 255, [], (group,), tag=(SymInt(v.k, v.m), w, i)))
        out.append(mkint(0, {at: 1}))
    _DIG[(k, w)] = tuple(out)
    return out


_DIG: dict = {}


def from_digits(ds, signed=False):
    """Integer from little-endian bytes."""
    w = len(ds)
    if all(is_int(d) for d in ds):
        return int.from_bytes(bytes(ds), "little", signed=signed)
    # the complete digits of one value?
    tags = [next(iter(d.m)).tag if isinstance(d, SymInt) and len(d.m) == 1 and d.k == 0 else None for d in ds]
    t0 = tags[0]
    if t0 is not None and all(
        t is not None and t[1] == w and t[2] == i and t[0].key() == t0[0].key() and d.m[next(iter(d.m))] == 1
        for i, (t, d) in enumerate(zip(tags, ds))
    ):
        v = t0[0]
        lo, hi = v.bounds()
        a, b = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
        if lo is not None and hi is not None and a <= lo and hi <= b:
            return SymInt(v.k, v.m, None, (tuple(ds), signed))
        if eng().decide(sand(v >= a, v <= b)) is True:
            return SymInt(v.k, v.m, None, (tuple(ds), signed))
    s = 0
    for i, d in enumerate(ds):
        s = s + d * (1 << (8 * i))
    if signed:
        s = s - boolint(ds[-1] >= 128) * (1 << (8 * w))
    if isinstance(s, SymInt):
        s = SymInt(s.k, s.m, None, (tuple(ds), signed))
    return s


# --------------------------------------------------------------------------- float


PROBES = [bytes.fromhex(x) for x in (
    "0000000000000080",  # -0.0
    "0000000000000000",
    "9a9999999999b93f",  # 0.1
    "9a99999999c9e340",  # 40524.8
    "000000000000e0bf",  # -0.5
    "555555555555e53f",  # 2/3
    "0100000000000000",  # the smallest
    "ffffffffffffef7f",  # the largest
    "000000000000f07f",  # infinity
    "000000000000f0ff",
    "010000000000f87f",  # NaN with a payload
)]


class SymFloat:
    """A float64: either a bit pattern (8 bytes) or a real with rounding-error envelope."""

    __slots__ = ("bits", "r", "grid", "ratio")
    __class__ = property(lambda self: float)

    def __init__(self, bits=None, r=None, grid=None, ratio=None):
        self.bits = bits
        self.r = r
        self.grid = grid  # (n, s): the value is exactly n / 2**s
        self.ratio = ratio  # (n, d): the value is n / d, rounded once

    @staticmethod
    def make_ratio(n, d):
        """The correctly rounded n / d."""
        if is_int(n):
            return n / d
        lo, hi = n.bounds()
        if lo is None or hi is None:
            return None
        big = max(abs(lo), abs(hi))
        if d & (d - 1) == 0 and big < 1 << 53:
            return SymFloat.on_grid(n, d.bit_length() - 1)
        return SymFloat(ratio=(n, d))

    def _scaled(self, p, q):
        """self * p / q in one rounding, for an exact self and an exact p / q."""
        if self.grid is None or p == 0:
            return None
        n, s = self.grid
        if q < 0:
            p, q = -p, -q
        return SymFloat.make_ratio(n * p, q * 2**s)

    def _exact_ratio(self):
        """(n, d) when comparisons and roundings of the float and of n / d agree."""
        if self.grid is not None:
            return self.grid[0], 2**self.grid[1]
        if self.ratio is not None:
            n, d = self.ratio
            lo, hi = n.bounds()
            if max(abs(lo), abs(hi)) < 1 << 50:
                return n, d
        return None

    @staticmethod
    def on_grid(n, s):
        """n / 2**s, exact when |n| < 2**53."""
        if is_int(n):
            return n / 2**s
        return SymFloat(r=z3.ToReal(n.z()) / 2**s, grid=(n, s))

    def _grid_op(self, o, sign):
        if self.grid is None:
            return None
        n, s = self.grid
        if isinstance(o, SymFloat) and o.grid is not None and o.grid[1] == s:
            m = n + o.grid[0] if sign > 0 else n - o.grid[0]
        elif (is_int(o) or is_float(o)) and float(o) * 2**s == int(float(o) * 2**s):
            m = n + sign * int(float(o) * 2**s)
        else:
            return None
        lo, hi = bounds(m)
        if lo is None or hi is None or lo <= -(2**53) or hi >= 2**53:
            return None
        return SymFloat.on_grid(m, s)

    def real_(self):
        if self.r is None:
            if self.ratio is not None:
                self.r = self._round(z3.ToReal(self.ratio[0].z()) / self.ratio[1]).r
                return self.r
            return to_float(self.probe()).real_()
        return self.r

    def probe(self):
        """Arithmetic on any bit pattern is not encoded: the paths for a few telling values, then a bound."""
        import struct

        for v in PROBES:
            if all(ikey(a) == b for a, b in zip(self.bits, v)) or bool(sand(*[mk_eq(a, b) for a, b in zip(self.bits, v)])):
                return struct.unpack("<d", v)[0]
        raise Bounded("arithmetic on a float given by its bit pattern is not modelled")

    def _key(self):
        """An integer that orders the non-NaN bit patterns as the floats are ordered."""
        b = self.bits
        m = b[7] % 128
        for x in b[6::-1]:
            m = m * 256 + x
        return m, b[7] >= 128

    @staticmethod
    def _round(exact, exact_when=None):
        """A float64 result of an operation with real value `exact` (relative error <= 2**-53)."""
        e = eng()
        r = z3.Real(e.fresh("fl"))
        u = z3.Q(1, 2**53)
        e.add(z3.If(exact >= 0,
                    z3.And(r >= exact * (1 - u), r <= exact * (1 + u)),
                    z3.And(r <= exact * (1 - u), r >= exact * (1 + u))))
        if exact_when is not None:
            e.add(z3.Implies(exact_when, r == exact))
        if e.pos >= len(e.trace):
            e.model = None
        return SymFloat(r=r)

    def _other(self, o):
        if isinstance(o, (int, SymInt)):
            return to_float(o).real_()
        if is_float(o):
            return to_float(o).real_()
        if isinstance(o, SymFloat):
            return o.real_()
        return None

    def __add__(self, o):
        if self.bits is not None:
            return self.probe() + o
        g = self._grid_op(o, 1)
        if g is not None:
            return g
        x = self._other(o)
        return NotImplemented if x is None else self._round(self.real_() + x)

    __radd__ = __add__

    def __sub__(self, o):
        if self.bits is not None:
            return self.probe() - o
        g = self._grid_op(o, -1)
        if g is not None:
            return g
        x = self._other(o)
        return NotImplemented if x is None else self._round(self.real_() - x)

    def __rsub__(self, o):
        if self.bits is not None:
            return o - self.probe()
        x = self._other(o)
        return NotImplemented if x is None else self._round(x - self.real_())

    def __mul__(self, o):
        if self.bits is not None:
            return self.probe() * o
        if is_int(o) or is_float(o) and o == o and abs(o) < 2.0**60:
            g = self._scaled(*o.as_integer_ratio())
            if g is not None:
                return g
        x = self._other(o)
        return NotImplemented if x is None else self._round(self.real_() * x)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if self.bits is not None:
            return self.probe() / o
        if (is_int(o) or is_float(o)) and o != 0:
            if o == o and abs(o) < 2.0**60:
                p, q = o.as_integer_ratio()
                g = self._scaled(q, p)
                if g is not None:
                    return g
            c = z3.RealVal(str(o)) if is_int(o) else z3.RealVal(_exact(o))
            q = self.real_() / c
            return self._round(q, z3.And(z3.IsInt(q * 8), q < 2**40, q > -(2**40)))
        x = self._other(o)
        if x is None:
            return NotImplemented
        if bool(mkbool(x == 0)):
            raise ZeroDivisionError("float division by zero")
        return self._round(self.real_() / x)

    def __rtruediv__(self, o):
        return to_float(o) / self

    def __neg__(self):
        if self.bits is not None:
            return SymFloat(bits=[*self.bits[:7], (self.bits[7] + 128) % 256])
        if self.grid is not None:
            return SymFloat.on_grid(-self.grid[0], self.grid[1])
        if self.ratio is not None:
            return SymFloat(ratio=(-self.ratio[0], self.ratio[1]))
        return SymFloat(r=-self.real_())

    def _parts(self, o):
        """(numerator, grid, divisor on the grid) of self and a positive divisor, both exact."""
        if isinstance(o, SymInt):
            o = eng().concretize(o)
        if isinstance(o, SymFloat) or not (is_int(o) or is_float(o)):
            raise Bounded("remainder by a symbolic float")
        if o == 0:
            raise ZeroDivisionError("float modulo")
        if self.grid is None or o < 0 or o != o or o > 2.0**60:
            raise Bounded("remainder of a computed float")
        n, s = self.grid
        p, q = o.as_integer_ratio()
        if q > 1 << 40:
            raise Bounded("remainder by a fine float")
        e = max(s, q.bit_length() - 1)
        n, d = n * (1 << (e - s)), p * (1 << e) // q
        lo, hi = n.bounds()
        if lo is None or hi is None or max(-lo, hi) >= 1 << 53:
            raise Bounded("remainder of a wide float")
        return n, e, d

    def __mod__(self, o):
        if self.bits is not None:
            return self.probe() % o
        n, e, d = self._parts(o)
        return SymFloat.on_grid(n % d, e)

    def __floordiv__(self, o):
        if self.bits is not None:
            return self.probe() // o
        n, _e, d = self._parts(o)
        return SymFloat.on_grid(n // d, 0)

    def __divmod__(self, o):
        return self // o, self % o

    def is_integer(self):
        if self.bits is not None:
            return self.probe().is_integer()
        n, _e, d = self._parts(1)
        return n % d == 0

    def as_integer_ratio(self):
        raise Bounded("as_integer_ratio of a symbolic float")

    def __abs__(self):
        if self.bits is not None:
            return SymFloat(bits=[*self.bits[:7], self.bits[7] % 128])
        return self if bool(self >= 0) else -self

    def _cmp(self, o, f):
        if not isinstance(o, (int, float, SymInt, SymFloat)):
            return NotImplemented
        if is_float(o) and o != o:
            return False
        if self.bits is not None:
            if bool(self._nan()):
                return False
            if is_int(o) or is_float(o):
                import struct

                if is_int(o) and int(float(o)) != o:
                    raise Bounded("comparison of a bit-pattern float with a wide integer")
                o = SymFloat(bits=list(struct.pack("<d", o)))
            if isinstance(o, SymFloat) and o.bits is not None:
                if bool(o._nan()):
                    return False
                (m, ms), (n, ns) = self._key(), o._key()
                m = -m if bool(ms) else m
                return f(m, -n if bool(ns) else n)
            return f(self.probe(), o)
        if is_float(o) and o in (float("inf"), float("-inf")):
            return f(0.0, o)
        if self.grid is not None:
            d = self._grid_op(o, -1)
            if isinstance(d, SymFloat) and d.grid is not None:
                return f(d.grid[0], 0)
            if is_float(d):
                return f(d, 0.0)
        if is_int(o) or is_float(o) and float(o) * 2 == int(float(o) * 2):
            x = self._exact_ratio()
            if x is not None:
                return f(x[0] * 2, int(float(o) * 2) * x[1])
            if self.ratio is not None and o == 0:
                return f(self.ratio[0], 0)
        return mkbool(f(self.real_(), self._other(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _nan(self):
        b = self.bits
        expo = sand(b[7] % 128 == 127, b[6] >= 240)
        zero = sand(b[6] % 16 == 0, *[x == 0 for x in b[:6]])
        return sand(expo, snot(zero))

    def _zero(self):
        b = self.bits
        return sand(b[7] % 128 == 0, *[x == 0 for x in b[:7]])

    def __eq__(self, o):
        if (is_int(o) or is_float(o)) and self.bits is not None:
            import struct

            try:
                o = SymFloat(bits=list(struct.pack("<d", o)))
            except OverflowError:
                return False
        if isinstance(o, SymFloat) and self.bits is not None and o.bits is not None:
            if all(ikey(a) == ikey(b) for a, b in zip(self.bits, o.bits)):
                return snot(self._nan())
            same = sand(*[mk_eq(a, b) for a, b in zip(self.bits, o.bits)])
            return sor(sand(same, snot(self._nan())), sand(self._zero(), o._zero()))
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return snot(self.__eq__(o))

    __hash__ = None

    def __bool__(self):
        return bool(self != 0.0)

    def __round__(self, nd=None):
        if self.bits is not None:
            return round(self.probe()) if nd is None else round(self.probe(), nd)
        if nd is not None:
            nd = eng().concretize(nd) if isinstance(nd, SymInt) else nd
            if self.grid is None or not 0 <= nd <= 12:
                raise Bounded("rounding a computed float to digits")
            n = round_ratio(self.grid[0] * 10**nd, 2**self.grid[1])
            r = SymFloat.make_ratio(n, 10**nd)
            if r is None:
                raise Bounded("rounding a wide float to digits")
            return r
        x = self._exact_ratio()
        if x is not None:
            return round_ratio(*x)
        if self.ratio is not None:
            return round_about(*self.ratio)
        r = self.real_()
        n = real_floor(r + z3.Q(1, 2))
        # a tie rounds to even
        tie = mkbool(r + z3.Q(1, 2) == z3.ToReal(n.z()))
        if bool(tie):
            return n if bool(n % 2 == 0) else n - 1
        return n

    def __floor__(self):
        if self.bits is not None:
            import math

            return math.floor(self.probe())
        x = self._exact_ratio()
        if x is not None:
            return x[0] // x[1]
        if self.ratio is not None:
            return floor_about(*self.ratio)
        return real_floor(self.real_())

    def __ceil__(self):
        if self.bits is not None:
            import math

            return math.ceil(self.probe())
        x = self._exact_ratio()
        if x is not None:
            return -(-x[0] // x[1])
        if self.ratio is not None:
            return -floor_about(-self.ratio[0], self.ratio[1])
        return -real_floor(-self.real_())

    def __trunc__(self):
        if self.bits is not None:
            return int(self.probe())
        return self.__floor__() if bool(self >= 0) else self.__ceil__()

    def __repr__(self):
        return "<symbolic float>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbolic float>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        if self.bits is not None:
            return self.probe().is_integer()
        return mkbool(z3.IsInt(self.real_()))


def round_ratio(n, d):
    """n / d rounded half to even."""
    if d == 1:
        return n
    t = n * 2 + d
    q = t // (2 * d)
    tie = sand(t % (2 * d) == 0, q % 2 == 1)
    if is_int(q):
        return q - int(bool(tie))
    v = q - boolint(tie)
    k = (ikey(n), d)
    lo, hi = n.bounds()
    z = z3.Int(f"round!{k}")
    rnd = lambda x: round(Fraction(x, d))  # noqa: E731
    return mkint(0, {atom(("round", k), lambda: Atom(
        z, None if lo is None else rnd(lo), None if hi is None else rnd(hi), [z == v.z()], v.atoms(), "rounded")): 1})


def round_about(n, d):
    """An integer nearest to the float64 nearest to n / d (over-approximated)."""
    k = (ikey(n), d)
    lo, hi = n.bounds()
    big = max(abs(lo), abs(hi))
    err = big // 2**53 + d // 2 + 2  # in units of 1 / d
    z = z3.Int(f"rabout!{k}")
    zn = n.z()
    ax = [z * d - zn <= err, zn - z * d <= err, z3.Implies(zn >= 0, z >= 0), z3.Implies(zn <= 0, z <= 0)]
    slack = err // d + 1
    return mkint(0, {atom(("rabout", k), lambda: Atom(z, lo // d - slack, hi // d + slack, ax, n.atoms(), "rounded")): 1})


def floor_about(n, d):
    """Floor of the float64 nearest to n / d: that of n / d, or the next integer just below it."""
    lo, hi = n.bounds()
    big = max(abs(lo), abs(hi))
    if big // d >= 2**52:
        return round_about(n, d)
    err = big // 2**53 + 1
    q = n // d
    if is_int(q):
        return q
    k = (ikey(n), d)
    z = z3.Int(f"flabout!{k}")
    qz = q.z()
    ax = [z >= qz, z <= qz + 1, z3.Implies(z > qz, (qz + 1) * d - n.z() <= err)]
    return mkint(0, {atom(("flabout", k), lambda: Atom(z, lo // d, hi // d + 1, ax, n.atoms() + q.atoms(), "floored")): 1})


def mk_eq(a, b):
    r = a == b
    return r


def real_floor(r):
    e = eng()
    n = var(e.fresh("floor"), None, None)
    e.add(z3.And(z3.ToReal(n.z()) <= r, r < z3.ToReal(n.z()) + 1))
    if e.pos >= len(e.trace):
        e.model = None
    return n


def _exact(f):
    n, d = float(f).as_integer_ratio()
    return f"{n}/{d}"


def to_float(x):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymBool):
        x = boolint(x)
    if isinstance(x, SymInt):
        lo, hi = x.bounds()
        r = z3.ToReal(x.z())
        if lo is not None and hi is not None and -(2**53) <= lo and hi <= 2**53:
            return SymFloat(r=r, grid=(x, 0))
        return SymFloat._round(r, z3.And(r <= 2**53, r >= -(2**53)))
    f = float(x)
    if f != f or f in (float("inf"), float("-inf")):
        raise Bounded("infinite float")
    return SymFloat(r=z3.RealVal(_exact(f)))


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymFloat))
