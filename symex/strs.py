"""Character-wise functions of texts and bytes: predicates, mappings, splitting at single characters."""
import unicodedata

from . import core, seqs
from .core import Bounded, eng, is_int, mkbool, mkint, sand, snot, sor
from .core import Atom, atom, ikey

SHORT = 5  # elements up to which content is taken apart once something in it matters

_sets: dict = {}


def domain(s):
    """Every value an element can have (single-byte encodings and bytes), or None."""
    out = set()
    for g in s.segs:
        b = g.base
        if isinstance(b, seqs.LitBase):
            out.update(map(ord, b.val) if b.text else b.val)
        elif isinstance(b, seqs.MapBase):
            out.update(c for c in b.codec.dec if c is not None)
        elif isinstance(b, seqs.ArrBase) and b.hi is not None and b.hi <= 0x2122:
            out.update(range(b.hi + 1))
        elif not s.text:
            return frozenset(range(256))
        elif isinstance(b, seqs.TermBase) and all(is_int(e) or (core.bounds(e)[1] or 1 << 30) <= 0x2122 for e in b.elems):
            out.update(range(0x2123))
        else:
            return None
    return frozenset(out)


def chars_where(name, test, s):
    """The element values in the sequence's domain for which test(one-element string) holds."""
    d = domain(s)
    k = (name, s.text, d)
    if k not in _sets:
        every = sorted(d) if d is not None else range(0x110000)
        _sets[k] = frozenset(v for v in every if test(chr(v) if s.text else bytes([v])))
    return _sets[k]


def member(vals):
    return seqs._in_vals(vals)


def outside(vals):
    p = seqs._in_vals(vals)
    return lambda v: snot(p(v))


def none_of(s, vals):
    return seqs.all_pred(s, outside(vals)) if vals else True


def all_of(s, vals):
    return seqs.all_pred(s, member(vals))


def short(s, why):
    """The elements of a sequence that must be taken apart."""
    n = s._len
    if not is_int(n):
        if not bool(n <= SHORT):
            raise Bounded(f"{why}: more than {SHORT} elements")
        for k in range(SHORT + 1):
            if bool(n == k):
                n = k
                break
    return [s.at(i) for i in range(n)]


def build(elems, s):
    return seqs.from_elems(elems, "str" if s.text else "bytes")


# --------------------------------------------------------------------------- predicates

ALL = {"isprintable", "isspace", "isalpha", "isalnum", "isdigit", "isdecimal", "isnumeric"}


def predicate(s, name):
    vals = chars_where(name, lambda x: getattr(x, name)(), s)
    r = all_of(s, vals)
    empty = s._len == 0
    return sor(empty, r) if name == "isprintable" else sand(snot(empty), r)


def is_case(s, name):
    """isupper, islower: some cased element, and all cased ones of that case."""
    cased = chars_where("cased", lambda x: x.lower() != x or x.upper() != x, s)
    wrong = chars_where("not" + name, lambda x: (x.lower() != x or x.upper() != x) and not getattr(x, name)(), s)
    return sand(snot(none_of(s, cased)), none_of(s, wrong))


# --------------------------------------------------------------------------- mappings


def mapped(s, table, why):
    """The sequence with every element v replaced by the string (or bytes) table[v], if there is one."""
    table = {v: r for v, r in table.items() if r != (chr(v) if s.text else bytes([v]))}
    if bool(none_of(s, frozenset(table))):
        return s
    one = {v: (ord(r) if s.text else r[0]) for v, r in table.items() if len(r) == 1}
    many: dict = {}
    for v, r in table.items():
        if len(r) != 1:
            many.setdefault(r, set()).add(v)
    keys, inone = frozenset(table), frozenset(one)
    out = []
    for x in short(s, why):
        if is_int(x):
            out.extend(([ord(c) for c in table[x]] if s.text else list(table[x])) if x in table else [x])
        elif not bool(member(keys)(x)):
            out.append(x)
        elif one and bool(member(inone)(x)):
            out.append(looked_up(x, one))
        else:
            for r, vs in list(many.items())[:12]:
                if bool(member(frozenset(vs))(x)):
                    out.extend(map(ord, r) if s.text else r)
                    break
            else:
                raise Bounded(f"{why}: too many replacements")
    return build(out, s)


def looked_up(x, one):
    key = tuple(sorted(one.items()))

    def make():
        return Atom(seqs._piecewise(x.z(), key), min(one.values()), max(one.values()), [], x.atoms())

    return mkint(0, {atom(("lookup", key, ikey(x)), make): 1})


def case_mapped(s, name):
    d = domain(s)
    every = sorted(d) if d is not None else range(0x110000)
    key = ("map", name, s.text, d)
    if key not in _sets:
        one = (lambda v: chr(v)) if s.text else (lambda v: bytes([v]))
        _sets[key] = {v: r for v in every if (r := getattr(one(v), name)()) != one(v)}
    return mapped(s, _sets[key], name)


def translate(s, table, delete=b""):
    if not s.text:
        t = {} if table is None else {v: bytes([table[v]]) for v in range(256) if table[v] != v}
        t.update({v: b"" for v in delete})
        return mapped(s, t, "translate")
    out = {}
    d = domain(s)
    try:
        keys = list(table)
        if not isinstance(table, dict):
            keys = range(len(keys))
    except TypeError:
        keys = sorted(d) if d is not None else range(0x110000)
    for k in keys:
        v = table[k]
        out[k] = "" if v is None else chr(v) if isinstance(v, int) else v
    return mapped(s, out, "translate")


# --------------------------------------------------------------------------- splitting

STR_BREAKS = frozenset(c for c in range(0x2100) if len(("a" + chr(c) + "b").splitlines()) == 2)
BYTE_BREAKS = frozenset({10, 13})


def splitlines(s, keepends=False):
    breaks = STR_BREAKS if s.text else BYTE_BREAKS
    if bool(s._len == 0):
        return []
    if bool(none_of(s, breaks)):
        return [s]
    es = short(s, "splitlines")
    out, cur, i = [], [], 0
    while i < len(es):
        x = es[i]
        if not bool(member(breaks)(x)):
            cur.append(x)
            i += 1
            continue
        end = [x]
        if i + 1 < len(es) and bool(x == 13) and bool(es[i + 1] == 10):
            end.append(es[i + 1])
        i += len(end)
        out.append(build(cur + end if keepends else cur, s))
        cur = []
    if cur:
        out.append(build(cur, s))
    return out


def words(s):
    """split() without a separator."""
    space = chars_where("isspace", lambda x: x.isspace(), s)
    if bool(s._len == 0):
        return []
    if bool(none_of(s, space)):
        return [s]
    out, cur = [], []
    for x in short(s, "split"):
        if not bool(member(space)(x)):
            cur.append(x)
        elif cur:
            out.append(build(cur, s))
            cur = []
    if cur:
        out.append(build(cur, s))
    return out


# --------------------------------------------------------------------------- the rest


def pinned(s):
    """A concrete value of a short sequence: a few values are tried, the others are reported as not explored."""
    if not seqs.is_symseq(s):
        return s
    return build([eng().concretize(x, 2) for x in short(s, "native function")], s)


def pinned_value(x):
    if type(x) is core.SymBool:
        return bool(x)
    if type(x) is core.SymInt:
        return eng().concretize(x)
    if type(x) in (seqs.SymBytes, seqs.SymStr):
        return pinned(x)
    if type(x) is seqs.SymByteArray:
        return bytearray(pinned(seqs.wrap(x.seq)))
    if type(x) in (tuple, list):
        return type(x)(map(pinned_value, x))
    raise Bounded(f"{type(x).__name__} in a native function")


def method(s, name):
    def call(*a, **k):
        a = [pinned_value(x) if core_symbolic(x) else x for x in a]
        return getattr(pinned(s), name)(*a, **k)

    return call


def core_symbolic(x):
    return type(x) in (core.SymBool, core.SymInt, seqs.SymBytes, seqs.SymStr, seqs.SymByteArray) or (
        type(x) in (tuple, list) and any(map(core_symbolic, x)))


def normalize(form, s):
    """unicodedata.normalize: unchanged as long as no element is touched by itself or can combine with another."""
    if not seqs.is_symseq(s):
        return unicodedata.normalize(form, s)
    # characters that stay as they are and neither combine with a neighbour nor are combined
    live = chars_where("normalize" + form, lambda x: unicodedata.normalize(form, x) != x or unicodedata.combining(x) != 0
                       or not unicodedata.is_normalized(form, x) or ord(x) >= 0x1100 or 0x300 <= ord(x) < 0x370, s)
    ok = frozenset(v for v in (0x20AC, 0x2122, 0x2020, 0x2021, 0x2022, 0x2026, 0x2030, 0x2039, 0x203A, 0x2013, 0x2014,
                               0x2018, 0x2019, 0x201A, 0x201C, 0x201D, 0x201E) if unicodedata.normalize(form, chr(v)) == chr(v))
    live -= ok
    if bool(none_of(s, live)):
        return s
    out = []
    for x in short(s, "normalize"):
        out.append(x if not is_int(x) and not bool(member(live)(x)) else eng().concretize(x, 2))
    if all(map(is_int, out)):
        return unicodedata.normalize(form, "".join(map(chr, out)))
    # the others are no combining characters: what is touched is normalised by itself
    parts = []
    for x in out:
        parts.extend(map(ord, unicodedata.normalize(form, chr(x))) if is_int(x) else [x])
    return build(parts, s)
