"""Ordering of symbolic integer bounds (linear forms over sizes >= 1)."""
from fractions import Fraction
from math import gcd

from .cas import E, Expr, const


class Undecidable(Exception):
    """Two symbolic bounds could not be ordered (the caller falls back to a
    concrete instantiation of the sizes)."""


_CACHE = {}


def _flush(name):
    f = getattr(list, name, None)

    def g(self, *a):
        _CACHE.clear()
        return f(self, *a)
    return g


class _Facts(list):
    """list that invalidates the ordering cache when it changes"""
    append = _flush("append")
    extend = _flush("extend")
    pop = _flush("pop")
    remove = _flush("remove")
    clear = _flush("clear")
    __delitem__ = _flush("__delitem__")
    __setitem__ = _flush("__setitem__")
    __iadd__ = _flush("__iadd__")


class _LBs(dict):
    def __setitem__(self, k, v):
        if self.get(k) != v:
            _CACHE.clear()
            dict.__setitem__(self, k, v)

    def pop(self, *a):
        _CACHE.clear()
        return dict.pop(self, *a)


FACTS = _Facts()  # Exprs known to be >= 0 in the current loop context


def _lb_atom(a):
    if a.kind in ("idx", "bv", "pos", "zero"):
        return Fraction(0)
    if a.nonneg and a.integer and a.kind == "sym":
        return SYM_LB.get(a.args[0], Fraction(1))
    if a.kind == "ref" and a.args[0] in REF_LB:
        return Fraction(REF_LB[a.args[0]])
    if a.nonneg:
        return Fraction(0)
    return None


REF_LB = _LBs()
SYM_LB = _LBs()


def lo_bound(e):
    tot = Fraction(0)
    for m, c in e.t.items():
        if not m:
            tot += c
            continue
        if c < 0:
            return None
        v = c
        for a, x in m:
            l = _lb_atom(a)
            if l is None or not isinstance(x, int) or x < 0:
                return None
            v *= l ** x
        tot += v
    return tot


def lb(e):
    best = lo_bound(e)
    for f in FACTS:
        v = lo_bound(e - f)
        if v is not None and (best is None or v > best):
            best = v
    if best is None and len(FACTS) > 1:
        for i, f in enumerate(FACTS):
            for g in FACTS[i:]:
                v = lo_bound(e - f - g)
                if v is not None and (best is None or v > best):
                    best = v
    return best


def le(a, b):
    """a <= b ?  (integers)"""
    if a is b:
        return True
    k = (a, b)
    r = _CACHE.get(k)
    if r is None:
        r = _CACHE[k] = _le(a, b)
    if r == 2:
        note_split(a, b)
        raise Undecidable("%s <= %s" % (a, b))
    return r


def _le(a, b):
    d = E(b) - E(a)
    if d.is_const:
        return d.value >= 0
    l = lb(d)
    if l is not None and l >= 0:
        return True
    l = lb(-d)
    if l is not None and l >= 1:
        return False
    return 2


def lt(a, b):
    if a is b:
        return False
    k = (a, b, 1)
    r = _CACHE.get(k)
    if r is None:
        r = _CACHE[k] = _le(E(a) + 1, b)
    if r == 2:
        note_split(a, b)
        raise Undecidable("%s < %s" % (a, b))
    return r


# size symbols under an integer division in a comparison that could not be decided, with the divisor: the
# analysis is then repeated for every residue of these sizes (core.main)
SPLITS = {}


def note_split(*es):
    for e in es:
        for a in E(e).all_atoms():
            if a.kind != "fn" or a.args[0] != "floor":
                continue
            for m, c in a.args[1].t.items():
                for s, x in m:
                    if s.kind == "sym" and s.integer and s.nonneg:
                        k = Fraction(c).denominator
                        o = SPLITS.get(s.args[0], 1)
                        SPLITS[s.args[0]] = o * k // gcd(o, k)


def try_le(a, b):
    try:
        return le(a, b)
    except Undecidable:
        return None


def bmax(a, b):
    a, b = E(a), E(b)
    if try_le(b, a):
        return a
    return b if le(a, b) else a


def bmin(a, b):
    a, b = E(a), E(b)
    if try_le(b, a):
        return b
    return a if le(a, b) else b
