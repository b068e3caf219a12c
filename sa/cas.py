"""Value domain: exact multivariate (Laurent) polynomials over interned atoms.

An abstract scalar is an `Expr` in canonical form, so two program expressions
that differ only by reordering, re-association, factoring, temporaries or helper
functions have the same abstract value (global value numbering).  No solver.
"""
from fractions import Fraction
from math import gcd

_ATOMS = {}
_SIMPLE = {}


class Atom:
    __slots__ = ("id", "kind", "args", "real", "integer", "nonneg")

    def __repr__(self):
        return atom_str(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk_atom(kind, args, integer=False, nonneg=False, real=True):
    key = (kind, args)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ATOMS)
        a.kind = kind
        a.args = args
        a.integer = integer
        a.nonneg = nonneg
        a.real = real
        _ATOMS[key] = a
    return a


def _num(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        return snap(x)
    raise TypeError("not a number: %r" % (x,))


def snap(x):
    """The rational a float literal stands for."""
    from decimal import Decimal
    return Fraction(Decimal(repr(x)))


class Expr:
    __slots__ = ("t", "_h", "_atoms", "_key")

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._atoms = None
        self._key = None

    # ---- construction helpers
    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items(), key=lambda kv: tuple(
                (a.id, e) for a, e in kv[0])))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if not isinstance(o, Expr):
            if isinstance(o, (int, Fraction)):
                o = const(o)
            else:
                return NotImplemented
        return self is o or self.t == o.t

    def __repr__(self):
        return expr_str(self)

    # ---- arithmetic
    def __add__(self, o):
        o = E(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Expr(r)

    __radd__ = __add__

    def __neg__(self):
        return Expr({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-E(o))

    def __rsub__(self, o):
        return E(o) + (-self)

    def __mul__(self, o):
        o = E(o)
        if not self.t or not o.t:
            return ZERO
        if len(o.t) == 1 and () in o.t:
            c = o.t[()]
            return self if c == 1 else Expr({m: v * c for m, v in self.t.items()})
        if len(self.t) == 1 and () in self.t:
            return o * self
        r = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                c = c1 * c2
                m = mono_mul(m1, m2)
                if m is None:
                    continue
                if isinstance(m, Expr):
                    extra = m * c if extra is None else extra + m * c
                    continue
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v += c
                    if v:
                        r[m] = v
                    else:
                        del r[m]
        e = Expr(r)
        return e if extra is None else e + extra

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = E(o)
        if len(o.t) > 1 and len(o.t) == len(self.t):
            # exact multiple of the divisor
            (m0, c0) = next(iter(self.t.items()))
            for m, c in o.t.items():
                r = Expr({m0: c0}) * power(Expr({m: c}), Fraction(-1))
                if r * o == self:
                    return r
        return self * power(o, Fraction(-1))

    def __rtruediv__(self, o):
        return E(o) * power(self, Fraction(-1))

    def __pow__(self, k):
        return power(self, k)

    # ---- queries
    @property
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    @property
    def value(self):
        return self.t.get((), Fraction(0)) if self.is_const else None

    def atoms(self):
        """atoms occurring at top level"""
        if self._atoms is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s.add(a)
            self._atoms = frozenset(s)
        return self._atoms

    def all_atoms(self, acc=None):
        acc = set() if acc is None else acc
        for a in self.atoms():
            if a not in acc:
                acc.add(a)
                for s in atom_exprs(a):
                    s.all_atoms(acc)
        return acc


def atom_exprs(a):
    out = []

    def walk(x):
        if isinstance(x, Expr):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(a.args)
    return out


ZERO = Expr({})


def const(c):
    c = _num(c)
    return Expr({(): c}) if c else ZERO


ONE = const(1)


def E(x):
    if isinstance(x, Expr):
        return x
    return const(x)


def atom_expr(a, e=1):
    e = int(e) if e == int(e) else Fraction(e)
    return Expr({((a, e),): Fraction(1)})


def sym(name, integer=False, nonneg=False):
    return atom_expr(mk_atom("sym", (name,), integer, nonneg))


def idx(d):
    return atom_expr(mk_atom("idx", (d,), True, True))


INT_REFS = set()   # names of references with non-negative integer values
ANY_INT = set()    # names of references with integer values of either sign


def ref(name, index):
    if name in INT_REFS:
        return atom_expr(mk_atom("ref", (name, tuple(E(i) for i in index)), True, True))
    if name in ANY_INT:
        return atom_expr(mk_atom("ref", (name, tuple(E(i) for i in index)), True, False))
    if name in UNIT:
        return atom_expr(mk_atom("ref", (name, tuple(E(i) for i in index)), False, True))
    return atom_expr(mk_atom("ref", (name, tuple(E(i) for i in index))))


PI = sym("pi")
PI_ATOM = mk_atom("sym", ("pi",))


# ---------------------------------------------------------------- monomials
def mono_mul(m1, m2):
    """product of two monomials: a monomial, an Expr (needs expansion) or None
    (product is zero)."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return mono_norm(d)


def mono_norm(d):
    special = False
    for a, e in list(d.items()):
        if e == 0:
            del d[a]
            continue
        k = a.kind
        if k == "pos" or k == "zero":
            d[a] = 1
            special = True
        elif k == "poly":
            if e > 0 and e >= 1:
                special = True
        elif k == "fn" and a.args[0] == "cexp":
            pass
    if special:
        return _mono_special(d)
    return tuple(sorted(((a, e if e.denominator != 1 else int(e)) if isinstance(e, Fraction) else (a, e)
                         for a, e in d.items()), key=lambda p: p[0].id))


def _mono_special(d):
    for a in d:
        if a.kind == "zero":
            p = mk_atom("pos", a.args)
            if p in d:
                return None
    # on ZERO(e), eliminate e's leading atom from the rest of the monomial
    for a in list(d):
        if a.kind == "zero":
            e = a.args[0]
            la, sol = _solve_leading(e)
            if la is not None:
                k = d.get(la, 0)
                if isinstance(k, int) and k > 0:
                    dd = dict(d)
                    del dd[la]
                    rest = mono_norm(dd)
                    if rest is None:
                        return None
                    r = rest if isinstance(rest, Expr) else Expr({rest: Fraction(1)})
                    return r * power(sol, k)
    for a, e in list(d.items()):
        if a.kind == "poly" and e >= 1:
            k = int(e)
            rest_e = e - k
            dd = dict(d)
            if rest_e:
                dd[a] = rest_e
            else:
                del dd[a]
            rest = mono_norm(dd)
            if rest is None:
                return None
            r = rest if isinstance(rest, Expr) else Expr({rest: Fraction(1)})
            base = a.args[0]
            for _ in range(k):
                r = r * base
            return r
    return tuple(sorted(((a, int(e) if e == int(e) else e) for a, e in d.items()),
                        key=lambda p: p[0].id))


_SOLVED = {}


def _solve_leading(e):
    """e == 0 solved for an atom occurring linearly once: (atom, Expr)."""
    r = _SOLVED.get(e)
    if r is None:
        if len(_SOLVED) > 200000:
            _SOLVED.clear()
        r = _SOLVED[e] = _solve_leading_(e)
    return r


def _solve_leading_(e):
    best = None
    for m, c in e.key:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind in ("pos", "zero"):
                continue
            if a in (Expr({mm: cc for mm, cc in e.t.items() if mm != m})).atoms():
                continue
            best = (a, m, c)
            break
    if best is None:
        return None, None
    a, m, c = best
    rest = Expr({mm: cc for mm, cc in e.t.items() if mm != m})
    return a, rest * (Fraction(-1) / c)


# ---------------------------------------------------------------- powers
INF = sym("inf", nonneg=True)
INF_ATOM = mk_atom("sym", ("inf",), nonneg=True)


def content(e):
    """positive rational content and leading sign."""
    n, d = 0, 1
    for c in e.t.values():
        n = gcd(n, abs(c.numerator))
        d = d * c.denominator // gcd(d, c.denominator)
    return Fraction(n, d)


def lead_sign(e):
    k = e.key
    # prefer sign of the first non-constant term
    for m, c in k:
        if m:
            return 1 if c > 0 else -1
    return 1 if (not k or k[0][1] > 0) else -1


def _isqrt_frac(q):
    from math import isqrt
    n, d = q.numerator, q.denominator
    if n < 0:
        return None
    a, b = isqrt(n), isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def power(e, k):
    e = E(e)
    if isinstance(k, Expr):
        if not k.is_const:
            return fn("pow", e, k)
        k = k.value
    k = Fraction(k)
    if k == 0:
        return ONE
    if k == 1:
        return e
    if not e.t:
        if k > 0:
            return ZERO
        return fn("div0", const(1))
    if k.denominator == 1 and k > 0:
        r = ONE
        b = e
        n = int(k)
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r
    if k < 0 and len(e.t) == 1 and any(a is INF_ATOM and x > 0 for a, x in next(iter(e.t))):
        return ZERO
    if k.denominator == 1:
        if len(e.t) == 1:
            (m, c), = e.t.items()
            out = const(Fraction(1) / c ** int(-k))
            for a, x in m:
                if a.kind in ("pos", "zero"):
                    out = out * _polypow(atom_expr(a), k)
                else:
                    out = out * _apow(a, x * k)
            return out
        # common monomial factor out (e.g. dx in 2*dx + 4*dx*y)
        cf = _common(e)
        if cf:
            rest = e * Expr({tuple((a, -x) for a, x in cf): Fraction(1)})
            out = power(rest, k)
            for a, x in cf:
                out = out * _apow(a, x * k)
            return out
        return _polypow(e, k)
    # fractional
    if len(e.t) == 1:
        (m, c), = e.t.items()
        ok = c > 0
        for a, x in m:
            if not (a.nonneg or (a.kind == "poly")):
                ok = False
        if ok:
            out = _numpow(c, k)
            for a, x in m:
                out = out * _apow(a, x * k)
            return out
        if k.denominator == 2 and c > 0 and len(m) >= 1 and all(
                a.nonneg or (isinstance(x, int) and x % 2 == 0) for a, x in m):
            out = _numpow(c, k)
            for a, x in m:
                if a.nonneg:
                    out = out * _apow(a, x * k)
                else:
                    out = out * power(absval(atom_expr(a)), 2 * (Fraction(x) / 2) * k)
            return out
    cf = tuple((a, x) for a, x in _common(e) if a.nonneg)
    if cf:
        rest = e * Expr({tuple((a, -x) for a, x in cf): Fraction(1)})
        out = power(rest, k)
        for a, x in cf:
            out = out * _apow(a, x * k)
        return out
    return _polypow(e, k)


def _apow(a, x):
    if x == 0:
        return ONE
    if a.kind == "poly":
        return _polypow(a.args[0], Fraction(x))
    return atom_expr(a, x)


def _numpow(c, k):
    if c == 1:
        return ONE
    if k.denominator == 2:
        r = _isqrt_frac(c)
        if r is not None:
            return const(r ** int(2 * k)) if k > 0 else const(Fraction(1) / r ** int(-2 * k))
        n = k.numerator // 2 if k.numerator % 2 == 0 else (k.numerator - 1) // 2
        # c^(n + 1/2)
        base = const(c ** n if n >= 0 else Fraction(1) / c ** (-n))
        a = mk_atom("poly", (const(c),), nonneg=True)
        return base * atom_expr(a, Fraction(1, 2))
    a = mk_atom("poly", (const(c),), nonneg=True)
    return atom_expr(a, k)


def _common(e):
    it = iter(e.t)
    cf = dict(next(it))
    for m in it:
        md = dict(m)
        for a in list(cf):
            if a not in md:
                del cf[a]
            else:
                x, y = cf[a], md[a]
                if (x > 0) != (y > 0):
                    del cf[a]
                else:
                    cf[a] = min(x, y) if x > 0 else max(x, y)
        if not cf:
            break
    return tuple(sorted(((a, x) for a, x in cf.items() if a.kind not in ("pos", "zero")),
                        key=lambda p: p[0].id))


def _polypow(p, k):
    """p**k for k negative or fractional, normalising the content of p."""
    k = Fraction(k)
    if p.is_const:
        return _numpow(p.value, k) if k.denominator != 1 else const(
            Fraction(1) / p.value ** int(-k) if k < 0 else p.value ** int(k))
    c = content(p)
    s = lead_sign(p)
    if k.denominator == 1:
        q = p * (Fraction(s) / c)
        f = c * s
        a = mk_atom("poly", (q,))
        cc = const(Fraction(1) / f ** int(-k)) if k < 0 else const(f ** int(k))
        r = atom_expr(a, k)
        if k > 0:
            r = power(q, k)
        return cc * r
    q = p * (Fraction(1) / c)
    a = mk_atom("poly", (q,))
    r = _numpow(c, k)
    n = k.numerator // k.denominator
    fr = k - n
    # q**(n+fr), n may be negative
    m = mono_norm({a: k})
    return r * (m if isinstance(m, Expr) else Expr({m: Fraction(1)}))


# ---------------------------------------------------------------- functions
def pos(e):
    """indicator of e > 0 (e scaled to canonical sign/content)"""
    e = E(e)
    if e.is_const:
        return ONE if e.value > 0 else ZERO
    s = sign_of(e)
    if s is not None:
        if s == 1:
            return ONE
        if s in (0, -1, -2):
            return ZERO
    c = content(e)
    sg = lead_sign(e)
    q = e * (Fraction(sg) / c)
    p = atom_expr(mk_atom("pos", (q,), nonneg=True))
    if sg > 0:
        return p
    return ONE - p - zero(q)


def zero(e):
    e = E(e)
    if e.is_const:
        return ONE if e.value == 0 else ZERO
    s = sign_of(e)
    if s in (1, -1):
        return ZERO
    c = content(e)
    sg = lead_sign(e)
    q = e * (Fraction(sg) / c)
    return atom_expr(mk_atom("zero", (q,), nonneg=True))


def ge0(e):
    return ONE - pos(-E(e))


def absval(e):
    e = E(e)
    if e.is_const:
        return const(abs(e.value))
    s = sign_of(e)
    if s in (1, 2, 0):
        return e
    if s in (-1, -2):
        return -e
    if lead_sign(e) < 0:
        e = -e
    return e * pos(e) * 2 - e


def maximum(a, b):
    a, b = E(a), E(b)
    d = a - b
    s = sign_of(d)
    if s in (1, 2, 0):
        return a
    if s in (-1, -2):
        return b
    if lead_sign(d) < 0:
        a, b, d = b, a, -d
    return b + d * pos(d)


def minimum(a, b):
    return -maximum(-E(a), -E(b))


UNIT = set()   # names of references whose values lie in the open interval (0, 1)


def unit_range(e):
    """(lower, upper, has unit atoms): bounds of an affine expression, or of a polynomial in one
    unit-interval reference (Bernstein coefficients), over the open unit interval; or None"""
    lo = hi = Fraction(0)
    n = 0
    for m, c in e.t.items():
        if not m:
            lo += c
            hi += c
            continue
        if len(m) != 1 or m[0][0].kind != "ref" or m[0][0].args[0] not in UNIT:
            return None
        if m[0][1] != 1:
            return _bernstein(e)
        n += 1
        if c > 0:
            hi += c
        else:
            lo += c
    return lo, hi, n


def _bernstein(e):
    from math import comb
    at, co = None, {}
    for m, c in e.t.items():
        if not m:
            co[0] = c
            continue
        if len(m) != 1:
            return None
        a, x = m[0]
        if a.kind != "ref" or a.args[0] not in UNIT or at not in (None, a) or not isinstance(x, int) or x < 0:
            return None
        at = a
        co[x] = c
    n = max(co)
    bs = [sum(Fraction(comb(k, i), comb(n, i)) * co.get(i, 0) for i in range(k + 1)) for k in range(n + 1)]
    return min(bs), max(bs), 1


def trunc(e):
    if is_integer(e):
        return e
    s = sign_of(e)
    if s in (1, 2, 0):
        return fn("floor", e)
    return fn("trunc", e)


def _strip_pos(e):
    """e divided by the strictly positive symbols common to all its terms"""
    com = None
    for m in e.t:
        d = {a: x for a, x in m if a.nonneg and a.kind == "sym"}
        com = d if com is None else {a: x for a, x in com.items() if d.get(a) == x}
        if not com:
            return e
    return Expr({tuple((a, x) for a, x in m if a not in com): c for m, c in e.t.items()})


def sign_of(e):
    """sign by structure: 1 (>0), 2 (>=0), 0, -2 (<=0), -1 (<0), None.
    Uses only atoms flagged nonneg (>0 when not an index/indicator)."""
    if not e.t:
        return 0
    if UNIT and len(e.t) <= 8:
        u = unit_range(_strip_pos(e))
        if u is not None and u[2]:
            if u[0] >= 0:
                return 1
            if u[1] <= 0:
                return -1
    ps = ns = True
    strict = False
    for m, c in e.t.items():
        s = 1 if c > 0 else -1
        st = True
        for a, x in m:
            if a.nonneg:
                if a.kind in ("idx", "pos", "zero", "bv", "ref"):
                    st = False
            elif isinstance(x, int) and x % 2 == 0:
                st = False
            elif a.kind == "poly" and isinstance(x, Fraction) and x.denominator == 2:
                st = st and sign_of(a.args[0]) == 1
            else:
                return None
        if s > 0:
            ns = False
        else:
            ps = False
        strict = strict or st
    if ps:
        return 1 if strict else 2
    if ns:
        return -1 if strict else -2
    return None


ABSTRACT_FN = {}


def fn(name, *args):
    args = tuple(E(a) if isinstance(a, (int, Fraction, float)) and not isinstance(a, bool) else a
                 for a in args)
    h = _FN.get(name)
    if h is not None:
        r = h(*args)
        if r is not None:
            return r
    return atom_expr(mk_atom("fn", (name,) + args))


def _pi_split(e):
    """e = q*pi + rest ; returns (q, rest)"""
    m = ((PI_ATOM, 1),)
    q = e.t.get(m, Fraction(0))
    if q == 0:
        return Fraction(0), e
    return q, e - Expr({m: q})


def _sin(e):
    q, r = _pi_split(e)
    q = q % 2
    if not r.t:
        v = {Fraction(0): 0, Fraction(1, 2): 1, Fraction(1): 0, Fraction(3, 2): -1,
             Fraction(1, 6): Fraction(1, 2), Fraction(5, 6): Fraction(1, 2)}.get(q)
        if v is not None:
            return const(v)
    if q == 0:
        if lead_sign(r) < 0:
            return -atom_expr(mk_atom("fn", ("sin", -r)))
        return atom_expr(mk_atom("fn", ("sin", r)))
    if q == 1:
        return -_sin(r)
    if q == Fraction(1, 2):
        return _cos(r)
    if q == Fraction(3, 2):
        return -_cos(r)
    e = r + PI * q
    if lead_sign(e) < 0:
        return -atom_expr(mk_atom("fn", ("sin", -e)))
    return atom_expr(mk_atom("fn", ("sin", e)))


def _cos(e):
    q, r = _pi_split(e)
    q = q % 2
    if q == 0:
        if not r.t:
            return ONE
        if lead_sign(r) < 0:
            r = -r
        return atom_expr(mk_atom("fn", ("cos", r)))
    if q == 1:
        return -_cos(r)
    if q == Fraction(1, 2):
        return -_sin(r)
    if q == Fraction(3, 2):
        return _sin(r)
    e = r + PI * q
    if lead_sign(e) < 0:
        e = -e
    return atom_expr(mk_atom("fn", ("cos", e)))


def _log(e):
    if e.is_const and e.value == 1:
        return ZERO
    # log of sqrt -> 1/2 log ; log of power of single positive thing
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m) == 1:
            a, x = m[0]
            if x != 1 and (a.nonneg or a.kind == "poly"):
                base = a.args[0] if a.kind == "poly" else atom_expr(a)
                return fn("log", base) * Fraction(x)
    return None


def _exp(e):
    if not e.t:
        return ONE
    return None


def _floor_(e):
    r = _floor(e)
    return fn("floor", e) if r is None else r


def _floor(e):
    if e.is_const:
        v = e.value
        return const(v.numerator // v.denominator)
    if is_integer(e):
        return e
    # pull integer terms out
    ip = Expr({m: c for m, c in e.t.items() if m and c.denominator == 1 and all(
        a.integer and isinstance(x, int) and x > 0 for a, x in m)})
    if ip.t:
        return ip + _floor_(e - ip)
    if UNIT:
        u = unit_range(e)
        if u is not None and u[2]:
            n = u[0].numerator // u[0].denominator
            if u[1] <= n + 1:
                return const(n)
    c = e.t.get((), Fraction(0))
    n = c.numerator // c.denominator
    if n:
        return fn("floor", e - const(n)) + const(n)
    return None


_FN = {
    "sin": _sin, "cos": _cos, "log": _log, "exp": _exp, "floor": _floor,
    "sqrt": lambda e: power(e, Fraction(1, 2)),
    "abs": absval, "max": maximum, "min": minimum,
}


def is_integer(e):
    for m, c in e.t.items():
        if c.denominator != 1:
            return False
        for a, x in m:
            if not a.integer or not isinstance(x, int) or x < 0:
                return False
    return True


# ---------------------------------------------------------------- substitution
def subst(e, mp, cache=None):
    """replace atoms by Exprs (recursively, also inside atom arguments)"""
    if not mp:
        return e
    if cache is None:
        cache = {}
    return _subst(e, mp, cache)


def _subst(e, mp, cache):
    r = cache.get(e)
    if r is not None:
        return r
    out = None
    keep = {}
    for m, c in e.t.items():
        ch = False
        parts = None
        for a, x in m:
            na = _subst_atom(a, mp, cache)
            if na is not None:
                ch = True
                break
        if not ch:
            keep[m] = c
            continue
        parts = const(c)
        for a, x in m:
            na = _subst_atom(a, mp, cache)
            f = power(na, x) if na is not None else atom_expr(a, x)
            parts = parts * f
        out = parts if out is None else out + parts
    r = Expr(keep)
    if out is not None:
        r = r + out
    cache[e] = r
    return r


_NOCH = object()


def _subst_atom(a, mp, cache):
    """Expr replacement or None if unchanged"""
    r = mp.get(a)
    if r is not None:
        return r
    r = cache.get(a)
    if r is not None:
        return None if r is _NOCH else r
    k = a.kind
    if k in ("sym", "idx", "bv"):
        cache[a] = _NOCH
        return None
    if k == "sum":
        r = _subst_sum(a, mp, cache)
    else:
        ch = [False]

        def walk(x):
            if isinstance(x, Expr):
                y = _subst(x, mp, cache)
                if y is not x and y != x:
                    ch[0] = True
                return y
            if isinstance(x, tuple):
                return tuple(walk(y) for y in x)
            return x
        args = walk(a.args)
        if not ch[0]:
            r = None
        elif k == "pos":
            r = pos(args[0])
        elif k == "zero":
            r = zero(args[0])
        elif k == "poly":
            r = args[0]
            if not r.t:
                r = ZERO
        elif k == "fn":
            r = fn(*args)
        elif k == "ref":
            r = ref_build(args[0], args[1])
        else:
            raise RuntimeError("subst into atom kind " + k)
    cache[a] = _NOCH if r is None else r
    return r


REF_HOOK = {}


def ref_build(name, index):
    h = REF_HOOK.get(name)
    if h is not None:
        r = h(index)
        if r is not None:
            return r
    return ref(name, index)


# ---------------------------------------------------------------- sums
def bv(k):
    return atom_expr(mk_atom("bv", (k,), True, True))


def bv_atom(k):
    return mk_atom("bv", (k,), True, True)


_FRESH = [1000]


def fresh_bv():
    _FRESH[0] += 1
    return mk_atom("bv", ("f%d" % _FRESH[0],), True, True)


def sum_over(var, lo, hi, body):
    """Sum of body over var (a bv Atom) in [lo, hi): canonical Expr."""
    lo, hi = E(lo), E(hi)
    n = hi - lo
    if n.is_const and n.value <= 8:
        out = ZERO
        for k in range(0, int(n.value)):
            out = out + subst(body, {var: lo + k})
        return out
    out = ZERO
    # canonical range [0, N): sums that leave out a few end terms are written as the full
    # sum minus those terms (an identity whatever value the extra terms have)
    c0 = hi.t.get((), 0)
    if lo.is_const and 0 <= lo.value <= 3 and lo.value.denominator == 1 and -3 <= c0 <= 0 and (lo.t or c0) and Fraction(c0).denominator == 1:
        H = hi - c0
        out = -sum((subst(body, {var: const(j)}) for j in range(int(lo.value))), ZERO)
        out = out - sum((subst(body, {var: H - j}) for j in range(1, int(-c0) + 1)), ZERO)
        lo, hi, n = ZERO, H, H
    if lo.t:
        body = subst(body, {var: atom_expr(var) + lo})
        hi = n
    for m, c in body.t.items():
        out = out + _sum_mono(var, hi, m) * c
    return out


def _contains(a, v):
    if a is v:
        return True
    for s in atom_exprs(a):
        if v in s.all_atoms():
            return True
    return False


def _sum_mono(var, n, m):
    inside = []
    outside = []
    for a, x in m:
        (inside if _contains(a, var) else outside).append((a, x))
    o = Expr({tuple(outside): Fraction(1)})
    if not inside:
        return o * n
    # merge with nested sums appearing (exponent 1) in the inside part
    vars_ = [(var, n)]
    fac = ONE
    for a, x in inside:
        if a.kind == "sum" and x == 1:
            ranges, body = a.args
            mp = {}
            for i, r in enumerate(ranges):
                f = fresh_bv()
                mp[bv_atom("c%d" % i)] = atom_expr(f)
                vars_.append((f, r))
            fac = fac * subst(body, mp)
        else:
            fac = fac * atom_expr(a, x)
    out = ZERO
    for mm, cc in fac.t.items():
        out = out + _mk_sum(vars_, mm) * cc
    return o * out


def _mk_sum(vars_, mono):
    """canonical multi-sum of a single monomial"""
    from itertools import permutations
    outside = [(a, x) for a, x in mono if not any(_contains(a, v) for v, _ in vars_)]
    inside = [(a, x) for a, x in mono if any(_contains(a, v) for v, _ in vars_)]
    o = Expr({tuple(outside): Fraction(1)})
    used, f = [], ONE
    for v, n in vars_:
        if any(_contains(a, v) for a, _ in inside):
            used.append((v, n))
        else:
            f = f * n
    # factor into connected components so that (sum_i a_i)(sum_j b_j) is a product
    comps = []
    rem = list(range(len(used)))
    var_of = {i: set(k for k, (a, x) in enumerate(inside) if _contains(a, used[i][0])) for i in rem}
    while rem:
        grp = [rem.pop(0)]
        fs = set(var_of[grp[0]])
        ch = True
        while ch:
            ch = False
            for i in list(rem):
                if var_of[i] & fs:
                    grp.append(i)
                    fs |= var_of[i]
                    rem.remove(i)
                    ch = True
        comps.append((grp, fs))
    out = o * f
    for grp, fs in comps:
        vs = [used[i] for i in grp]
        body_m = [inside[k] for k in sorted(fs)]
        best = None
        for perm in permutations(range(len(vs))):
            mp = {}
            for new, old in enumerate(perm):
                mp[vs[old][0]] = atom_expr(bv_atom("c%d" % new))
            b = ONE
            for a, x in body_m:
                na = subst(atom_expr(a), mp)
                b = b * power(na, x)
            rg = tuple(vs[old][1] for old in perm)
            k = (tuple(r.key_ids() for r in rg), b.key_ids())
            if best is None or k < best[0]:
                best = (k, rg, b)
        _, rg, b = best
        out = out * atom_expr(mk_atom("sum", (rg, b)))
    return out


def _key_ids(self):
    return tuple((tuple((a.id, Fraction(e)) for a, e in m), c) for m, c in self.key)


Expr.key_ids = _key_ids


def _subst_sum(a, mp, cache):
    ranges, body = a.args
    inner = {k: v for k, v in mp.items() if not (k.kind == "bv" and str(k.args[0]).startswith("c"))}
    nr = tuple(_subst(r, inner, {}) for r in ranges)
    # rename canonical bound vars to fresh ones to avoid capture, then re-sum
    ren = {}
    fr = []
    for i in range(len(ranges)):
        f = fresh_bv()
        fr.append(f)
        ren[bv_atom("c%d" % i)] = atom_expr(f)
    nb0 = _subst(body, inner, {})
    if nb0 == body and nr == ranges:
        return None
    b = _subst(_subst(body, ren, {}), inner, {})
    for f, r in reversed(list(zip(fr, nr))):
        b = sum_over(f, 0, r, b)
    return b


# ---------------------------------------------------------------- equality
def clear_denoms(e):
    for _ in range(40):
        worst = {}
        for m in e.t:
            for a, x in m:
                if a.kind == "poly" and x < 0:
                    k = -int(x) if x == int(x) else int(-x) + 1
                    worst[a] = max(worst.get(a, 0), k)
        if not worst:
            return e
        for a, k in worst.items():
            # multiply by a.args[0]**k, cancelling exponents first
            out = ZERO
            for m, c in e.t.items():
                d = dict(m)
                d[a] = d.get(a, 0) + k
                mm = mono_norm(d)
                if mm is None:
                    continue
                out = out + (mm * c if isinstance(mm, Expr) else Expr({mm: c}))
            e = out
    return e


def equal(a, b):
    d = E(a) - E(b)
    if not d.t:
        return True
    d = clear_denoms(d)
    return not d.t


def resolve_signs(e, truth):
    """replace pos/zero atoms using `truth(expr) -> -1/0/1/None` (sign of expr)."""
    for _ in range(20):
        mp = {}
        for a in e.all_atoms():
            if a.kind in ("pos", "zero"):
                arg = a.args[0]
                if any(x.kind in ("pos", "zero") for x in arg.all_atoms()):
                    continue
                s = truth(arg)
                if s is None:
                    continue
                if a.kind == "pos":
                    mp[a] = ONE if s > 0 else ZERO
                else:
                    mp[a] = ONE if s == 0 else ZERO
        if not mp:
            return e
        e = subst(e, mp)
    return e


def eval_num(e, env):
    """evaluate over rationals with env: atom -> Fraction; None if impossible"""
    tot = Fraction(0)
    for m, c in e.t.items():
        v = c
        for a, x in m:
            av = env.get(a)
            if av is None:
                if a.kind == "pos":
                    s = eval_num(a.args[0], env)
                    if s is None:
                        return None
                    av = Fraction(1 if s > 0 else 0)
                elif a.kind == "zero":
                    s = eval_num(a.args[0], env)
                    if s is None:
                        return None
                    av = Fraction(1 if s == 0 else 0)
                elif a.kind == "poly" and isinstance(x, int):
                    av = eval_num(a.args[0], env)
                    if av is None:
                        return None
                else:
                    return None
            if x < 0 and av == 0:
                return None
            if isinstance(x, Fraction) and x.denominator != 1:
                return None
            v *= av ** int(x) if x >= 0 else Fraction(1) / av ** int(-x)
        tot += v
    return tot


# ---------------------------------------------------------------- printing
def atom_str(a):
    k = a.kind
    if k == "sym":
        return str(a.args[0])
    if k == "idx":
        return "i%d" % a.args[0]
    if k == "bv":
        return "%s" % a.args[0]
    if k == "ref":
        return "%s[%s]" % (a.args[0], ",".join(expr_str(x) for x in a.args[1]))
    if k == "fn":
        return "%s(%s)" % (a.args[0], ", ".join(str(x) for x in a.args[1:]))
    if k == "pos":
        return "[%s>0]" % expr_str(a.args[0])
    if k == "zero":
        return "[%s==0]" % expr_str(a.args[0])
    if k == "poly":
        return "(%s)" % expr_str(a.args[0])
    if k == "sum":
        return "Sum{%s}(%s)" % (",".join("c%d<%s" % (i, expr_str(r)) for i, r in enumerate(a.args[0])),
                                expr_str(a.args[1]))
    return "%s%r" % (k, a.args)


def expr_str(e, limit=1200):
    if not e.t:
        return "0"
    out = []
    for m, c in e.key:
        s = "*".join(atom_str(a) + ("" if x == 1 else "^%s" % x) for a, x in m)
        cs = str(c)
        if not s:
            p = cs
        elif c == 1:
            p = s
        elif c == -1:
            p = "-" + s
        else:
            p = cs + "*" + s
        out.append(p if p.startswith("-") or not out else "+" + p)
        if len(out) > limit // 3:
            out.append("...")
            break
    r = " ".join(out)
    return r if len(r) <= limit else r[:limit] + "..."
