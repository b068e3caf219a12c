"""Abstract arrays: allocations with piecewise symbolic content, and views."""
import itertools
from fractions import Fraction

from . import cas
from .bounds import Undecidable, bmax, bmin, le, lt, try_le
from .cas import E, Expr, ONE, ZERO, atom_expr, const, idx, mk_atom, ref, subst


class Unsupported(Exception):
    """The analyser does not model this construct (analysis error, never a
    verdict)."""


class AbsRaise(Exception):
    """The analysed program certainly raises here."""

    def __init__(self, exc_type, msg="", where=None):
        Exception.__init__(self, exc_type, msg)
        self.exc_type = exc_type
        self.msg = msg
        self.where = where

    def __str__(self):
        return "%s: %s%s" % (self.exc_type, self.msg, (" at " + self.where) if self.where else "")


class Ctx:
    """global analysis context (provenance, events)"""
    where = staticmethod(lambda: "")
    events = []
    counter = 0

    @classmethod
    def fresh(cls, p):
        cls.counter += 1
        return "%s#%d" % (p, cls.counter)


COMPLEX = {"complex64": "float32", "complex128": "float64"}
TO_COMPLEX = {"float32": "complex64", "float64": "complex128"}


def is_complex(dt):
    return dt in COMPLEX


# ------------------------------------------------------------------ boxes
def box_empty(b):
    """True when the box has no cell; a box that is well formed (lo <= hi) but may be empty
    for some extents counts as non-empty (whatever is said about its cells is then vacuous)"""
    und = None
    for lo, hi in b:
        try:
            if le(hi, lo):
                return True
        except Undecidable as ex:
            if not try_le(lo, hi):
                und = ex
    if und is not None:
        raise und
    return False


def part_lt(a, b):
    """is the part between a and b (a <= b) to be kept?"""
    try:
        return lt(a, b)
    except Undecidable:
        if try_le(a, b):
            return True
        raise


def box_inter(a, b):
    out = []
    for (l1, h1), (l2, h2) in zip(a, b):
        l = l1 if l1 == l2 else bmax(l1, l2)
        h = h1 if h1 == h2 else bmin(h1, h2)
        out.append((l, h))
    return tuple(out)


def box_diff(a, b):
    """a minus b as disjoint boxes; b is intersected with a first"""
    i = box_inter(a, b)
    if box_empty(i):
        return [a]
    out = []
    cur = list(a)
    for d in range(len(a)):
        lo, hi = cur[d]
        il, ih = i[d]
        if il != lo and part_lt(lo, il):
            nb = list(cur)
            nb[d] = (lo, il)
            out.append(tuple(nb))
        if ih != hi and part_lt(ih, hi):
            nb = list(cur)
            nb[d] = (ih, hi)
            out.append(tuple(nb))
        cur[d] = (il, ih)
    return out


def box_str(b):
    return "x".join("[%s,%s)" % (l, h) for l, h in b)


def full_box(shape):
    return tuple((ZERO, E(n)) for n in shape)


def simp_in_box(e, box):
    """substitute single-cell coordinates"""
    mp = {}
    for d, (lo, hi) in enumerate(box):
        if (hi - lo) == ONE:
            mp[mk_atom("idx", (d,), True, True)] = lo
    return subst(e, mp) if mp else e


# ------------------------------------------------------------------ bases
class Base:
    """An allocation.  Complex data carry a hidden trailing axis (re, im)."""
    _n = 0
    LOG = None

    def __init__(self, shape, dtype, pieces, name=""):
        Base._n += 1
        self.uid = Base._n
        self.shape = tuple(E(s) for s in shape)
        self.dtype = dtype
        self.pieces = pieces
        self.name = name
        self.scatters = []
        self.writes = 0
        self.freed = False
        self.attrs = {}

    @property
    def nd(self):
        return len(self.shape)

    @classmethod
    def make(cls, shape, dtype, expr, name=""):
        shape = tuple(E(s) for s in shape)
        if is_complex(dtype):
            shape = shape + (const(2),)
        return cls(shape, dtype, [(full_box(shape), E(expr), "")], name)

    @classmethod
    def symbolic(cls, name, shape, dtype):
        n = len(shape) + (1 if is_complex(dtype) else 0)
        b = cls.make(shape, dtype, ref(name, [idx(i) for i in range(n)]), name)
        b.init = list(b.pieces)
        return b

    def write_box(self, box, expr, prov):
        self.writes += 1
        if Base.LOG is not None and self not in Base.LOG:
            Base.LOG[self] = list(self.pieces)
        if box_empty(box):
            return
        out = []
        for b, e, p in self.pieces:
            for r in box_diff(b, box):
                out.append((r, e, p))
        out.append((box, expr, prov))
        self.pieces = out

    def snapshot(self):
        return list(self.pieces)

    def copy_like(self):
        b = Base(self.shape, self.dtype, list(self.pieces), self.name)
        return b


def pieces_read(pieces, box):
    out = []
    for b, e, p in pieces:
        i = box_inter(b, box)
        if not box_empty(i):
            out.append((i, e, p))
    return out


# ------------------------------------------------------------------ views
class Arr:
    """ndarray: a view on a Base. `map` has per base axis (viewaxis|None, coef, off)."""

    def __init__(self, base, shape, amap, dtype=None, part=None):
        self.base = base
        self.shape = tuple(E(s) for s in shape)
        self.map = tuple(amap)
        self.dtype = dtype or base.dtype
        self.mask = None      # set on a selection a[mask]: full-shape content of which only the masked cells are there

    # complex handling: the hidden axis is always mapped explicitly: for a
    # complex view the hidden base axis is marked with ("part",)
    @classmethod
    def of(cls, base):
        n = base.nd - (1 if is_complex(base.dtype) else 0)
        m = [(d, 1, ZERO) for d in range(n)]
        if is_complex(base.dtype):
            m.append(("part", 1, ZERO))
        return cls(base, base.shape[:n], m)

    @classmethod
    def from_pieces(cls, shape, dtype, pieces, name=""):
        """pieces over visible axes (+ hidden part axis when complex)"""
        shape = tuple(E(s) for s in shape)
        bs = shape + ((const(2),) if is_complex(dtype) else ())
        return cls.of(Base(bs, dtype, pieces, name))

    @property
    def nd(self):
        return len(self.shape)

    @property
    def cplx(self):
        return is_complex(self.dtype)

    def full_vshape(self):
        return self.shape + ((const(2),) if self.cplx else ())

    # ---- reading
    def pieces(self):
        """pieces over the visible axes (+part when complex): (box, expr, prov)"""
        if self.mask is not None:
            raise Unsupported("use of a masked selection")
        return self._read(self.base.pieces)

    def _vax(self, j):
        return self.nd if j == "part" else j

    def _read(self, bpieces):
        vshape = self.full_vshape()
        if self.base.scatters:
            bpieces = self.base.effective_pieces() if hasattr(self.base, "effective_pieces") else bpieces
        mp = {}
        ident = True
        for d, (j, c, off) in enumerate(self.map):
            if j is None:
                mp[mk_atom("idx", (d,), True, True)] = off
                ident = False
            else:
                jj = self._vax(j)
                if jj == d and c == 1 and not off.t:
                    continue
                ident = False
                mp[mk_atom("idx", (d,), True, True)] = idx(jj) * c + off
        out = []
        single = len(bpieces) == 1
        for b, e, p in bpieces:
            vb = [(ZERO, s) for s in vshape]
            ok = True
            for d, (j, c, off) in enumerate(self.map):
                lo, hi = b[d]
                fullspan = (not lo.t) and hi == self.base.shape[d]
                if j is None:
                    if fullspan or single:
                        continue  # in range by assumption (bounds checked at creation)
                    if not (le(lo, off) and lt(off, hi)):
                        ok = False
                        break
                else:
                    jj = self._vax(j)
                    if fullspan:
                        continue
                    if c == 1:
                        nl, nh = lo - off, hi - off
                    elif c == -1:
                        nl, nh = off - hi + 1, off - lo + 1
                    else:
                        if not lo.t and hi == self.base.shape[d]:
                            continue
                        raise Unsupported("strided view over piecewise content")
                    l0, h0 = vb[jj]
                    l1 = bmax(l0, nl)
                    h1 = bmin(h0, nh)
                    if le(h1, l1):
                        ok = False
                        break
                    vb[jj] = (l1, h1)
            if ok:
                ee = e if ident else subst(e, mp)
                out.append((tuple(vb), ee, p))
        return out

    # ---- writing
    def inverse_box(self, vbox):
        """view box -> base box"""
        bb = []
        for d, (j, c, off) in enumerate(self.map):
            if j is None:
                bb.append((off, off + 1))
            else:
                lo, hi = vbox[self._vax(j)]
                if c == 1:
                    bb.append((lo + off, hi + off))
                elif c == -1:
                    bb.append((off - hi + 1, off - lo + 1))
                else:
                    raise Unsupported("strided write")
        return tuple(bb)

    def inverse_subst(self):
        mp = {}
        for d, (j, c, off) in enumerate(self.map):
            if j is not None:
                if c not in (1, -1):
                    raise Unsupported("strided write")
                a = mk_atom("idx", (self._vax(j),), True, True)
                if a in mp:
                    raise Unsupported("diagonal write")
                mp[a] = (idx(d) - off) * c
        return mp

    def write(self, pieces, prov=None):
        """assign pieces (over the view axes)"""
        prov = prov if prov is not None else Ctx.where()
        dep = any(a.kind in ("ref", "fn") for _, _, off in self.map for a in off.all_atoms())
        if dep:
            from .loops import window_write
        mp = None
        for vb, e, _ in pieces:
            if box_empty(vb):
                continue
            if dep and window_write(self, vb, e, prov):
                continue
            if mp is None:
                mp = self.inverse_subst()
                mp = {a: v for a, v in mp.items() if v != atom_expr(a)}
            bb = self.inverse_box(vb)
            self.base.write_box(bb, subst(e, mp) if mp else e, prov)

    def same_view(self, o):
        return self.base is o.base and self.map == o.map and self.shape == o.shape

    def __repr__(self):
        return "<Arr %s %s %s>" % (self.base.name, self.dtype, list(self.shape))


# ------------------------------------------------------------------ indexing
class SliceV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c

    def __repr__(self):
        return "slice(%s,%s,%s)" % (self.start, self.stop, self.step)


def norm_slice(s, n):
    """(start, length, step) of a python slice over extent n (symbolic)"""
    step = 1 if s.step is None else s.step
    if isinstance(step, Expr):
        if not step.is_const:
            raise Unsupported("symbolic slice step")
        step = int(step.value)
    n = E(n)
    if step > 0:
        a = ZERO if s.start is None else _clip(E(s.start), n)
        b = n if s.stop is None else _clip(E(s.stop), n)
        if a == b:
            ln = ZERO
        else:
            try:
                ln = b - a if lt(a, b) else ZERO
            except Undecidable:
                # a window whose length depends on array content: take the (feasible) case a < b;
                # shape rules then see the data-dependent length
                if not any(x.kind == "ref" and x.integer for x in (b - a).all_atoms()):
                    raise
                ln = b - a
        if step != 1 and ln.t:
            if not ln.is_const:
                raise Unsupported("strided slice of symbolic length")
            ln = const(-(-int(ln.value) // step))
        return a, ln, step
    if s.start is None and s.stop is None and step == -1:
        return n - 1, n, -1
    if step == 0:
        raise AbsRaise("ValueError", "slice step cannot be zero", Ctx.where())
    if step != -1:
        raise Unsupported("negative strided slice")
    a = n - 1 if s.start is None else _clip(E(s.start), n)
    if a == n:
        a = n - 1
    if s.stop is None:
        return a, a + 1, -1
    b = _clip(E(s.stop), n)
    return a, (a - b if lt(b, a) else ZERO), -1


def _is_neg(x):
    """is the integer x negative?"""
    if x.is_const:
        return x.value < 0
    return not le(ZERO, x)


def _clip(x, n):
    if any(a.kind in ("ref", "fn") for a in x.all_atoms()):
        return x  # data-dependent bound: taken as in range
    if _is_neg(x):
        x = x + n
        if not x.is_const or x.value < 0:
            if not le(ZERO, x):
                x = ZERO
    if x == n:
        return n
    if le(x, n):
        return x
    return n


def getitem(arr, index):
    """basic indexing -> view ; fancy -> copy"""
    if not isinstance(index, tuple):
        index = (index,)
    # boolean mask
    if len(index) == 1 and isinstance(index[0], Arr) and index[0].dtype == "bool":
        return select(arr, index[0])
    fancy = [k for k, i in enumerate(index) if isinstance(i, Arr)]
    n_real = sum(1 for i in index if i is not None and i is not Ellipsis)
    nd = arr.nd
    if n_real > nd:
        raise AbsRaise("IndexError", "too many indices for array", Ctx.where())
    out = []
    if Ellipsis not in [i for i in index if not isinstance(i, Arr)]:
        index = index + (Ellipsis,)
    seen = False
    full = []
    for i in index:
        if i is Ellipsis:
            if not seen:
                full += [SliceV(None, None, None)] * (nd - n_real)
                seen = True
        else:
            full.append(i)
    # fancy integer-array index: single axis, 1D index array
    fa = [k for k, i in enumerate(full) if isinstance(i, Arr)]
    if fa:
        return _fancy(arr, full, fa)
    vmap = {}
    shape = []
    ax = 0
    for i in full:
        if i is None:
            shape.append(ONE)
            continue
        n = arr.shape[ax]
        if isinstance(i, SliceV):
            a, ln, st = norm_slice(i, n)
            vmap[ax] = (len(shape), st, a)
            shape.append(ln)
        else:
            x = _int_index(i, n)
            vmap[ax] = (None, 0, x)
        ax += 1
    nm = []
    for (j, c, off) in arr.map:
        if j is None or j == "part":
            nm.append((j, c, off))
        else:
            nj, nc, no = vmap[j]
            if nj is None:
                nm.append((None, 0, no * c + off))
            else:
                nm.append((nj, c * nc, no * c + off))
    return Arr(arr.base, shape, nm, arr.dtype)


def _int_index(i, n):
    if isinstance(i, bool):
        raise Unsupported("bool index")
    if isinstance(i, (int, Fraction)):
        if isinstance(i, Fraction) and i.denominator != 1:
            raise AbsRaise("IndexError", "non-integer index", Ctx.where())
        x = const(i)
    elif isinstance(i, Expr):
        x = i
    else:
        raise Unsupported("index %r" % (i,))
    if any(a.kind in ("ref", "fn", "bv") for a in x.all_atoms()):
        return x
    if _is_neg(x):
        x = x + n
    try:
        ok = le(ZERO, x) and lt(x, n)
    except Undecidable:
        if x.is_const:
            raise
        ok = True
        raise
    if not ok:
        raise AbsRaise("IndexError", "index %s out of bounds for extent %s" % (i, n), Ctx.where())
    return x


class Adv:
    """an advanced-indexing expression: basic view, its indexed axes, index arrays, result layout"""

    def __init__(self, arr, full, fa):
        pre = [SliceV(None, None, None) if isinstance(i, Arr) else i for i in full]
        self.view = getitem(arr, tuple(pre))
        self.axes, pos = [], 0
        adv = [k for k, i in enumerate(full) if i is not None and not isinstance(i, SliceV)]
        first = None
        for k, i in enumerate(full):
            if k in adv and first is None:
                first = pos
            if isinstance(i, Arr):
                self.axes.append(pos)
            if isinstance(i, (Arr, SliceV)) or i is None:
                pos += 1
        # separated index arrays: their dimensions come first
        joined = adv == list(range(adv[0], adv[-1] + 1))
        self.S = bshape([full[k].shape for k in fa])
        self.idx = [broadcast_to(full[k], self.S) for k in fa]
        self.others = [d for d in range(self.view.nd) if d not in self.axes]
        self.slot = first if joined else 0
        self.shape = [self.view.shape[d] for d in self.others]
        self.shape[self.slot:self.slot] = list(self.S)
        for x in self.idx:
            if not x.dtype.startswith(("int", "uint")):
                raise AbsRaise("IndexError", "arrays used as indices must be of integer type", Ctx.where())

    def newpos(self, d):
        k = self.others.index(d)
        return k if k < self.slot else k + len(self.S)

    def lanes(self):
        tot = 1
        for n in self.S:
            if not n.is_const:
                return None
            tot *= int(n.value)
        if tot > 4096:
            return None
        return itertools.product(*[range(int(n.value)) for n in self.S])

    def at(self, js):
        """index values of one lane"""
        out = []
        for x, ax in zip(self.idx, self.axes):
            ps = getitem(x, tuple(js)).pieces() if js else x.pieces()
            if len(ps) != 1:
                raise Unsupported("index array content")
            e = ps[0][1]
            if e.is_const and e.value < 0:
                e = e + self.view.shape[ax]
            out.append(e)
        return out

    def lane_view(self, js):
        ix = [SliceV(None, None, None)] * self.view.nd
        for ax, e in zip(self.axes, self.at(js)):
            ix[ax] = e if not e.is_const else e.value
        return getitem(self.view, tuple(ix))

    def lane_index(self, js):
        ix = [SliceV(None, None, None)] * len(self.shape)
        for k, j in enumerate(js):
            ix[self.slot + k] = j
        return tuple(ix)


def _atom(d):
    return mk_atom("idx", (d,), True, True)


def _fancy(arr, full, fa):
    a = Adv(arr, full, fa)
    nS, nd, nr = len(a.S), a.view.nd, len(a.shape)
    vp = a.view.pieces()
    whole = all(not b[ax][0].t and b[ax][1] == a.view.shape[ax] for b, _, _ in vp for ax in a.axes)
    if not whole:
        lanes = a.lanes()
        if lanes is None:
            raise Unsupported("fancy index over piecewise content")
        out = []
        for js in lanes:
            lv = a.lane_view(js)
            mp = {_atom(k): idx(k if k < a.slot else k + nS) for k in range(nr - nS + 1)}
            for b, e, p in lv.pieces():
                nb = list(b)
                nb[a.slot:a.slot] = [(const(j), const(j + 1)) for j in js]
                out.append((tuple(nb), subst(e, mp), p))
        return Arr.from_pieces(a.shape, arr.dtype, out)
    up = {_atom(k): idx(a.slot + k) for k in range(nS)}
    combos = refine([x.pieces() for x in a.idx])
    out = []
    for b, e, p in vp:
        mp = {_atom(d): idx(a.newpos(d)) for d in a.others}
        if len(b) > nd:
            mp[_atom(nd)] = idx(nr)
        for ib, ies, _ in combos:
            m = dict(mp)
            for ax, ie in zip(a.axes, ies):
                if ie.is_const and ie.value < 0:
                    ie = ie + a.view.shape[ax]
                m[_atom(ax)] = subst(ie, up)
            nb = [None] * nr
            for d in a.others:
                nb[a.newpos(d)] = b[d]
            nb[a.slot:a.slot + nS] = list(ib)
            out.append((tuple(nb) + tuple(b[nd:]), subst(e, m), p))
    return Arr.from_pieces(a.shape, arr.dtype, out)


def adv_of(arr, index):
    """the Adv of an index expression (None when it is basic)"""
    index = index if isinstance(index, tuple) else (index,)
    if not any(isinstance(i, Arr) for i in index):
        return None
    n_real = sum(1 for i in index if i is not None and i is not Ellipsis)
    full, seen = [], False
    for i in index + (() if any(i is Ellipsis for i in index) else (Ellipsis,)):
        if i is Ellipsis:
            if not seen:
                full += [SliceV(None, None, None)] * (arr.nd - n_real)
            seen = True
        else:
            full.append(i)
    return Adv(arr, full, [k for k, i in enumerate(full) if isinstance(i, Arr)])


def data_dep(e):
    return any(x.kind in ("ref", "fn") for x in e.all_atoms())


def fancy_write(arr, index, value):
    """arr[index arrays] = value: the lanes are written one after the other"""
    a = adv_of(arr, index)
    lanes = a.lanes()
    if lanes is None:
        if any(data_dep(e) for x in a.idx for _, e, _ in x.pieces()):
            # repeated targets keep one unspecified contribution
            v = a.view
            nm = op_name("last-write", [x for x in a.idx] + ([value] if isinstance(value, Arr) else []))
            assign(v, Arr.from_pieces(v.shape, v.dtype, [(full_box(v.full_vshape()), ref(nm, [idx(d) for d in range(len(v.full_vshape()))]), "")]))
            return
        raise Unsupported("fancy index write")
    val = broadcast_to(as_arr(value, arr.dtype), a.shape)
    if isinstance(value, Arr) and value.base is arr.base:
        val = copy(val)
    for js in lanes:
        assign(a.lane_view(js), getitem(val, a.lane_index(js)))


def scatter_add(arr, index, value, sign=1):
    """ufunc.at: every lane contributes"""
    a = adv_of(arr, index)
    if a is None:
        v = getitem(arr, index)
        val = broadcast_to(as_arr(value, arr.dtype), v.shape)
        assign(v, ewise(lambda x, y: x + sign * y, [v, val], arr.dtype))
        return
    val = broadcast_to(as_arr(value, arr.dtype), a.shape)
    if isinstance(value, Arr) and value.base is arr.base:
        val = copy(val)
    if arr.cplx:
        raise Unsupported("scatter of complex values")
    v = a.view
    nS = len(a.S)
    bvs = []
    delta = None
    sym = [k for k, n in enumerate(a.S) if not n.is_const or n.value > 64]
    tot = ZERO
    for js in itertools.product(*[range(1) if k in sym else range(int(a.S[k].value)) for k in range(nS)]):
        bv = {k: cas.fresh_bv() for k in sym}
        lane = [atom_expr(bv[k]) if k in sym else const(js[k]) for k in range(nS)]
        body = None
        for b, es, _ in refine([x.pieces() for x in a.idx]):
            if not all(k in sym or (le(b[k][0], lane[k]) and lt(lane[k], b[k][1])) for k in range(nS)):
                continue
            if any(b[k] != (ZERO, a.S[k]) for k in sym) or body is not None:
                raise Unsupported("piecewise index arrays")
            m = {_atom(k): lane[k] for k in range(nS)}
            body = [subst(e, m) for e in es]
        on = ONE
        for ax, e in zip(a.axes, body):
            on = on * cas.zero(idx(ax) - e)
        m = {_atom(a.slot + k): lane[k] for k in range(nS)}
        for d in a.others:
            m[_atom(a.newpos(d))] = idx(d)
        vps = [(b, e) for b, e, _ in val.pieces() if all(k in sym or (le(b[a.slot + k][0], lane[k]) and lt(lane[k], b[a.slot + k][1])) for k in range(nS))]
        if len(vps) != 1 or any(vps[0][0][a.slot + k] != (ZERO, a.S[k]) for k in sym) or any(vps[0][0][a.newpos(d)] != (ZERO, v.shape[d]) for d in a.others):
            raise Unsupported("piecewise values in a scatter")
        t = on * subst(vps[0][1], m)
        for k in sym:
            t = cas.sum_over(bv[k], ZERO, a.S[k], t)
        tot = tot + t
    new = [(b, e + sign * tot, p) for b, e, p in v.pieces()]
    v.write(new)


def setitem(arr, index, value):
    if isinstance(index, Arr) and index.dtype == "bool":
        return mask_write(arr, index, value)
    if isinstance(index, tuple) and any(isinstance(i, Arr) for i in index) or isinstance(index, Arr):
        return fancy_write(arr, index, value)
    assign(getitem(arr, index), value)


def assign(v, value):
    if isinstance(value, Expr) and v.dtype.startswith(("int", "uint")):
        value = cas.trunc(value)
    val = as_arr(value, v.dtype)
    try:
        vv = broadcast_to(val, v.shape)
    except AbsRaise:
        # numpy strips leading length-1 axes on assignment
        w = val
        while w.nd > v.nd and w.shape[0] == ONE:
            w = getitem(w, 0)
        vv = broadcast_to(w, v.shape)
    ps = convert_parts(vv, v)
    v.write(ps)


NARROW = [False]      # single-precision storage of double-precision values leaves a mark (2: of inexact constants too)
NARROWED = []         # places of such roundings


def single(e):
    if e.is_const and (NARROW[0] is True or not e.value.denominator & (e.value.denominator - 1)):
        return e
    NARROWED.append(Ctx.where())
    return cas.fn("single", e)


def cast_pieces(ps, a, b):
    if b.startswith(("int", "uint")) and not a.startswith(("int", "uint", "bool")):
        ps = [(x, e if cas.is_integer(e) else cas.trunc(e), p) for x, e, p in ps]
    if b in NARROW_INTS and a not in ("bool",) + NARROW_INTS[:NARROW_INTS.index(b) + 1]:
        return [(x, wrap_int(e, b), p) for x, e, p in ps]
    if b.startswith("int"):
        return ps
    if NARROW[0] and b in ("float32", "float16", "complex64") and a in ("float64", "int64", "complex128"):
        if a != "int64" or NARROW[0] is True:
            return [(x, single(e), p) for x, e, p in ps]
    return ps


def convert_parts(src, dst):
    """pieces of src over dst's visible axes (+part)"""
    if src.cplx == dst.cplx:
        return cast_pieces(src.pieces(), src.dtype, dst.dtype)
    if dst.cplx:
        out = []
        for b, e, p in cast_pieces(src.pieces(), src.dtype, dst.dtype):
            out.append((b + ((ZERO, ONE),), e, p))
            out.append((b + ((ONE, const(2)),), ZERO, p))
        return out
    raise Unsupported("complex assigned to real")


def select(arr, mask):
    """arr[mask]: the cells of arr where the mask holds, usable elementwise and for a[mask] = ..."""
    if arr.cplx or mask.mask is not None or arr.mask is not None:
        raise Unsupported("boolean mask read")
    if mask.nd > arr.nd or any(a != b for a, b in zip(mask.shape, arr.shape)):
        raise AbsRaise("IndexError", "boolean index did not match indexed array", Ctx.where())
    if mask.nd != arr.nd:
        raise Unsupported("boolean mask read")
    r = Arr.from_pieces(arr.shape, arr.dtype, arr.pieces())
    r.mask = copy(mask)
    return r


def same_mask(a, b):
    return a is b or a.shape == b.shape and all(x == y for _, (x, y), _ in (
        (bx, es, p) for bx, es, p in refine([a.pieces(), b.pieces()])))


def unmask(arrs):
    """(operands without selection, their common mask or None)"""
    m = next((a.mask for a in arrs if a.mask is not None), None)
    if m is None:
        return arrs, None
    out = []
    for a in arrs:
        if a.mask is None:
            if any(s != ONE for s in a.shape):
                raise Unsupported("masked selection combined with an array")
            a = broadcast_to(a, m.shape) if a.nd <= m.nd else a
        elif not same_mask(a.mask, m):
            raise Unsupported("selections of different masks combined")
        else:
            a = Arr(a.base, a.shape, a.map, a.dtype)
        out.append(a)
    return out, m


def masked(k, v, o):
    if k.is_const:
        return v if k.value else o
    return o + k * (v - o)


def split_corner(r):
    """boolean array with conditions on a non-negative function of the indices (a distance): cells
    where it vanishes are told apart, so that the condition is decided on each box"""
    out, done = [], False
    for b, e, p in r.pieces():
        new = split_corner_of(b, e, p)
        done = done or new is not None
        out += new or [(b, e, p)]
    return Arr.from_pieces(r.shape, r.dtype, out) if done else r


def split_corner_of(b, e, p):
    """boxes of a piece on which its conditions on a non-negative function of the indices are decided, or None"""
    if any(a.kind in ("pos", "zero") and any(x.kind == "idx" for x in a.args[0].all_atoms()) for a in e.all_atoms()):
        return _split_corner(b, e, p)
    return None


def _split_corner(b, e, p):
    for a in e.all_atoms():
        if a.kind not in ("pos", "zero"):
            continue
        q = a.args[0]
        dims = sorted({x.args[0] for x in q.all_atoms() if x.kind == "idx"})
        if not dims or any(x.kind in ("ref", "bv") for x in q.all_atoms()):
            continue
        ia = {d: mk_atom("idx", (d,), True, True) for d in dims}
        for side in itertools.product((0, 1), repeat=len(dims)):
            def at(extra):
                return subst(q, {ia[d]: (b[d][0] + idx(d) + (1 if d == extra else 0)) if not sd else (
                    b[d][1] - 1 - idx(d) - (1 if d == extra else 0)) for d, sd in zip(dims, side)})

            def put(val):
                return subst(e, {a: val})
            sg = cas.sign_of(at(None))
            if sg == 1:
                v = put(ONE if a.kind == "pos" else ZERO)
                return _split_corner(b, v, p) or [(b, v, p)]
            corner = {ia[d]: b[d][0] if not sd else b[d][1] - 1 for d, sd in zip(dims, side)}
            if sg != 2 or subst(q, corner).t or any(cas.sign_of(at(d)) != 1 for d in dims):
                continue
            cb = list(b)
            for d, sd in zip(dims, side):
                cb[d] = (b[d][1] - 1, b[d][1]) if sd else (b[d][0], b[d][0] + 1)
            out = [(tuple(cb), subst(put(ZERO if a.kind == "pos" else ONE), corner), p)]
            v = put(ONE if a.kind == "pos" else ZERO)
            for x in box_diff(b, tuple(cb)):
                out += _split_corner(x, v, p) or [(x, v, p)]
            return out
    return None


def mask_write(arr, mask, value):
    m = broadcast_to(mask, arr.shape)
    val = as_arr(value, arr.dtype)
    if val.mask is not None:
        if arr.cplx or mask.shape != arr.shape or not same_mask(val.mask, mask):
            raise Unsupported("array value in mask write")
        val = Arr(val.base, val.shape, val.map, val.dtype)
        val = Arr.from_pieces(val.shape, arr.dtype, cast_pieces(val.pieces(), val.dtype, arr.dtype))
    elif val.nd and any(s != ONE for s in val.shape):
        raise Unsupported("array value in mask write")
    vv = broadcast_to(val, arr.shape)
    res = ewise(masked, [m, vv, arr], arr.dtype)
    arr.write(res.pieces())


# ------------------------------------------------------------------ elementwise
def as_arr(x, dtype=None):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (list, tuple)):
        return from_list(x, dtype)
    if isinstance(x, CVal):
        dt = "complex128"
        return Arr.from_pieces((), dt, [(((ZERO, ONE),), E(x.re), ""), (((ONE, const(2)),), E(x.im), "")])
    if isinstance(x, (int, Fraction, Expr, bool)):
        return Arr.from_pieces((), dtype if dtype and not is_complex(dtype) else "float64", [((), E(x), "")])
    if getattr(x, "tname", None) == "float" and x.v == "inf":
        return Arr.from_pieces((), dtype if dtype and not is_complex(dtype) else "float64", [((), cas.INF, "")])
    raise Unsupported("array from %r" % (x,))


class CVal:
    """complex scalar"""

    def __init__(self, re, im):
        self.re, self.im = E(re), E(im)


def from_list(x, dtype=None):
    items = [as_arr(i, dtype) for i in x]
    if not items:
        return Arr.from_pieces((0,), dtype or "float64", [])
    return stack(items, dtype)


def stack(items, dtype=None, axis=0):
    sh = items[0].shape
    for i in items:
        if i.shape != sh:
            raise AbsRaise("ValueError", "inhomogeneous shape", Ctx.where())
    if dtype is None:
        dtype = items[0].dtype
        for i in items[1:]:
            dtype = promote(dtype, i.dtype)
    out = []
    n = len(sh)
    tgt = Arr.from_pieces((len(items),) + sh, dtype, [])
    for k, it in enumerate(items):
        for b, e, p in convert_parts(it, tgt):
            mp = {mk_atom("idx", (d,), True, True): idx(d + 1) for d in range(len(b))}
            out.append((((const(k), const(k + 1)),) + b, subst(e, mp), p))
    r = Arr.from_pieces((len(items),) + sh, dtype, out)
    if axis:
        r = copy(moveaxis(r, 0, axis))
    return r


NARROW_INTS = ("int8", "int16")       # narrower than any size or index the package has to hold
INTS = NARROW_INTS + ("int32", "int64")
_ORDER = ["bool", "int8", "int16", "int32", "int64", "float32", "float64", "complex64", "complex128"]
ITEMSIZE = {"float32": 4, "float64": 8, "complex64": 8, "complex128": 16, "int8": 1, "int16": 2, "int32": 4, "int64": 8, "bool": 1}


def wrap_int(e, dt):
    """value e stored in a narrow integer type: kept when concrete and in range, else a mark"""
    m = 1 << (8 * ITEMSIZE[dt] - 1)
    if e.is_const:
        v = e.value
        return const((int(v) + m) % (2 * m) - m) if v.denominator == 1 else cas.fn("wrap:" + dt, e)
    return cas.atom_expr(cas.mk_atom("fn", ("wrap:" + dt, e), True))


def promote(a, b):
    if a == b:
        return a
    s = {a, b}
    if "complex128" in s:
        return "complex128"
    if "complex64" in s:
        return "complex128" if ("float64" in s or "int64" in s) else "complex64"
    if "float64" in s:
        return "float64"
    if "float32" in s:
        o = (s - {"float32"}).pop()
        return "float64" if o in ("int64", "int32") else "float32"
    for n in ("int64", "int32", "int16"):
        if n in s:
            return n
    return a if a != "bool" else b


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = None
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if d is None or d == ONE:
                d = x
            elif x == ONE or x == d:
                pass
            else:
                raise AbsRaise("ValueError", "operands could not be broadcast together: %s" % (
                    " vs ".join(str(list(map(str, s))) for s in shapes)), Ctx.where())
        out.append(d)
    return tuple(out)


def broadcast_to(a, shape):
    shape = tuple(E(s) for s in shape)
    if a.shape == shape:
        return a
    k = len(shape) - a.nd
    if k < 0:
        raise AbsRaise("ValueError", "could not broadcast input array from shape %s into shape %s"
                       % (list(map(str, a.shape)), list(map(str, shape))), Ctx.where())
    vm = {}
    for j, s in enumerate(a.shape):
        t = shape[j + k]
        if s == t:
            vm[j] = (j + k, False)
        elif s == ONE:
            vm[j] = (None, True)
        else:
            raise AbsRaise("ValueError", "could not broadcast input array from shape %s into shape %s"
                           % (list(map(str, a.shape)), list(map(str, shape))), Ctx.where())
    nm = []
    for (j, c, off) in a.map:
        if j is None or j == "part":
            nm.append((j, c, off))
        else:
            nj, bc = vm[j]
            nm.append((None, 0, off) if bc else (nj, c, off))
    return Arr(a.base, shape, nm, a.dtype)


def refine(piece_lists):
    """common refinement; yields (box, [exprs], prov)"""
    cur = [(b, [e], p) for b, e, p in piece_lists[0]]
    for pl in piece_lists[1:]:
        if len(pl) == 1 and len(cur) >= 1:
            b2, e2, p2 = pl[0]
            if all(b == b2 for b, _, _ in cur) or len(cur) == 0:
                cur = [(b, es + [e2], p) for b, es, p in cur]
                continue
        nxt = []
        for b, es, p in cur:
            for b2, e2, p2 in pl:
                i = b if b == b2 else box_inter(b, b2)
                if b == b2 or not box_empty(i):
                    nxt.append((i, es + [e2], p))
        cur = nxt
    return cur


def ewise(f, arrs, dtype):
    """elementwise f over real arrays (same kind), broadcasting"""
    arrs, mask = unmask(arrs)
    if mask is not None:
        r = ewise(f, arrs, dtype)
        r.mask = mask
        return r
    sh = bshape([a.shape for a in arrs])
    ps = [broadcast_to(a, sh).pieces() for a in arrs]
    w = Ctx.where()
    out = [(b, f(*es), w) for b, es, p in refine(ps)]
    return Arr.from_pieces(sh, dtype, out)


def parts(a):
    """(re, im) real views/arrays of an Arr"""
    if not a.cplx:
        return a, None
    return part(a, 0), part(a, 1)


def part(a, k):
    nm = [(None, 0, const(k)) if j == "part" else (j, c, off) for (j, c, off) in a.map]
    return Arr(a.base, a.shape, nm, COMPLEX[a.dtype])


def join_parts(re, im, dtype):
    sh = bshape([re.shape, im.shape])
    out = []
    n = len(sh)
    for b, e, p in broadcast_to(re, sh).pieces():
        out.append((b + ((ZERO, ONE),), e, p))
    for b, e, p in broadcast_to(im, sh).pieces():
        out.append((b + ((ONE, const(2)),), e, p))
    return Arr.from_pieces(sh, dtype, out)


def copy(a, dtype=None):
    dt = dtype or a.dtype
    if a.mask is not None and dt == a.dtype:
        return ewise(lambda x: x, [a], dt)
    if is_complex(dt) != a.cplx:
        if a.cplx:
            raise Unsupported("complex to real cast")
        z = ewise(lambda x: ZERO, [a], COMPLEX[dt])
        return join_parts(a, z, dt)
    return Arr.from_pieces(a.shape, dt, cast_pieces(a.pieces(), a.dtype, dt), a.base.name)


def transpose(a, axes=None):
    axes = list(axes) if axes is not None else list(range(a.nd))[::-1]
    if len(axes) != a.nd:
        raise AbsRaise("ValueError", "axes don't match array", Ctx.where())
    if any(not -a.nd <= x < a.nd for x in axes):
        raise AbsRaise("AxisError", "axis out of bounds for array of dimension %d" % a.nd, Ctx.where())
    axes = [x % a.nd for x in axes]
    if len(set(axes)) != a.nd:
        raise AbsRaise("ValueError", "repeated axis in transpose", Ctx.where())
    inv = {old: new for new, old in enumerate(axes)}
    nm = [(j, c, o) if (j is None or j == "part") else (inv[j], c, o) for j, c, o in a.map]
    return Arr(a.base, [a.shape[x] for x in axes], nm, a.dtype)


def contiguous(a):
    """is the view C-contiguous memory?"""
    seen = set()
    tail = True          # everything after this base axis is covered completely
    last = None
    for d in range(len(a.map) - 1, -1, -1):
        j, c, off = a.map[d]
        n = a.base.shape[d]
        if j == "part":
            continue
        if j is None or a.shape[j] == ONE:
            if j is not None:
                seen.add(j)
            if n != ONE:
                tail = False
            continue
        seen.add(j)
        if c != 1 or not tail or (last is not None and j > last):
            return False
        last = j
        if a.shape[j] != n:
            tail = False
    return all(j in seen or s == ONE for j, s in enumerate(a.shape))


def moveaxis(a, src, dst):
    src = src % a.nd
    dst = dst % a.nd
    order = [x for x in range(a.nd) if x != src]
    order.insert(dst, src)
    return transpose(a, order)


class FlatBase(Base):
    """a contiguous array seen as one flat axis: reads and writes go to the original"""

    def __init__(self, shape, dtype, src, mp):
        self.src, self.mp = src, mp
        Base.__init__(self, shape, dtype, None, "flat")

    @property
    def pieces(self):
        ps = self.src.pieces()
        if len(ps) != 1:
            raise Unsupported("flat view over piecewise content")
        return [(full_box(self.shape), subst(ps[0][1], self.mp), ps[0][2])]

    @pieces.setter
    def pieces(self, v):
        if v is not None and v != self.pieces:
            raise Unsupported("write through a flat view")

    def write_box(self, box, expr, prov):
        if box != full_box(self.shape) or any(x.kind == "idx" for x in expr.all_atoms()):
            raise Unsupported("write through a flat view")
        self.src.write([(full_box(self.src.full_vshape()), expr, prov)], prov)


def reshape(a, shape):
    """reshape that only adds/removes unit axes or splits/merges trivially"""
    shape = [E(s) for s in shape]
    neg = [k for k, s in enumerate(shape) if s == const(-1)]
    tot = ONE
    for s in a.shape:
        tot = tot * s
    if neg:
        o = ONE
        for k, s in enumerate(shape):
            if k != neg[0]:
                o = o * s
        shape[neg[0]] = tot / o
    t2 = ONE
    for s in shape:
        t2 = t2 * s
    if t2 != tot:
        raise AbsRaise("ValueError", "cannot reshape array of shape %s into %s" % (
            list(map(str, a.shape)), list(map(str, shape))), Ctx.where())
    core_a = [(k, s) for k, s in enumerate(a.shape) if s != ONE]
    core_b = [(k, s) for k, s in enumerate(shape) if s != ONE]
    if [s for _, s in core_a] == [s for _, s in core_b]:
        mp = {ka: kb for (ka, _), (kb, _) in zip(core_a, core_b)}
        nm = []
        for j, c, o in a.map:
            if j is None or j == "part":
                nm.append((j, c, o))
            elif j in mp:
                nm.append((mp[j], c, o))
            else:
                nm.append((None, 0, o))
        return Arr(a.base, shape, nm, a.dtype)
    # merging with a flat row-major axis: linear index arithmetic (copy)
    ps = a.pieces()
    if len(ps) == 1 and not a.cplx and len(core_b) == 1:
        b, e, p = ps[0]
        k = core_b[0][0]
        rem = idx(k)
        mp = {}
        strides = []
        s = ONE
        for d in range(a.nd - 1, -1, -1):
            strides.append((d, s))
            s = s * a.shape[d]
        for d, st in strides[::-1]:
            q = cas.fn("floordiv", rem, st) if st != ONE else rem
            mp[mk_atom("idx", (d,), True, True)] = q
            if st != ONE:
                rem = rem - q * st
        if contiguous(a):
            return Arr.of(FlatBase(shape, a.dtype, a, mp))
        return Arr.from_pieces(shape, a.dtype, [(full_box(shape), subst(e, mp), p)])
    raise Unsupported("general reshape")


def reduce_sum(a, axis):
    """sum of a real array over one axis"""
    axis = axis % a.nd
    sh = [s for k, s in enumerate(a.shape) if k != axis]
    ps = a.pieces()
    # refine boxes in the remaining axes
    rest = []
    for b, e, p in ps:
        rb = tuple(x for k, x in enumerate(b) if k != axis)
        rest.append(rb)
    cells = [full_box(sh)]
    for rb in rest:
        nc = []
        for c in cells:
            i = box_inter(c, rb)
            if box_empty(i):
                nc.append(c)
                continue
            nc += box_diff(c, rb) + [i]
        cells = nc
    out = []
    w = Ctx.where()
    for c in cells:
        tot = ZERO
        for b, e, p in ps:
            rb = tuple(x for k, x in enumerate(b) if k != axis)
            i = box_inter(c, rb)
            if box_empty(i):
                continue
            lo, hi = b[axis]
            v = cas.fresh_bv()
            mp = {mk_atom("idx", (axis,), True, True): atom_expr(v)}
            for k in range(axis + 1, len(b)):
                mp[mk_atom("idx", (k,), True, True)] = idx(k - 1)
            body = subst(e, mp)
            tot = tot + cas.sum_over(v, lo, hi, body)
        out.append((c, tot, w))
    return Arr.from_pieces(sh, a.dtype, out)


# ------------------------------------------------------------------ comparison
def compare(p_got, p_want, nd, eq=None):
    """mismatches between two piecewise contents: (box, got, want, prov)"""
    out = []
    for b, (g, w), prov in refine([p_got, p_want]):
        g2, w2 = simp_in_box(g, b), simp_in_box(w, b)
        if g2 == w2:
            continue
        if (eq or cas.equal)(g2, w2):
            continue
        out.append((b, g2, w2, prov))
    return out


def pieces_equal(p1, p2):
    try:
        return not compare(p1, p2, None)
    except Undecidable:
        return False


_OPREG = {}


def op_find(op, arrs, extra=()):
    """the name already given to the result of op on these contents, if any"""
    ps = [a.pieces() for a in arrs]
    for nm, qs in _OPREG.get((op, extra, tuple(a.full_vshape() for a in arrs)), []):
        if all(len(compare(p, q, None)) == 0 for p, q in zip(ps, qs)):
            return nm
    return None


def op_name(op, arrs, extra=()):
    """interned name of the opaque result of op on array contents"""
    key = (op, extra, tuple(a.full_vshape() for a in arrs))
    nm = op_find(op, arrs, extra)
    if nm is not None:
        return nm
    ps = [a.pieces() for a in arrs]
    lst = _OPREG.setdefault(key, [])
    nm = "%s{%d}" % (op, sum(len(v) for k, v in _OPREG.items() if k[0] == op))
    lst.append((nm, ps))
    return nm


def op_lookup(name):
    for (op, extra, shp), lst in _OPREG.items():
        for nm, ps in lst:
            if nm == name:
                return op, extra, ps
    return None


def scalar_factor(a):
    """(f, pieces/f): common index-free monomial factor of the content"""
    ps = [(b, e, p) for b, e, p in a.pieces()]
    nz = [e for _, e, _ in ps if e.t]
    if not nz:
        return ONE, ps
    com = None
    for e in nz:
        c = dict(cas._common(e)) if len(e.t) > 1 else dict(next(iter(e.t)))
        c = {k: x for k, x in c.items() if k.kind == "sym" and not k.integer
             or (k.kind == "sym")}
        if com is None:
            com = c
        else:
            com = {k: x for k, x in com.items() if c.get(k) == x}
    cont = None
    num = [cas.content(e) for e in nz]
    q = num[0] if all(n == num[0] for n in num) else Fraction(1)
    sg = cas.lead_sign(nz[0])
    f = Expr({tuple(sorted(com.items(), key=lambda p: p[0].id)): q * sg})
    inv = cas.power(f, -1)
    return f, [(b, e * inv, p) for b, e, p in ps]
