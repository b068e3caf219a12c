"""Loops over a symbolic range and writes to data-dependent windows.

A loop body is interpreted once for a generic index L.  Its effect on every array is
generalised to the whole range when the iterations are independent (each array cell is
either accumulated to, or written by exactly one iteration); anything else is refused
(Unsupported) and the caller falls back to a concrete number of iterations."""
import ast

from . import arrays as A
from . import bounds, cas
from .arrays import AbsRaise, Arr, Base, Unsupported, box_empty
from .bounds import Undecidable
from .cas import E, ONE, ZERO, atom_expr, idx, ref, subst
from .interp import BreakEx, ContinueEx, Poison, SymRange


def sym_iterable(it, v):
    return v if isinstance(v, SymRange) else None


def stored_names(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def _run_body(it, st, sc, value, names):
    for n in names:
        if n in sc.vars:
            sc.vars[n] = Poison()
    it.assign_to(st.target, value, sc)
    n0 = it.dec_pos
    try:
        it.exec_block(st.body, sc)
    except ContinueEx:
        pass
    except BreakEx:
        raise Unsupported("break in a symbolic loop")
    if it.dec_pos != n0:
        raise Unsupported("undecided branch in a symbolic loop")


def _has(e, atom):
    return atom in e.all_atoms()


def _refs(e):
    return {a.args[0] for a in e.all_atoms() if a.kind == "ref"}


def symbolic_for(it, st, sc, s):
    lo, hi = E(s.lo), E(s.hi)
    if not it.truth(it.models.compare(ast.Lt(), lo, hi)):
        it.exec_block(st.orelse, sc)
        return
    L = cas.fresh_bv()
    Lx = atom_expr(L)
    nf = len(bounds.FACTS)
    bounds.FACTS.append(hi - 1 - Lx)
    if lo.t:
        bounds.FACTS.append(Lx - lo)
    names = stored_names(st.body)
    saved_vars = dict(sc.vars)
    outer = Base.LOG
    it.sym_depth = getattr(it, "sym_depth", 0) + 1
    try:
        # which arrays does the body write?
        Base.LOG = log = {}
        born = Base._n
        ev0 = len(it.events)
        _run_body(it, st, sc, Lx, names)
        orig = {b: ps for b, ps in log.items() if b.uid <= born}
        for b, ps in log.items():
            b.pieces = ps
        del it.events[ev0:]
        for n in names:
            if n in saved_vars:
                sc.vars[n] = saved_vars[n]
        # what does one iteration do to arbitrary content?
        own = {}
        for b in orig:
            nm = "@it%d_%d" % (b.uid, id(st) % 100000)
            own[b] = ref(nm, [idx(d) for d in range(b.nd)])
            b.pieces = [(A.full_box(b.shape), own[b], "")]
        Base.LOG = {}
        _run_body(it, st, sc, Lx, names)
        marks = {next(iter(_refs(e))) for e in own.values()}
        plan = []
        for b in orig:
            changes = []
            for box, e, prov in b.pieces:
                if e == own[b]:
                    continue
                at = [d for d, (l, h) in enumerate(box) if _has(l, L) or _has(h, L)]
                if len(at) > 1 or at and not (box[at[0]][0] - Lx).is_const:
                    raise Unsupported("loop writes a diagonal or scaled region")
                delta = e - own[b]
                add = not (_refs(delta) & marks)
                if not add and _refs(e) & marks:
                    raise Unsupported("loop iterations depend on each other")
                changes.append((box, e, delta, add, at, prov))
            plan.append((b, changes))
        for b in orig:
            b.pieces = orig[b]
        Base.LOG = outer
        for b, changes in plan:
            for box, e, delta, add, at, prov in changes:
                if at:
                    d = at[0]
                    off, ln = box[d][0] - Lx, box[d][1] - box[d][0]
                    if ln != ONE:
                        raise Unsupported("loop writes overlapping slabs")
                    mp = {L: idx(d) - off}
                    nb = list(box)
                    nb[d] = (lo + off, hi + off)
                    nb = tuple(nb)
                    del bounds.FACTS[nf:]
                    inside = bounds.try_le(ZERO, nb[d][0]) and bounds.try_le(nb[d][1], b.shape[d])
                    if not inside:
                        raise AbsRaise("IndexError", "loop index out of bounds", prov)
                    if add:
                        for ob, oe, _ in A.pieces_read(b.snapshot(), nb):
                            b.write_box(ob, oe + subst(delta, mp), prov)
                    else:
                        b.write_box(nb, subst(e, mp), prov)
                elif add:
                    if it.parallel_loop(s) and _has(delta, L):
                        it.events.append(("race", b, prov))
                    tot = cas.sum_over(L, lo, hi, delta)
                    for ob, oe, _ in A.pieces_read(b.snapshot(), box):
                        b.write_box(ob, oe + tot, prov)
                else:
                    if it.parallel_loop(s):
                        it.events.append(("race", b, prov))
                    b.write_box(box, subst(e, {L: hi - 1}), prov)
    finally:
        it.sym_depth -= 1
        del bounds.FACTS[nf:]
        Base.LOG = outer
    for n in names | {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}:
        sc.vars[n] = Poison()
    it.exec_block(st.orelse, sc)


# ------------------------------------------------------------------ data-dependent windows
def data_dep(e):
    return any(a.kind in ("ref", "fn") for a in e.all_atoms())


def window_write(arr, vb, e, prov):
    """write of expression e over view box vb when the region depends on data: the new content
    is old + sum over window cells of [cell index] * (value - old); True when handled"""
    D = []
    bb = arr.inverse_box(vb)
    for d, (l, h) in enumerate(bb):
        if data_dep(l) or data_dep(h):
            D.append(d)
    if not D:
        return False
    base = arr.base
    lens = []
    for d in D:
        n = bb[d][1] - bb[d][0]
        if not n.is_const or n.value > 64:
            raise Unsupported("data-dependent window of symbolic length")
        lens.append(int(n.value))
    tot = 1
    for n in lens:
        tot *= n
    if tot > 4096:
        raise Unsupported("large data-dependent window")
    if tot == 0:
        return True
    mp = {}
    for d, (j, c, off) in enumerate(arr.map):
        if j is not None and d not in D:
            if c not in (1, -1):
                raise Unsupported("strided write")
            mp[cas.mk_atom("idx", (arr._vax(j),), True, True)] = (idx(d) - off) * c
    vax = {}
    for d in D:
        j, c, off = arr.map[d]
        if j is not None:
            if c != 1:
                raise Unsupported("reversed data-dependent window")
            vax[d] = cas.mk_atom("idx", (arr._vax(j),), True, True)
    box = tuple((ZERO, base.shape[d]) if d in D else bb[d] for d in range(base.nd))
    if box_empty(box):
        return True
    old = A.pieces_read(base.pieces, box)
    for ob, oe, _ in old:
        if any(ob[d] != (ZERO, base.shape[d]) for d in D):
            raise Unsupported("data-dependent window over piecewise content")
    import itertools
    news = []
    for ob, oe, _ in old:
        ne = oe
        for js in itertools.product(*[range(n) for n in lens]):
            m1, m2, on = dict(mp), {}, ONE
            for d, j in zip(D, js):
                pos = bb[d][0] + j
                if d in vax:
                    m1[vax[d]] = vb[arr._vax(arr.map[d][0])][0] + j
                m2[cas.mk_atom("idx", (d,), True, True)] = pos
                on = on * cas.zero(idx(d) - pos)
            m1 = {a: v for a, v in m1.items() if v != atom_expr(a)}
            delta = subst(e, m1) - subst(oe, m2)
            ne = ne + on * delta
        news.append((ob, ne))
    for ob, ne in news:
        base.write_box(ob, ne, prov)
    return True
