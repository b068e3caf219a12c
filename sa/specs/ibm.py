"""Immersed-boundary operators: grid communication, weights, virtual-boundary and Brinkmann forcing."""
import itertools
from fractions import Fraction

from .. import arrays as A
from .. import bounds, cas
from ..arrays import AbsRaise, Arr, Base, SliceV, Unsupported, getitem
from ..bounds import Undecidable
from ..cas import E, ONE, ZERO, const, fn, idx, mk_atom, ref, subst
from ..core import anchor, clip, diff_pieces, isym, run_paths, show_diff, symarr
from ..interp import DT, Inst
from . import spec
from .run import Exact, F32, F64

PKG = "sopht.numeric.immersed_boundary_ops"
KN, TH, KA = "nearest", "theta", "cell"
cas.ANY_INT.add(KA)
cas.INT_REFS.add(KN)
cas.UNIT.add(TH)
bounds.REF_LB[KN] = 1
DX = cas.sym("dx_ib", nonneg=True)
SHIFT = cas.sym("shift_ib", nonneg=True)
NAMES = {2: ("ny", "nx"), 3: ("nz", "ny", "nx")}


def grid(dim, conc=None):
    return tuple(conc) if conc else tuple(isym(n) for n in NAMES[dim])


def nodes(n=None):
    return E(n) if n else isym("num_lag", 1)


def zero_sets(dim, tier="quick"):
    """which components of the node offset inside its cell are zero (node on a grid line)"""
    out = [frozenset()] + [frozenset([d]) for d in range(dim)] + [frozenset(range(dim))]
    return out


def theta(d, i, zs=frozenset()):
    return ZERO if d in zs else ref(TH, [d, i])


def near(d, i):
    return ref(KN, [d, i])


def axis_of(dim, d):
    """window/grid axis of coordinate component d (x=0 is the last axis)"""
    return dim - 1 - d


def positions(dim, N, dtype, zs=frozenset(), shift=SHIFT, dx=DX):
    """every node position: shift + dx*(K + theta), K any integer (the cell index), 0 <= theta < 1"""
    ps = []
    for d in range(dim):
        ps.append(((const(d), const(d + 1)), (ZERO, N)))
    pieces = [(b, shift + dx * (ref(KA, [d, idx(1)]) + theta(d, idx(1), zs)), "") for d, b in enumerate(ps)]
    b = Base((const(dim), N), dtype, pieces, "lag_positions")
    b.init = list(pieces)
    return Arr.of(b)


def near_array(dim, N):
    b = Base.symbolic(KN, (dim, N), "int64")
    return Arr.of(b)


def win_shape(dim, w):
    return (2 * w,) * dim


def support_want(dim, w, N, zs):
    sh = (const(dim),) + tuple(const(s) for s in win_shape(dim, w)) + (N,)
    ps = []
    for d in range(dim):
        box = ((const(d), const(d + 1)),) + A.full_box(sh[1:])
        ps.append((box, DX * (idx(1 + axis_of(dim, d)) - w + 1 - theta(d, idx(dim + 1), zs)), ""))
    return ps


def support_cells(dim, N, zs):
    """the same content as support_want for width 2, window cell by window cell"""
    ps = []
    for d in range(dim):
        ax = 1 + axis_of(dim, d)
        for j in range(4):
            box = [(const(d), const(d + 1))] + [(ZERO, const(4))] * dim + [(ZERO, N)]
            box[ax] = (const(j), const(j + 1))
            ps.append((tuple(box), DX * (const(j - 1) - theta(d, idx(dim + 1), zs)), ""))
    return ps


def comm(it, dim, N, w=2, real=F64, ncomp=1, kind=None, **kw):
    C = anchor(it, PKG, "EulerianLagrangianGridCommunicator%dD" % dim)
    k = dict(dx=DX, eul_grid_coord_shift=SHIFT, num_lag_nodes=pn(N), interp_kernel_width=w, real_t=real, n_components=ncomp)
    if kind:
        k["interp_kernel_type"] = kind
    k.update(kw)
    if kw or w != 2:
        return it.call(C, [], k)
    alts = [dict(interp_kernel_type="cosine" if kind == "peskin" else "peskin")]
    alts += [dict(real_t=F32 if real is F64 else F64), dict(n_components=dim if ncomp == 1 else 1)]
    return among(it, C, k, alts)


TURN = [0]


def among(it, gen, k, alts=()):
    """what gen makes of k while others make, before and after, objects that share all parameters but one"""
    alts = list(alts)
    for n, name in (("dx", "dx_other"), ("eul_grid_coord_shift", "shift_other")):
        if n in k:
            alts.append({n: cas.sym(name, nonneg=True)})
    if k["num_lag_nodes"] is not None:
        alts.append({"num_lag_nodes": k["num_lag_nodes"] + 1})
    every = {}
    for a in alts:
        every.update(a)
    # something kept under too small a key is found whichever parameter the key forgets: each comes first in some run
    TURN[0] += 1
    r = TURN[0] % len(alts)
    for a in [every] + alts[r:] + alts[:r]:
        it.call(gen, [], dict(k, **a))
    c = it.call(gen, [], k)
    for a in alts[::-1]:
        it.call(gen, [], dict(k, **a))
    return c


def exact(real, f):
    """a process of its own; double-precision runs in which every rounding to single precision leaves a mark in the value"""
    def g(it):
        it.modules.clear()
        if real is not F64:
            return f(it)
        with Exact():
            return f(it)
    return g


def pn(N):
    return int(N.value) if N.is_const else N


def generic_or_counts(rep, job, tier):
    """job(N) for a symbolic number of nodes; concrete counts when the code is outside the loop rules"""
    from .. import core
    core.DEFER[0] = False
    try:
        n0, v0 = len(rep.obl), len(rep.viol)
        job(nodes())
        return
    except (Unsupported, Undecidable) as ex:
        core.interp().frames.clear()
        del rep.obl[n0:], rep.viol[v0:]
        rep.stats["node_count_fallback"] = str(ex)[:120]
    finally:
        core.DEFER[0] = True
    for n in (1, 2) if tier != "thorough" else (1, 2, 3):
        job(nodes(n))


def same(rep, nm, rule, arr, want, conds, what=""):
    d = diff_pieces(arr.base.pieces, want, conds)
    rep.check(not d, nm + what, rule, d[0][3] if d else "", show_diff(d))


def unchanged(rep, nm, arrs, conds):
    r = "input arrays hold the same content after the call"
    for n, a in arrs.items():
        same(rep, nm, r, a, a.base.init, conds, "/" + n)


def races(rep, nm, it):
    ev = [e for e in it.events if e[0] == "race"]
    rep.check(not ev, nm + "/threads", "no array cell is updated by two iterations of a loop run by several threads",
              ev[0][2] if ev else "", "parallel loop accumulates into %s" % (ev[0][1].name if ev else ""))


def raised(rep, nm, r):
    if isinstance(r, AbsRaise):
        rep.fail(nm, "the call succeeds on every admissible input", r.where or "", str(r))
        return True
    return False


# ---------------------------------------------------------------- C24
@spec("C24", min_obl=30)
def c24(rep, tier):
    r_near = "nearest index of a node at shift + dx*(K + theta), 0 <= theta < 1, is K in every component"
    r_sup = "support entry (d, window cell, node) is the d-th coordinate of that grid point minus the node's"

    def job(dim, w, real, zs, shift):
        def go(N):
            nm = "support%dD[width=%d,%s,on grid line: %s,nodes=%s]" % (dim, w, real.name, sorted(zs) or "none", N)

            def f(it):
                if w == 2:
                    k = it.getattr(comm(it, dim, N, w, real), "local_eulerian_grid_support_of_lagrangian_grid_kernel")
                else:
                    g = generator(it, dim, "generate_local_eulerian_grid_support_of_lagrangian_grid_kernel_%dd")
                    k = among(it, g, dict(dx=DX, eul_grid_coord_shift=SHIFT, num_lag_nodes=pn(N), interp_kernel_width=w),
                              [dict(interp_kernel_width=w + 1)])
                sup = symarr("sup0", (dim,) + win_shape(dim, w) + (N,), real.name)
                nr = symarr("near0", (dim, N), "int64")
                pos = positions(dim, N, real.name, zs)
                it.call(k, [], dict(local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=nr, lag_positions=pos))
                return sup, nr, pos
            for conds, it, r in run_paths(exact(real, f)):
                rep.absorb(it)
                if raised(rep, nm, r):
                    continue
                sup, nr, pos = r
                kn = Base.symbolic(KA, (dim, N), "int64")
                same(rep, nm, r_near, nr, kn.pieces, conds, "/nearest index")
                same(rep, nm, r_sup, sup, support_want(dim, w, N, zs), conds, "/support")
                unchanged(rep, nm, {"lag_positions": pos}, conds)
                races(rep, nm, it)
        return go
    for dim in (2, 3):
        for w in ((2,) if tier != "thorough" else (1, 2, 3)):
            for real in (F64, F32):
                for zs in zero_sets(dim):
                    if w != 2 and not has_generator(dim, "generate_local_eulerian_grid_support_of_lagrangian_grid_kernel_%dd"):
                        continue
                    generic_or_counts(rep, job(dim, w, real, zs, SHIFT), tier)


def module(dim):
    return PKG + ".EulerianLagrangianGridCommunicator%dD" % dim


def generator(it, dim, name):
    return anchor(it, module(dim), name % dim)


def has_generator(dim, name):
    from ..core import interp, AnchorLost
    try:
        it = interp()
        it.frames.clear()
        generator(it, dim, name)
        return True
    except (AnchorLost, AbsRaise):
        return False


# ---------------------------------------------------------------- C25
def cells(dim, w):
    return itertools.product(range(2 * w), repeat=dim)


def interp_want(dim, w, N, U, W, lead, dx=DX, node_axis=0):
    """sum over the window of field * weight * cell volume, at node idx(node_axis)"""
    i = idx(node_axis)
    tot = ZERO
    for j in cells(dim, w):
        at = [near(dim - 1 - a, i) - w + 1 + j[a] for a in range(dim)]
        tot = tot + U(*(lead + at)) * W(*(list(j) + [i]))
    return tot * cas.power(dx, dim)


def spread_want(dim, w, N, val, W, lead):
    """what is added at grid point (idx(lead..)): sum over nodes of value * weight of that window cell"""
    L = cas.fresh_bv()
    i = cas.atom_expr(L)
    body = ZERO
    for j in cells(dim, w):
        on = ONE
        for a in range(dim):
            on = on * cas.zero(idx(lead + a) - (near(dim - 1 - a, i) - w + 1 + j[a]))
        body = body + on * val(i) * W(*(list(j) + [i]))
    if N.is_const:
        tot = ZERO
        for k in range(int(N.value)):
            tot = tot + subst(body, {L: const(k)})
        return tot
    return cas.sum_over(L, ZERO, N, body)


@spec("C25", min_obl=40)
def c25(rep, tier):
    r_in = "interpolated value = sum over the support window of field * weight * dx^dim, per node and component"
    r_sp = "spreading adds, at every grid point, the sum over nodes of value * weight and changes nothing else"

    def job(dim, w, real, nc):
        def go(N):
            g = grid(dim)
            nm0 = "%dD[width=%d,%s,components=%d,nodes=%s]" % (dim, w, real.name, nc, N)
            pre = () if nc == 1 else (nc,)

            def kern(it, which):
                if w == 2:
                    return it.getattr(comm(it, dim, N, w, real, nc), which)
                alts = [dict(interp_kernel_width=w + 1), dict(n_components=1 if nc > 1 else dim)]
                if which.startswith("eul"):
                    return among(it, generator(it, dim, "generate_eulerian_to_lagrangian_grid_interpolation_kernel_%dd"),
                                 dict(dx=DX, num_lag_nodes=pn(N), interp_kernel_width=w, n_components=nc), alts)
                return among(it, generator(it, dim, "generate_lagrangian_to_eulerian_grid_interpolation_kernel_%dd"),
                             dict(num_lag_nodes=pn(N), interp_kernel_width=w, n_components=nc), alts)

            def f(which):
                def f_(it):
                    k = kern(it, which)
                    a = dict(lag_grid_field=symarr("lag", pre + (N,), real.name), eul_grid_field=symarr("eul", pre + g, real.name),
                             interp_weights=symarr("wt", win_shape(dim, w) + (N,), real.name),
                             nearest_eul_grid_index_to_lag_grid=near_array(dim, N))
                    it.call(k, [], a)
                    return a
                return f_
            bounds.REF_LB[KN] = max(w - 1, 0)
            W = lambda *ix: ref("wt", ix)
            nm = "interpolation" + nm0
            for conds, it, r in run_paths(exact(real, f("eulerian_to_lagrangian_grid_interpolation_kernel"))):
                rep.absorb(it)
                if raised(rep, nm, r):
                    continue
                ps = []
                for c in range(nc):
                    lead = [const(c)] if pre else []
                    box = (((const(c), const(c + 1)),) if pre else ()) + ((ZERO, N),)
                    ps.append((box, interp_want(dim, w, N, lambda *ix: ref("eul", ix), W, lead, node_axis=len(pre)), ""))
                same(rep, nm, r_in, r["lag_grid_field"], ps, conds)
                unchanged(rep, nm, {k: a for k, a in r.items() if k != "lag_grid_field"}, conds)
                races(rep, nm, it)
            nm = "spreading" + nm0
            for conds, it, r in run_paths(exact(real, f("lagrangian_to_eulerian_grid_interpolation_kernel"))):
                rep.absorb(it)
                if raised(rep, nm, r):
                    continue
                b = r["eul_grid_field"].base
                lead = [idx(0)] if pre else []
                add = spread_want(dim, w, N, lambda i: ref("lag", lead + [i]), W, len(pre))
                old = ref("eul", [idx(d) for d in range(b.nd)])
                same(rep, nm, r_sp, r["eul_grid_field"], [(A.full_box(b.shape), old + add, "")], conds)
                unchanged(rep, nm, {k: a for k, a in r.items() if k != "eul_grid_field"}, conds)
                races(rep, nm, it)
        return go
    G = "generate_eulerian_to_lagrangian_grid_interpolation_kernel_%dd"
    for dim in (2, 3):
        for w in ((1, 2) if tier != "thorough" else (1, 2, 3)):
            if w != 2 and not has_generator(dim, G):
                continue
            for real in (F64, F32):
                for nc in (1, dim):
                    generic_or_counts(rep, job(dim, w, real, nc), tier)


# ---------------------------------------------------------------- C26
def delta1d(kind, j, th):
    """one-dimensional smoothed delta function times dx at signed distance j - th (grid units)"""
    r = cas.absval(j - th)
    if kind == "cosine":
        return (ONE + fn("cos", cas.PI * Fraction(1, 2) * r)) * Fraction(1, 4)
    inner = const(3) - 2 * r + cas.power(1 + 4 * r - 4 * r * r, Fraction(1, 2))
    outer = const(5) - 2 * r - cas.power(-7 + 12 * r - 4 * r * r, Fraction(1, 2))
    s = cas.sign_of(1 - r)
    if s is None:
        raise Undecidable("kernel branch at %s" % r)
    return (inner if s in (1, 2) else outer) * Fraction(1, 8)


def weight_want(kind, dim, j, zs, node):
    out = cas.power(DX, -dim)
    for a in range(dim):
        d = dim - 1 - a
        out = out * delta1d(kind, E(j[a] - 1), theta(d, node, zs))
    return out


@spec("C26", min_obl=60)
def c26(rep, tier):
    rule = "weight of a window cell = product over components of the one-dimensional smoothed delta function, divided by dx^dim"

    def job(dim, real, kind, zs):
        def go(N):
            nm = "weights%dD[%s,%s,on grid line: %s,nodes=%s]" % (dim, kind or "default", real.name, sorted(zs) or "none", N)

            def f(it):
                k = it.getattr(comm(it, dim, N, 2, real, 1, kind), "interpolation_weights_kernel")
                ps = support_cells(dim, N, zs)
                sup = Arr.of(Base((const(dim),) + tuple(const(4) for _ in range(dim)) + (N,), real.name, ps, "support"))
                wt = symarr("wt0", win_shape(dim, 2) + (N,), real.name)
                it.call(k, [], dict(interp_weights=wt, local_eul_grid_support_of_lag_grid=sup))
                return wt
            bounds.REF_LB[KN] = 1
            for conds, it, r in run_paths(exact(real, f)):
                rep.absorb(it)
                if raised(rep, nm, r):
                    continue
                races(rep, nm, it)
                for j in cells(dim, 2):
                    v = getitem(r, tuple(j) + (SliceV(None, None, None),))
                    want = [(((ZERO, N),), weight_want(kind or "cosine", dim, j, zs, idx(0)), "")]
                    d = diff_pieces(v.pieces(), want, conds)
                    rep.check(not d, nm + "/cell %s" % (j,), rule, d[0][3] if d else "", show_diff(d, 1))
        return go
    for dim in (2, 3):
        for kind in ("cosine", "peskin", None):
            for real in (F64, F32):
                if real is F32 and kind is None:
                    continue
                for zs in zero_sets(dim):
                    if kind is None and zs:
                        continue
                    generic_or_counts(rep, job(dim, real, kind, zs), tier)
