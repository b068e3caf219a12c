"""Poisson solvers and FFT wrappers."""
import itertools

from .. import arrays as A
from .. import bounds, cas
from ..arrays import AbsRaise, Arr, SliceV, getitem
from ..cas import E, Expr, ONE, ZERO, const, fn, idx, mk_atom, ref, subst
from ..core import F, Want, anchor, clip, diff_pieces, isym, run_paths, show_diff, symarr
from ..interp import DT
from . import spec
from .run import F32, F64

PKG = "sopht.numeric.eulerian_grid_ops.poisson_solver_%dd"
X = cas.sym("X", nonneg=True)
NAMES = {2: ("ny", "nx"), 3: ("nz", "ny", "nx")}
GRID = {2: ("grid_size_y", "grid_size_x"), 3: ("grid_size_z", "grid_size_y", "grid_size_x")}


def dims(dim, conc=None):
    return tuple(conc) if conc else tuple(isym(n) for n in NAMES[dim])


def make(it, dim, name, sh, **kw):
    C = anchor(it, PKG % dim, name)
    k = dict(zip(GRID[dim], sh))
    k.update(kw)
    return it.call(C, [], k)


def refs(e):
    return [a for a in e.atoms() if a.kind == "ref"]


def opname(a):
    return a.args[0].split("{")[0]


# ---------------------------------------------------------------- solution structure
class Shape(Exception):
    pass


def linear_in(e, op, nd):
    """e = c * op{k}[i0..]: returns (c, name, index)"""
    rs = {a for a in refs(e) if opname(a) == op}
    if len(rs) != 1:
        raise Shape("not a single %s term: %s" % (op, clip(e)))
    a = rs.pop()
    r = cas.atom_expr(a)
    c = e / r
    if a in c.all_atoms():
        raise Shape("not linear in %s: %s" % (op, clip(e)))
    return c, a.args[0], a.args[1]


def full_content(pieces, part, vshape):
    """content of one complex part over the whole visible extent"""
    out = []
    for b, e, p in pieces:
        lo, hi = b[-1]
        if bounds.le(lo, const(part)) and bounds.le(const(part + 1), hi):
            out.append((b[:-1], subst(e, {mk_atom("idx", (len(b) - 1,), True, True): const(part)})))
    if len(out) != 1 or any(l.t or h != s for (l, h), s in zip(out[0][0], vshape)):
        raise Shape("spectral content is piecewise: %s" % [A.box_str(b) for b, _ in out])
    return out[0][1]


def op_content(name):
    op, extra, ps = A.op_lookup(name)
    for key, lst in A._OPREG.items():
        if key[0] == op:
            for nm, _ in lst:
                if nm == name:
                    return op, extra, ps[0], key[2][0]
    raise Shape("unknown operator " + name)


def axes_extra(dim):
    return tuple(range(dim)) + ("half", dim - 1)


def convolution_of(e, dim, sh):
    """solution cell expression -> (coefficient, padded operand names)"""
    c, nm, ix = linear_in(e, "irfftn", dim)
    if tuple(ix) != tuple(idx(d) for d in range(dim)):
        raise Shape("solution is read at cell %s of the convolution" % (list(map(str, ix)),))
    op, extra, ps, vsh = op_content(nm)
    if extra[:-1] != axes_extra(dim):
        raise Shape("inverse transform over axes %s" % (extra[:-1],))
    M = extra[-1]
    vis = vsh[:dim]
    re, im = full_content(ps, 0, vis), full_content(ps, 1, vis)
    names = sorted({a.args[0] for a in refs(re) if opname(a) == "rfftn"})
    if len(names) != 2:
        raise Shape("the spectral product does not combine two transforms: %s" % clip(re))
    a, b = names
    here = [idx(d) for d in range(dim)]
    r = lambda n, k: ref(n, here + [const(k)])
    a0b0 = r(a, 0) * r(b, 0)
    key = next(iter(a0b0.t))
    f = ZERO
    for m, cc in re.t.items():
        d = dict(m)
        if all(d.get(x) == 1 for x, _ in key):
            f = f + Expr({tuple((x, y) for x, y in m if x not in dict(key)): cc})
    if refs(f) or any(x.kind == "idx" for x in f.all_atoms()):
        raise Shape("spectral factor depends on the mode: %s" % clip(f))
    if not cas.equal(re, f * (r(a, 0) * r(b, 0) - r(a, 1) * r(b, 1))):
        raise Shape("real part of the spectral product is %s" % clip(re))
    if not cas.equal(im, f * (r(a, 0) * r(b, 1) + r(a, 1) * r(b, 0))):
        raise Shape("imaginary part of the spectral product is %s" % clip(im))
    return c * f, (a, b), M


def order_facts(sh, off):
    out = []
    for d, n in enumerate(sh):
        out.append(n - 1 - off[d] - idx(d))
    return out


def sgn(e):
    """sign of an expression under the current ordering facts (common positive factors removed)"""
    s = cas.sign_of(e)
    if s in (1, -1, 0):
        return s
    if len(e.t) > 1:
        com = cas._common(e)
        if com and all(a.nonneg for a, _ in com):
            e2 = e * Expr({tuple((a, -x) for a, x in com): cas.Fraction(1)})
        else:
            e2 = e
        # clear remaining denominators made of positive atoms
        den = {}
        for m in e2.t:
            for a, x in m:
                if x < 0 and a.nonneg:
                    den[a] = max(den.get(a, 0), -x)
        for a, x in den.items():
            e2 = e2 * cas.power(cas.atom_expr(a), x)
        com = cas._common(e2)
        if com and all(a.nonneg for a, _ in com):
            e2 = e2 * Expr({tuple((a, -x) for a, x in com): cas.Fraction(1)})
        c = cas.content(e2)
        if c:
            e2 = e2 * (1 / c)
        if bounds.try_le(ONE, e2):
            return 1
        if bounds.try_le(e2, const(-1)):
            return -1
        if not e2.t:
            return 0
    return None


def green_want(dim, dx):
    r2 = ZERO
    for d in range(dim):
        r2 = r2 + idx(d) * idx(d)
    r = dx * cas.power(r2, cas.Fraction(1, 2))
    if dim == 2:
        return -fn("log", r) / (2 * cas.PI), -(2 * fn("log", dx / cas.power(cas.PI, cas.Fraction(1, 2))) - 1) / (4 * cas.PI)
    return 1 / (4 * cas.PI * r), 1 / (4 * cas.PI * dx)


def normlog(e):
    """logarithms of products split into sums (the arguments are positive)"""
    e = E(e)
    mp = {}
    for a in e.all_atoms():
        if a.kind == "fn" and a.args[0] == "log":
            mp[a] = split_log(a.args[1])
    return subst(e, mp) if mp else e


def split_log(x):
    """sum of LOG(prime-like factors)"""
    x = E(x)
    if len(x.t) > 1:
        com = tuple((z, w) for z, w in cas._common(x) if z.nonneg)
        ct = cas.content(x)
        rest = x * Expr({tuple((z, -w) for z, w in com): 1 / ct})
        out = lg(rest)
        m, c = com, ct
    else:
        (m, c), = x.t.items()
        out = ZERO
    if c != 1:
        out = out + fn("log", const(c))
    for at, k in m:
        k = cas.Fraction(k)
        out = out + k * (split_log(at.args[0]) if at.kind == "poly" and not at.args[0].is_const else lg(cas.atom_expr(at)))
    return out


def lg(x):
    return cas.atom_expr(mk_atom("fn", ("LOG", E(x))))


def kernel_differences(pieces, pshape, dim, sh, dx, scale):
    """compare the periodic kernel at every offset reachable inside the domain with the free-space one"""
    want, want0 = green_want(dim, dx)
    arr = Arr.from_pieces(pshape, "float64", pieces)
    out = []
    n_cells = 0
    for signs in itertools.product((1, -1), repeat=dim):
        ix = tuple(SliceV(None, sh[d], None) if s > 0 else SliceV(pshape[d] - 1, pshape[d] - sh[d], -1) for d, s in enumerate(signs))
        v = getitem(arr, ix)
        off = [0 if s > 0 else 1 for s in signs]
        wmap = {mk_atom("idx", (d,), True, True): idx(d) + off[d] for d in range(dim)}
        todo = [x for x in v.pieces() if not A.box_empty(x[0])][::-1]
        while todo:
            b, e, p = todo.pop()
            f0 = len(bounds.FACTS)
            bounds.FACTS.extend(order_facts(sh, off))
            # inside the box
            for d, (lo, hi) in enumerate(b):
                bounds.FACTS.append(idx(d) - lo)
                bounds.FACTS.append(hi - 1 - idx(d))
            try:
                g = A.simp_in_box(e * scale, b)
                g = cas.resolve_signs(g, sgn)
                sp = A.split_corner_of(b, g, p)
                if sp and len(sp) > 1:
                    todo += [(x, y / scale, z) for x, y, z in sp]
                    continue
                if sp:
                    g = sp[0][1]
                n_cells += 1
                origin = all(s > 0 for s in signs) and all((hi - lo) == ONE and not lo.t for lo, hi in b)
                w = want0 if origin else A.simp_in_box(subst(want, wmap), b)
                if not origin and all(s > 0 for s in signs) and all(not lo.t for lo, hi in b):
                    out.append((b, g, "box contains the singular offset without the regularised value", signs, p))
                    continue
                if cas.equal(g, w) or cas.equal(normlog(g), normlog(w)):
                    continue
                out.append((b, g, w, signs, p))
            finally:
                del bounds.FACTS[f0:]
    return out, n_cells


def check_unbounded(rep, nm, dim, sol, rhs_name, rhs_index, sh, conds, sol_index=()):
    """solution array holds dx^d * sum_k G(i-k) rhs[k]"""
    r_form = "the solution is the linear convolution of the zero-padded right-hand side with the free-space kernel, times the cell volume"
    r_pad = "the transformed operand equals the right-hand side on the domain and zero on the padding, and the padding is long enough for every offset"
    r_ker = "at every offset between two cells of the domain the kernel equals the free-space Green's function of -laplacian (regularised at zero offset)"
    rules = (r_form, r_pad, r_ker)
    dx = X / sh[-1]
    v = getitem(sol, sol_index) if sol_index else sol
    ps = [(b, e, p) for b, e, p in v.pieces() if not A.box_empty(b)]
    try:
        cover = len(ps) == 1 and all(not l.t and h == s for (l, h), s in zip(ps[0][0], sh))
        exprs = {e for _, e, _ in ps}
        if len(exprs) != 1 or not (cover or sum(1 for _ in ps)):
            raise Shape("solution is piecewise: " + "; ".join("%s: %s" % (A.box_str(b), clip(e, 120)) for b, e, _ in ps))
        e = exprs.pop()
        coef, (a, b), M = convolution_of(e, dim, sh)
    except Shape as ex:
        rep.fail(nm + "/convolution", r_form, ps[0][2] if ps else "", str(ex))
        return
    cont = {n: op_content(n) for n in (a, b)}
    which = [n for n in (a, b) if any(at.args[0] == rhs_name for _, e2, _ in cont[n][2] for at in refs(e2))]
    if len(which) != 1:
        rep.fail(nm + "/convolution", r_form, ps[0][2], "operands depending on the right-hand side: %s" % which)
        return
    rn = which[0]
    gn = b if rn == a else a
    rep.check(cont[rn][1] == axes_extra(dim) and cont[gn][1] == axes_extra(dim), nm + "/convolution", r_form, ps[0][2],
              "forward transforms over axes %s and %s" % (cont[rn][1], cont[gn][1]))
    # padding
    psh = cont[rn][3]
    ok = cont[gn][3] == psh and tuple(M) == tuple(psh)
    rep.check(ok, nm + "/transform sizes", r_pad, ps[0][2], "operand extents %s, %s and inverse extent %s differ" % (psh, cont[gn][3], M))
    if not ok:
        return
    rep.check(all(bounds.try_le(2 * n - 1, m) for n, m in zip(sh, psh)), nm + "/padding length", r_pad, ps[0][2], "periodic extent %s" % list(map(str, psh)))
    pad = A.Base(psh, "float64", [(A.full_box(psh), ZERO, "")])
    # factor carried by the transformed operand
    lead = None
    for bx, ee, _ in cont[rn][2]:
        if ee.t:
            lead = ee / F(rhs_name, *rhs_index, *[idx(d) for d in range(dim)])
            break
    if lead is None or refs(lead):
        rep.fail(nm + "/padding", r_pad, ps[0][2], "operand content %s" % [(A.box_str(bx), clip(ee, 100)) for bx, ee, _ in cont[rn][2]])
        return
    pad.write_box(tuple((ZERO, n) for n in sh), lead * F(rhs_name, *rhs_index, *[idx(d) for d in range(dim)]), "want")
    d = diff_pieces(cont[rn][2], pad.pieces, conds)
    rep.check(not d, nm + "/padding", r_pad, d[0][3] if d else "", show_diff(d))
    # kernel
    scale = coef * lead / cas.power(dx, dim)
    diffs, n = kernel_differences(cont[gn][2], psh, dim, sh, dx, scale)
    rep.stats["kernel_regions"] = rep.stats.get("kernel_regions", 0) + n
    rep.check(not diffs, nm + "/kernel", r_ker, diffs[0][4] if diffs else "", " || ".join(
        "offset signs %s cells %s: %s ; expected %s" % (s, A.box_str(bx), clip(g, 200), w if isinstance(w, str) else clip(w, 200)) for bx, g, w, s, _ in diffs[:2]))


def unbounded_jobs(tier):
    for dim in (2, 3):
        for real in (F64, F32):
            yield dim, real, None, 1
        yield dim, F64, (X, 4), 4
        if tier == "thorough":
            yield dim, F32, None, 8


@spec("C17", min_obl=30)
def c17(rep, tier):
    r_val = "the solver accepts every valid grid, precision and thread count"
    for dim in (2, 3):
        cls = "UnboundedPoissonSolverPYFFTW%dD" % dim
        grids = [None] + [tuple([5, 4, 6][:dim]), tuple([4, 7, 8][-dim:])]
        if tier == "thorough":
            grids += [tuple([6, 6, 6][:dim]), tuple([8, 5, 4][:dim]), tuple([4, 9, 4][:dim])]
        for conc, real, threads, rng in itertools.product(grids, (F64, F32), (1, 4), ("given", "default", "given, among others")):
            if (conc and threads != 1) or (rng != "given" and threads != 1):
                continue
            if rng == "given, among others" and real is F32 and conc:
                continue
            sh = dims(dim, conc)
            nm = "%s[%s,%s,threads=%s,x_range %s]" % (cls, real.name, conc or "any grid", threads, rng)

            def f(it):
                kw = dict(real_t=real, num_threads=threads)
                if rng != "default":
                    kw["x_range"] = X

                def other(sh2, **over):
                    o = make(it, dim, cls, sh2, **dict(kw, **over))
                    dt = over.get("real_t", real).name
                    it.call(it.getattr(o, "solve"), [], dict(solution_field=symarr("sol_o", sh2, dt), rhs_field=symarr("rhs_o", sh2, dt)))
                if "others" in rng:
                    # solvers of other users, earlier and later, each sharing some of the parameters
                    other(sh[::-1], real_t=F32 if real is F64 else F64, x_range=5 * X, num_threads=2)
                    other(sh[::-1])
                    other(sh, real_t=F32 if real is F64 else F64)
                    other(sh, x_range=2 * X)
                    other(sh, num_threads=2)
                s = make(it, dim, cls, sh, **kw)
                if "others" in rng:
                    other(sh[::-1], x_range=3 * X)
                sol, rhs = symarr("sol", sh, real.name), symarr("rhs", sh, real.name)
                it.call(it.getattr(s, "solve"), [], dict(solution_field=sol, rhs_field=rhs))
                return s, sol, rhs
            for conds, it, r in run_paths(f):
                rep.absorb(it)
                if isinstance(r, AbsRaise):
                    rep.fail(nm, r_val, r.where or "", str(r))
                    continue
                rep.ok(nm, r_val)
                if rng != "default":
                    check_unbounded(rep, nm, dim, r[1], "rhs", (), tuple(E(x) for x in sh), conds)
                else:
                    # default domain length is one
                    one = {mk_atom("sym", ("X",), nonneg=True): ONE}
                    global_check_default(rep, nm, dim, r[1], tuple(E(x) for x in sh), conds)
        if dim == 3:
            for real, cc in [(F64, None), (F32, None), (F64, (1, 3, 2)), (F64, (2, 1, 3)), (F64, (3, 2, 1)), (F64, (1, 1, 1))]:
                sh = tuple(cc) if cc else dims(dim)
                nm = "%s.vector_field_solve[%s%s]" % (cls, real.name, ",%s" % (cc,) if cc else "")

                def f(it):
                    s = make(it, dim, cls, sh, x_range=X, real_t=real)
                    es = tuple(E(x) for x in sh)
                    sol, rhs = symarr("sol", (3,) + es, real.name), symarr("rhs", (3,) + es, real.name)
                    it.call(it.getattr(s, "vector_field_solve"), [], dict(solution_vector_field=sol, rhs_vector_field=rhs))
                    return s, sol, rhs
                for conds, it, r in run_paths(f):
                    rep.absorb(it)
                    if isinstance(r, AbsRaise):
                        rep.fail(nm, r_val, r.where or "", str(r))
                        continue
                    for c in range(3):
                        check_unbounded(rep, "%s component %d" % (nm, c), dim, r[1], "rhs", (c,), tuple(E(x) for x in sh), conds, (c,))


def global_check_default(rep, nm, dim, sol, sh, conds):
    global X
    keep = X
    X = ONE
    try:
        check_unbounded(rep, nm, dim, sol, "rhs", (), sh, conds)
    finally:
        X = keep


# ---------------------------------------------------------------- C18
@spec("C18", min_obl=20)
def c18(rep, tier):
    r_in = "the right-hand side array holds the same content after a solve"
    r_prev = "a solution returned earlier is not changed by a later solve or by another solver object"
    r_hist = "a later solve gives the same solution as a first solve of the same right-hand side"
    r_own = "constructing and using a second solver does not change what the first one computes"
    for dim in (2, 3):
        for real in (F64, F32):
            sh = dims(dim)
            for cls in ("UnboundedPoissonSolverPYFFTW%dD" % dim, "FastDiagPoissonSolver%dD" % dim):
                unb = cls.startswith("Unb")
                kw = dict(x_range=X) if unb else dict(dx=X / sh[-1])
                nm = "%s[%s]" % (cls, real.name)
                if not unb and dim == 3 and real is F32 and tier != "thorough":
                    continue

                def f(it):
                    A1 = {n: symarr(n, sh, real.name) for n in ("sol1", "rhs1", "sol2", "rhs2", "sol3", "sol4")}
                    s = make(it, dim, cls, sh, real_t=real, **kw)
                    go = lambda o, a, b: it.call(it.getattr(o, "solve"), [], dict(solution_field=A1[a], rhs_field=A1[b]))
                    go(s, "sol1", "rhs1")
                    A1["snap1"] = A1["sol1"].base.snapshot()
                    go(s, "sol2", "rhs2")
                    fresh = make(it, dim, cls, sh, real_t=real, **kw)
                    go(fresh, "sol3", "rhs2")
                    if unb or dim == 2:
                        kw2 = dict(x_range=2 * X) if unb else dict(dx=2 * X / sh[-1])
                        other = make(it, dim, cls, tuple(n + 1 for n in sh), real_t=real, **kw2)
                        o1 = symarr("osol", tuple(n + 1 for n in sh), real.name)
                        o2 = symarr("orhs", tuple(n + 1 for n in sh), real.name)
                        it.call(it.getattr(other, "solve"), [], dict(solution_field=o1, rhs_field=o2))
                        go(s, "sol4", "rhs2")
                    return A1
                for conds, it, r in run_paths(f):
                    rep.absorb(it)
                    if isinstance(r, AbsRaise):
                        rep.fail(nm, "repeated solves raise no exception", r.where or "", str(r))
                        continue
                    for n in ("rhs1", "rhs2"):
                        d = diff_pieces(r[n].base.pieces, r[n].base.init, conds)
                        rep.check(not d, "%s/%s" % (nm, n), r_in, d[0][3] if d else "", show_diff(d))
                    d = diff_pieces(r["sol1"].base.pieces, r["snap1"], conds)
                    rep.check(not d, nm + "/earlier solution", r_prev, d[0][3] if d else "", show_diff(d))
                    d = diff_pieces(r["sol2"].base.pieces, r["sol3"].base.pieces, conds)
                    rep.check(not d, nm + "/second solve", r_hist, d[0][3] if d else "", show_diff(d))
                    if unb or dim == 2:
                        d = diff_pieces(r["sol4"].base.pieces, r["sol3"].base.pieces, conds)
                        rep.check(not d, nm + "/two solvers", r_own, d[0][3] if d else "", show_diff(d))
        # vector solve: components independent of each other's buffers, inputs kept
        if dim == 3:
            for real in (F64, F32):
                sh = dims(3)
                cls = "UnboundedPoissonSolverPYFFTW3D"
                nm = "%s.vector_field_solve[%s]" % (cls, real.name)

                def f(it):
                    s = make(it, 3, cls, sh, real_t=real, x_range=X)
                    sol, rhs = symarr("vsol", (3,) + sh, real.name), symarr("vrhs", (3,) + sh, real.name)
                    it.call(it.getattr(s, "vector_field_solve"), [], dict(solution_vector_field=sol, rhs_vector_field=rhs))
                    return sol, rhs
                for conds, it, r in run_paths(f):
                    rep.absorb(it)
                    if isinstance(r, AbsRaise):
                        rep.fail(nm, "repeated solves raise no exception", r.where or "", str(r))
                        continue
                    d = diff_pieces(r[1].base.pieces, r[1].base.init, conds)
                    rep.check(not d, nm + "/rhs", r_in, d[0][3] if d else "", show_diff(d))


# ---------------------------------------------------------------- C19
def diag_reference(it, dim, sh, rhs, real, order):
    """sum over eigenmodes of the 1D second-difference matrices (homogeneous Neumann ends), zero mean mode excluded"""
    M = it.models
    dx = DX
    vals, vecs, invs, nulls = [], [], [], []
    for n in sh:
        n = E(n)
        i, j = idx(0), idx(1)
        T = A.Base((n, n), "float64", [(((ZERO, n), (ZERO, n)), (2 * cas.zero(i - j) - cas.zero(i - j - 1) - cas.zero(j - i - 1)) / dx / dx, "")])
        for c in (ZERO, n - 1):
            T.write_box(((c, c + 1), (c, c + 1)), 1 / dx / dx, "")
        w, v = M.eig(Arr.of(T), "eig")
        if order == "none":
            nulls.append(it.call(it.getattr(M.np, "argmin"), [w], {}))
            vals.append(w)
            vecs.append(v)
        else:
            p = M.argsort(w)
            if order == "down":
                p = getitem(p, (SliceV(None, None, -1),))
            vals.append(getitem(w, (p,)))
            vecs.append(getitem(v, (SliceV(None, None, None), p)))
            nulls.append(-1 if order == "down" else 0)
        invs.append(M.opaque1("inv", vecs[-1]))
    spec_ = rhs
    for d in range(dim):
        spec_ = A.moveaxis(M.tensordot(invs[d], spec_, axes=([1], [d])), 0, d)
    lam = None
    for d in range(dim):
        v = getitem(vals[d], tuple(SliceV(None, None, None) if k == d else None for k in range(dim)))
        lam = v if lam is None else M.arr_binop("add", lam, v)
    inv = M.arr_binop("truediv", 1, lam)
    inv = A.copy(inv)
    A.setitem(inv, tuple(nulls), 0)
    spec_ = M.arr_binop("mul", spec_, inv)
    for d in range(dim):
        spec_ = A.moveaxis(M.tensordot(vecs[d], spec_, axes=([1], [d])), 0, d)
    return spec_


DX = cas.sym("dx", nonneg=True)


@spec("C19", min_obl=6, conc=False)
def c19(rep, tier):
    r_val = "the solver accepts every valid grid and precision"
    r_sol = ("the solution is the eigen-expansion of the right-hand side in the 1D second-difference matrices with homogeneous Neumann ends, "
             "each mode divided by the sum of its eigenvalues and the mean mode set to zero")
    jobs = []
    for dim in (2, 3):
        for real in (F64, F32):
            for bc in ("default", "explicit"):
                if dim == 3 and real is F32 and bc == "explicit" and tier != "thorough":
                    continue
                jobs.append((dim, real, bc, None, "solve"))
        jobs.append((dim, F64, "default", None, "vector"))
        jobs.append((dim, F64, "default", None, "among others"))
    jobs.append((2, F64, "default", (3, 2), "solve"))
    if tier == "thorough":
        jobs += [(2, F32, "default", (2, 4), "solve"), (2, F64, "default", (4, 4), "solve")]
    global DX
    for n, (dim, real, bc, conc, how) in enumerate(jobs):
        # a spacing of its own: nothing may be left over from the jobs before
        DX = cas.sym("dx_%d" % n, nonneg=True)
        cls = "FastDiagPoissonSolver%dD" % dim
        if how == "vector" and dim == 2 or conc and rep.viol:
            continue
        sh = dims(dim, conc)
        nm = "%s.%s[%s,bc %s,%s]" % (cls, how, real.name, bc, conc or "any grid")

        def f(it):
            kw = dict(real_t=real, dx=DX)
            if bc == "explicit":
                kw["bc_type"] = "homogenous_neumann_along_xy" + ("z" if dim == 3 else "")
            if how == "among others":
                # other solvers, earlier and later, of other spacings, extents and precision, and earlier solves
                def other(real2, dx2, sh2):
                    o = make(it, dim, cls, sh2, **dict(kw, real_t=real2, dx=dx2))
                    it.call(it.getattr(o, "solve"), [], dict(solution_field=symarr("sol_o", sh2, real2.name),
                                                             rhs_field=symarr("rhs_o", sh2, real2.name)))
                    return o
                other(F32 if real is F64 else F64, cas.sym("dx_first", nonneg=True), sh[::-1])
                other(real, cas.sym("dx_earlier", nonneg=True), sh)
                other(real, DX, sh[::-1])
                other(F32 if real is F64 else F64, DX, sh)
            s = make(it, dim, cls, sh, **kw)
            if how == "among others":
                it.call(it.getattr(s, "solve"), [], dict(solution_field=symarr("sol_first", sh, real.name),
                                                         rhs_field=symarr("rhs_first", sh, real.name)))
                other(real, cas.sym("dx_later", nonneg=True), sh)
            pre = (3,) if how == "vector" else ()
            sol, rhs = symarr("sol", pre + sh, real.name), symarr("rhs", pre + sh, real.name)
            if how == "vector":
                it.call(it.getattr(s, "vector_field_solve"), [], dict(solution_vector_field=sol, rhs_vector_field=rhs))
            else:
                it.call(it.getattr(s, "solve"), [], dict(solution_field=sol, rhs_field=rhs))
            return sol, rhs
        for conds, it, r in run_paths(f):
            rep.absorb(it)
            if isinstance(r, AbsRaise):
                rep.fail(nm, r_val, r.where or "", str(r))
                continue
            rep.ok(nm, r_val)
            for c in range(3 if how == "vector" else 1):
                sol, rhs = r
                if how == "vector":
                    sol = getitem(sol, (c,))
                    rhs = symarr("rhs", (3,) + sh, real.name)
                    rhs = getitem(rhs, (c,))
                else:
                    rhs = symarr("rhs", sh, real.name)
                best = None
                for order in ("down", "up", "none"):
                    ref_ = diag_reference(it, dim, sh, rhs, real, order)
                    d = diff_pieces(sol.pieces(), ref_.pieces(), conds)
                    if best is None or len(d) < len(best):
                        best = d
                    if not d:
                        break
                rep.check(not best, nm + ("/component %d" % c if how == "vector" else "") + "/solution", r_sol, best[0][3] if best else "", show_diff(best, 1))


# ---------------------------------------------------------------- C20
@spec("C20", min_obl=30)
def c20(rep, tier):
    r_val = "the transform helpers accept every valid grid, precision and thread count"
    r_buf = "the plan buffers have the extents and precision of a real field and of its half spectrum"
    r_fwd = "the forward transform is the unnormalised real transform over every grid axis"
    r_inv = "the inverse transform of the forward transform is the original field"
    r_keep = "the forward transform leaves its input unchanged"
    for dim in (2, 3):
        cls = "FFTPyFFTW%dD" % dim
        m = isym("mx")
        anysh = dims(dim)
        grids = [anysh[:-1] + (2 * m,), anysh[:-1] + (2 * m + 1,), (5, 4, 6)[:dim], (4, 6, 7)[-dim:]]
        if tier == "thorough":
            grids += [(3, 8, 5)[:dim], (8, 8, 8)[:dim], (1, 1, 1)[:dim], (2, 3, 9)[-dim:]]
        for conc, real, thr in itertools.product(grids, (F64, F32), (1, 4)):
            sh = tuple(E(x) for x in conc)
            even = cas.is_integer(sh[-1] / 2)
            nm = "%s[%s,%s,threads=%d]" % (cls, real.name, "x".join(str(x) for x in sh), thr)

            def f(it):
                from ..models_ext import rfftn, half
                ish = [x if not x.is_const else int(x.value) for x in sh]
                # wrappers of other users, earlier and later
                other = F32 if real is F64 else F64
                make(it, dim, cls, ish[::-1], num_threads=thr + 1, real_t=other)
                make(it, dim, cls, ish[::-1], num_threads=thr, real_t=real)
                make(it, dim, cls, ish, num_threads=thr, real_t=other)
                p = make(it, dim, cls, ish, num_threads=thr, real_t=real)
                make(it, dim, cls, ish[1:] + ish[:1], num_threads=thr, real_t=other)
                cdt = "complex64" if real is F32 else "complex128"
                hs = sh[:-1] + (half(sh[-1]) + 1,)
                x = symarr("x", sh, real.name)
                want = rfftn(symarr("x", sh, real.name))
                out = {"hs": hs, "cdt": cdt, "want": want, "x": x,
                       "buf": it.getattr(p, "field_pyfftw_buffer"), "fbuf": it.getattr(p, "fourier_field_pyfftw_buffer")}
                k, y = symarr("k", hs, cdt), symarr("y", sh, real.name)
                it.call(it.getattr(p, "fft_plan"), [], dict(input_array=x, output_array=k))
                out["k"] = A.copy(k)
                out["x"] = A.copy(x)
                it.call(it.getattr(p, "ifft_plan"), [], dict(input_array=k, output_array=y))
                out["y"] = y
                # convenience objects on the plan's own buffers
                bufx = out["buf"]
                A.assign(bufx, symarr("x", sh, real.name))
                out["b_fwd"] = A.copy(it.call(it.getattr(p, "pyfftw_fftn"), [], {}))
                A.assign(out["fbuf"], out["b_fwd"] if out["b_fwd"].shape == out["fbuf"].shape else want)
                out["b_inv"] = A.copy(it.call(it.getattr(p, "pyfftw_ifftn"), [], {})) if even else None
                # combined kernel
                k2, y2, x2 = symarr("k", hs, cdt), symarr("y", sh, real.name), symarr("x", sh, real.name)
                it.call(it.getattr(p, "fft_ifft_plan_kernel"), [], dict(fourier_field=k2, inv_fourier_field=y2, field=x2))
                out["y2"], out["x2"] = y2, x2
                return out
            for conds, it, r in run_paths(f):
                rep.absorb(it)
                if isinstance(r, AbsRaise):
                    rep.fail(nm, r_val, r.where or "", str(r))
                    continue
                rep.ok(nm, r_val)
                src = symarr("x", sh, real.name)
                rep.check(r["buf"].shape == sh and r["buf"].dtype == real.name, nm + "/field buffer", r_buf, cls, "%s %s" % (r["buf"].dtype, r["buf"].shape))
                rep.check(r["fbuf"].shape == r["hs"] and r["fbuf"].dtype == r["cdt"], nm + "/spectrum buffer", r_buf, cls, "%s %s" % (r["fbuf"].dtype, r["fbuf"].shape))

                def same(got, want, what, rule):
                    if got.shape != want.shape or got.cplx != want.cplx:
                        rep.fail(nm + "/" + what, rule, cls, "result has shape %s, expected %s" % (list(map(str, got.shape)), list(map(str, want.shape))))
                        return
                    d = diff_pieces(got.pieces(), want.pieces(), conds)
                    rep.check(not d, nm + "/" + what, rule, d[0][3] if d else "", show_diff(d))
                same(r["k"], r["want"], "fft_plan", r_fwd)
                same(r["y"], src, "ifft_plan", r_inv)
                same(r["x"], src, "fft_plan input", r_keep)
                same(r["b_fwd"], r["want"], "pyfftw_fftn", r_fwd)
                if r["b_inv"] is not None:
                    same(r["b_inv"], src, "pyfftw_ifftn", r_inv)
                same(r["y2"], src, "fft_ifft_plan_kernel", r_inv)
                same(r["x2"], src, "fft_ifft_plan_kernel input", r_keep)
        # scipy reference helpers
        for conc, real, thr in itertools.product([(4, 6, 8)[:dim], (5, 3, 6)[-dim:], (2, 2, 2)[:dim]], (F64, F32), (1, 4)):
            nm = "fft_ifft_via_scipy_kernel_%dd[%s,%s,threads=%d]" % (dim, real.name, conc, thr)
            sh = tuple(E(x) for x in conc)
            if conc[-1] % 2:
                continue

            def f(it):
                from ..models_ext import rfftn, half
                fnc = anchor(it, PKG % dim + ".scipy_fft_%dd" % dim, "fft_ifft_via_scipy_kernel_%dd" % dim)
                cdt = "complex64" if real is F32 else "complex128"
                hs = sh[:-1] + (half(sh[-1]) + 1,)
                k, y, x = symarr("k", hs, cdt), symarr("y", sh, real.name), symarr("x", sh, real.name)
                want = rfftn(symarr("x", sh, real.name))
                it.call(fnc, [], dict(fourier_field=k, inv_fourier_field=y, field=x, num_threads=thr))
                return k, y, x, want
            for conds, it, r in run_paths(f):
                rep.absorb(it)
                if isinstance(r, AbsRaise):
                    rep.fail(nm, r_val, r.where or "", str(r))
                    continue
                src = symarr("x", sh, real.name)
                for got, want, what, rule in ((r[0], r[3], "spectrum", r_fwd), (r[1], src, "inverse", r_inv), (r[2], src, "input", r_keep)):
                    d = diff_pieces(got.pieces(), want.pieces(), conds)
                    rep.check(not d, nm + "/" + what, rule, d[0][3] if d else "", show_diff(d))
