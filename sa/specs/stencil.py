"""C01-C16: the stencil kernels."""
from fractions import Fraction

from .. import cas
from ..arrays import AbsRaise, Arr, Base, box_str, full_box, simp_in_box
from ..bounds import try_le
from ..cas import E, ONE, ZERO, PI, const, fn, idx
from ..core import (AnchorLost, F, Want, anchor, clip, diff_pieces, gate_of, interp, isym, run_paths, show_diff, symarr)
from ..interp import DT
from . import spec
from .ops import BY, OPS, S2, S3, Env, Fld, NAMES, Op, ScalarOf, sides, stretch_rhs, zero_ghost
from .run import F32, F64, Outcome, classify, decoys, judge, label, run_op

DIFFOPS = ["outplane_curl_2d/reset", "outplane_curl_2d/noreset", "inplane_curl_2d", "curl_3d/reset", "curl_3d/noreset",
           "divergence_3d/reset", "divergence_3d/noreset", "diffusion_flux_2d/reset", "diffusion_flux_2d/noreset",
           "diffusion_flux_3d/scalar/reset", "diffusion_flux_3d/scalar/noreset", "diffusion_flux_3d/vector/reset",
           "diffusion_flux_3d/vector/noreset", "stretching_flux_3d", "vorticity_from_forcing_2d", "vorticity_from_forcing_3d",
           "vorticity_from_penalised_2d", "vorticity_from_penalised_3d"]
STEPS = ["advection_step_2d", "advection_step_3d/scalar", "advection_step_3d/vector", "diffusion_step_2d",
         "diffusion_step_3d/scalar", "diffusion_step_3d/vector", "stretching_step_euler_3d"]
ELEM = [o.key for o in OPS if o.key.split("_")[0] in ("elementwise", "saxpby", "set", "add", "complex", "cross")]
BRINK = [o.key for o in OPS if o.key.startswith("brinkmann")]

CONFIGS = [(F64, False, False), (F32, False, True), (F64, 4, True), (F32, True, False)]
ALLCONFIGS = [(r, t, f) for r in (F32, F64) for t in (False, True, 1, 4) for f in (False, True)]


def small_shapes(dim, tier):
    """concrete small grids (None = symbolic extent >= 8)"""
    out = [(n,) * dim for n in range(1, 8)]
    if tier == "thorough":
        import itertools
        vals = [1, 2, 3, 4, 5, 6, 7, None] if dim == 2 else [1, 2, 3, 5, None]
        for t in itertools.product(vals, repeat=dim):
            if t not in out and any(x is not None for x in t):
                out.append(t)
    else:
        for k in range(dim):
            for n in (1, 2, 3, 5):
                t = [None] * dim
                t[k] = n
                out.append(tuple(t))
    return out


def mkshape(op, t):
    return tuple(E(x) if x is not None else isym(NAMES[op.dim][k]) for k, x in enumerate(t))


def conc(t):
    return "x".join(str(x) if x is not None else "n" for x in t)


def op_obligations(rep, keys, tier, want_class, rule, cfgs=None, small=True):
    """every op x configuration: documented outputs hold the documented content on
    the given class of cells"""
    for key in keys:
        op = BY[key]
        cf = cfgs or (ALLCONFIGS if tier == "thorough" else CONFIGS)
        jobs = [(r, t, f, None) for r, t, f in cf]
        if small:
            jobs += [(F64, False, False, s) for s in small_shapes(op.dim, tier)]
            if tier == "thorough":
                jobs += [(F32, 4, True, s) for s in small_shapes(op.dim, "quick")]
        for r, t, f, s in jobs:
            name = label(op, r, t, f, "," + conc(s) if s else "")
            for o in run_op(rep, op, r, t, f, shape=mkshape(op, s) if s else None):
                if o.raised:
                    rep.fail(name, rule, o.raised.where, "raises on valid use: %s" % o.raised)
                    continue
                bad = [m for m in judge(op, o) if want_class is None or m[1] in want_class]
                if bad:
                    rep.fail(name, rule, bad[0][5] or op.gen, "; ".join("%s %s" % (m[0], show_diff([m[2:]])) for m in bad[:2]))
                else:
                    rep.ok(name, rule)


def history_obligations(rep, keys, rule, want_class=None):
    """a generated kernel called twice on different arrays: the second call obeys the spec as well"""
    for key in keys:
        op = BY[key]
        for fixed, same in ((False, False), (True, False), (False, True), (True, True)):
            name = "%s/second-call%s%s" % (key, "/same-arrays" if same else "", "/fixed" if fixed else "")

            def fn(it):
                gen = anchor(it, op.module, op.gen)
                env = Env(op, "float64")
                kw = dict(op.gkw, real_t=F64, num_threads=False)
                kw["fixed_grid_size"] = tuple(env.shape) if fixed else False
                if not same:
                    decoys(it, gen, kw)
                k = it.call(gen, [], kw)
                if not same:
                    decoys(it, gen, kw)
                if same:
                    # the same array objects, rewritten by the caller in between
                    it.call(k, [], env.kw)
                    for a in env.arr.values():
                        a.base.pieces = list(a.base.init)
                    it.call(k, [], env.kw)
                    return env
                first = {}
                sh = env.shape if fixed else tuple(isym(n + "_") for n in NAMES[op.dim])
                for n, kind in op.args.items():
                    a = Env.__new__(Env)
                    a.op, a.dim, a.dtype, a.shape, a.arr, a.kw = op, op.dim, "float64", sh, {}, {}
                    v = a.make(n, kind)
                    if isinstance(v, Arr):
                        nd = v.base.nd
                        v = symarr("first_" + n, v.shape, v.dtype)
                    elif isinstance(v, list):
                        v = [cas.sym("first_%s_%d" % (n, i)) for i in range(len(v))]
                    else:
                        v = cas.sym("first_" + n)
                    first[n] = v
                it.call(k, [], first)
                it.call(k, [], env.kw)
                return env
            for conds, it, r in run_paths(fn):
                rep.absorb(it)
                if isinstance(r, AbsRaise):
                    rep.fail(name, rule, r.where, "raises: %s" % r)
                    continue
                bad = [m for m in judge(op, Outcome(conds, r, None, {}, [], it)) if want_class is None or m[1] in want_class]
                if bad:
                    rep.fail(name, rule, bad[0][5], show_diff([bad[0][2:]]))
                else:
                    rep.ok(name, rule)


R_INT = "every cell with a complete stencil holds the documented centred difference (normal-form equality)"


@spec("C01", min_obl=200, level="other")
def c01(rep, tier):
    op_obligations(rep, DIFFOPS, tier, ("interior",), R_INT)
    history_obligations(rep, DIFFOPS, R_INT, ("interior",))


@spec("C02", min_obl=20)
def c02(rep, tier):
    rule = "flux = old + inv_dx * (F[i+1/2] - F[i-1/2]) with one upwind-selected third-order face flux per face"
    ks = ["advection_flux_2d", "advection_flux_3d"]
    op_obligations(rep, ks, tier, ("interior",), rule, ALLCONFIGS)
    history_obligations(rep, ks, rule, ("interior",))


@spec("C03", min_obl=200)
def c03(rep, tier):
    rule = "cells without a complete stencil are exactly zero (ghost-zone reset) or keep their previous value"
    ks = [o.key for o in OPS if o.ghost]
    op_obligations(rep, ks, tier, ("ghost",), rule)
    history_obligations(rep, ks, rule, ("ghost",))


# ---------------------------------------------------------------- boundary setter
def boundary_env(op, dtype, width, shape=None):
    e = Env(op, dtype, shape)
    e.width = width
    return e


def boundary_cases(dim, tier):
    """(width passed to the generator, shape)"""
    w = isym("w", 1)
    out = [(w, None)]
    for k in (1, 2, 3, 5):
        out.append((k, None))
    for n in range(1, 7):
        for k in (1, 2, 3, 4) if tier == "thorough" else (1, 2):
            out.append((k, (n,) * dim))
    # overlapping zones along one axis only
    for d in range(dim):
        for n, k in ((1, 1), (3, 2)) + (((2, 2), (1, 2), (5, 3), (4, 3)) if tier == "thorough" else ()):
            out.append((k, tuple(n if a == d else None for a in range(dim))))
    return out


def facts_for(width, shape, mult=2):
    """assumption: the zones fit the grid"""
    from .. import core
    del core.BASE_FACTS[:]
    if not isinstance(width, int):
        for n in shape:
            core.BASE_FACTS.append(E(n) - mult * width - 1)


def warm_args(env, shape=None, pre="first_"):
    """arguments of an earlier call of the same kernel: other arrays, other numbers"""
    first = {}
    for n, v in env.kw.items():
        if isinstance(v, Arr):
            first[n] = symarr(pre + n, shape or v.shape, v.dtype)
        elif isinstance(v, (list, tuple)):
            first[n] = [cas.sym("%s%s_%d" % (pre, n, i)) for i in range(len(v))]
        else:
            first[n] = cas.sym(pre + n)
    return first


def dirty(arr, name):
    """the caller used the buffer for something else in the meantime"""
    arr.base.pieces = list(symarr(name, arr.shape, arr.dtype).base.pieces)


@spec("C04", min_obl=50)
def c04(rep, tier):
    from .. import core
    rule = "exactly the cells within `width` of a face take the given value (per component); all others keep theirs"
    for dim in (2, 3):
        for ft, vec in (("scalar", False), ("vector", True)):
            args = {"vector_field": "v", "fixed_vals": "nums"} if vec else {"field": "s", "fixed_val": "num"}
            n = "vector_field" if vec else "field"
            op = Op("set_boundary_%dd/%s" % (dim, ft), dim, "gen_set_fixed_val_at_boundaries_pyst_kernel_%dd" % dim, args, [n], None)
            for real, thr in ((F64, False), (F32, 4), (F32, True)):
                for width, shp in boundary_cases(dim, tier):
                    shape = mkshape(op, shp) if shp else tuple(isym(x) for x in NAMES[dim])
                    facts_for(width, shape)
                    if isinstance(width, int) and not shp:
                        for s in shape:
                            isym(str(s), max(8, 2 * width + 1))

                    for warm in ((False, True) if real is F64 and not thr and (shp is None or shp == (3,) * dim) else (False,)):
                      def fn(it):
                        gen = anchor(it, op.module, op.gen)
                        e = boundary_env(op, real.name, width, shape)
                        kw = dict(real_t=real, width=width, num_threads=thr, field_type=ft)
                        if warm and isinstance(width, int):
                            decoys(it, gen, kw)
                        k = it.call(gen, [], kw)
                        if warm and isinstance(width, int):
                            decoys(it, gen, kw)
                        if warm:
                            it.call(k, [], warm_args(e))
                        it.call(k, [], e.kw)
                        return e
                      name = "%s[%s,threads=%s,width=%s%s%s]" % (op.key, real.name, thr, width, "," + conc(shp) if shp else "", ",second-call" if warm else "")
                      for conds, it, r in run_paths(fn):
                          rep.absorb(it)
                          if isinstance(r, AbsRaise):
                              rep.fail(name, rule, r.where, "raises: %s" % r)
                              continue
                          w = Want(r.arr[n])
                          zero_ghost(r, w, width, vec, [cas.sym("fixed_vals_%d" % c) for c in range(dim)] if vec else cas.sym("fixed_val"))
                          d = diff_pieces(r.arr[n].base.pieces, w.pieces, conds)
                          rep.check(not d, name, rule, d[0][3] if d else "", show_diff(d))
            del core.BASE_FACTS[:]
            for s in NAMES[dim]:
                isym(s)


# ---------------------------------------------------------------- boundary penalisation
def penal_want(e, n, vec, width, dim, grids, dx):
    """sequential: for x, then y, then z: freeze the zone to the inner edge value, then sine-damp"""
    w = Want(e.arr[n])
    shp = e.shape
    for c in (range(dim) if vec else [None]):
        for k in range(dim):
            d = dim - 1 - k
            off = 1 if vec else 0
            nn = shp[d]
            start = F(grids[k], *[ZERO] * dim)
            endix = [ZERO] * dim
            endix[d] = nn - 1
            end = F(grids[k], *endix)
            g = F(grids[k], *[idx(q + off) for q in range(dim)])
            sp = PI / (2 * E(width) * dx)
            for lo, hi, src, ph in ((ZERO, E(width), E(width) - 1, sp * (g - start)),
                                    (nn - width, nn, nn - width, sp * (end - g))):
                bb = [(ZERO, E(s)) for s in w.b.shape]
                if vec:
                    bb[0] = (E(c), E(c) + 1)
                bb[d + off] = (lo, hi)
                # content of the source line
                from ..arrays import pieces_read
                sb = list(bb)
                sb[d + off] = (src, src + 1)
                src_p = pieces_read(w.b.pieces, tuple(sb))
                from ..cas import mk_atom, subst
                for b, ex, _ in src_p:
                    ex = subst(ex, {mk_atom("idx", (d + off,), True, True): src})
                    tb = list(b)
                    tb[d + off] = (lo, hi)
                    w.b.write_box(tuple(tb), ex * fn("sin", ph), "want")
    return w


def penal_cases(dim, tier):
    w = isym("w", 2)
    out = [(1, None), (2, None), (w, None), (3, None)]
    out += [(k, (m,) * dim) for k in (1, 2) for m in range(2 * k, 2 * k + 3)]
    if tier == "thorough":
        out += [(k, (m,) * dim) for k in (3, 4) for m in range(2 * k, 2 * k + 3)]
    return out


def penal_run(rep, dim, ft, real, thr, fixed, width, shp, warm=False):
    vec = ft == "vector"
    n = "vector_field" if vec else "field"
    op = Op("penalise_boundary_%dd/%s" % (dim, ft), dim, "gen_penalise_field_boundary_pyst_kernel_%dd" % dim,
            {n: "v" if vec else "s"}, [n], None)
    shape = mkshape(op, shp) if shp else tuple(isym(x, max(8, 2 * width + 1) if isinstance(width, int) else 8) for x in NAMES[dim])
    facts_for(width, shape)
    grids = ["%s_grid_field" % k for k in "xyz"[:dim]]
    dx = cas.sym("dx")

    def fn(it):
        gen = anchor(it, op.module, op.gen)
        e = Env(op, real.name, shape)
        for g in grids:
            e.arr[g] = symarr(g, shape, real.name)
        fn.before = {q: a.base.snapshot() for q, a in e.arr.items()}
        kw = dict(width=width, dx=dx, real_t=real, num_threads=thr, fixed_grid_size=tuple(shape) if fixed else False)
        for g in grids:
            kw[g] = e.arr[g]
        if dim == 3:
            kw["field_type"] = ft
        if warm:
            decoys(it, gen, kw)
        k = it.call(gen, [], kw)
        if warm:
            decoys(it, gen, kw)
            it.call(k, [], {n: symarr("first_" + n, e.arr[n].shape, real.name)})
        it.call(k, [], {n: e.arr[n]})
        return e
    name = "%s[%s,threads=%s,%s,width=%s%s%s]" % (op.key, real.name, thr, "fixed" if fixed else "generic", width, "," + conc(shp) if shp else "",
                                               ",second-call" if warm else "")
    for conds, it, r in run_paths(fn):
        rep.absorb(it)
        yield name, conds, it, r, (fn.before if not isinstance(r, AbsRaise) else None), n, vec, grids, dx


@spec("C05", min_obl=20)
def c05(rep, tier):
    from .. import core
    rule = ("x, then y, then z: the zone of `width` cells at each face is frozen to its inner-edge value and multiplied by the sine ramp "
            "vanishing on the face; cells outside every zone keep their value")
    for dim, fts in ((2, ["scalar"]), (3, ["scalar", "vector"])):
        for ft in fts:
            for real, thr, fixed in CONFIGS:
                cases = [c + (False,) for c in penal_cases(dim, tier)]
                if real is F64 and not thr:
                    cases += [(2, None, True)]
                for width, shp, warm in cases:
                    for name, conds, it, r, before, n, vec, grids, dx in penal_run(rep, dim, ft, real, thr, fixed, width, shp, warm):
                        if isinstance(r, AbsRaise):
                            rep.fail(name, rule, r.where, "raises: %s" % r)
                            continue
                        w = penal_want(r, n, vec, width, dim, grids, dx)
                        d = diff_pieces(r.arr[n].base.pieces, w.pieces, conds)
                        rep.check(not d, name, rule, d[0][3] if d else "", show_diff(d))
            # width 0: no-op
            for name, conds, it, r, before, n, vec, grids, dx in penal_run(rep, dim, ft, F64, False, False, 0, None):
                if isinstance(r, AbsRaise):
                    rep.fail(name, rule, r.where, "raises: %s" % r)
                    continue
                d = diff_pieces(r.arr[n].base.pieces, before[n], conds)
                rep.check(not d, name, "width 0 leaves the field untouched", d[0][3] if d else "", show_diff(d))
    del core.BASE_FACTS[:]
    for s in ("nx", "ny", "nz"):
        isym(s)


# ---------------------------------------------------------------- elementwise, steps
@spec("C08", min_obl=100)
def c08(rep, tier):
    rule = "each cell of the documented output is the documented function of the same cell of the inputs"
    op_obligations(rep, ELEM, tier, None, rule)
    history_obligations(rep, ELEM, rule)
    # in-place use (output array passed as an input as well)
    for key, pairs in (("elementwise_sum", ("sum_field", ["field_1", "field_2"])), ("saxpby", ("sum_field", ["field_1", "field_2"])),
                       ("add_fixed_val", ("sum_field", ["field", "vector_field"]))):
        for op in OPS:
            if op.key.startswith(key):
                for inp in pairs[1]:
                    if inp in op.args:
                        inplace(rep, op, pairs[0], inp, rule)


def inplace(rep, op, out, inp, rule):
    name = "%s/in-place(%s=%s)" % (op.key, out, inp)

    def fn(it):
        gen = anchor(it, op.module, op.gen)
        env = Env(op, "float64")
        env.kw[out] = env.arr[out] = env.arr[inp]
        k = it.call(gen, [], dict(op.gkw, real_t=F64))
        w = {k_: v for k_, v in op.want(env).items()}
        it.call(k, [], env.kw)
        return env, w
    for conds, it, r in run_paths(fn):
        rep.absorb(it)
        if isinstance(r, AbsRaise):
            rep.fail(name, rule, r.where, "raises: %s" % r)
            continue
        env, w = r
        d = diff_pieces(env.arr[out].base.pieces, w[out].pieces, conds)
        rep.check(not d, name, rule, d[0][3] if d else "", show_diff(d))


@spec("C09", min_obl=60)
def c09(rep, tier):
    rule = "field_new = field_old + flux(field_old) on every cell with a complete stencil, whatever the flux buffer held before"
    op_obligations(rep, STEPS, tier, ("interior",), rule)
    history_obligations(rep, STEPS, rule, ("interior",))


# ---------------------------------------------------------------- SSP-RK3
def stretch_stage(om, v, p, shape):
    """Expr of om + p*stretching(om) at interior cells; om: (c, ix)->Expr given as function of offsets"""


def ssprk3_want(arr, env, p1, p2, p3):
    """compose the three stages on piecewise contents using the abstract array algebra"""
    from .. import arrays as A
    dim = 3
    shape = env.shape
    v = env.arr["velocity_field"]
    dtype = env.dtype

    def flux(omA, p):
        """array of p * stretching flux of omA (zero on the ghost zone)"""
        out = Arr.of(Base.make((3,) + shape, dtype, ZERO, "wflux"))
        sl = lambda lo, hi: A.SliceV(lo, hi, None)

        def win(a, c, off):
            ix = [c]
            for d in range(3):
                o = off.get(d, 0)
                ix.append(A.SliceV(E(1 + o), shape[d] - 1 + o, None))
            return A.getitem(a, tuple(ix))
        for c in range(3):
            tot = None
            for d, k in enumerate("xyz"):
                axd = 2 - d
                t = A.ewise(lambda o, a, b: p * o * (a - b),
                            [win(omA, d, {}), win(v, c, {axd: 1}), win(v, c, {axd: -1})], dtype)
                tot = t if tot is None else A.ewise(lambda a, b: a + b, [tot, t], dtype)
            A.assign(win(out, c, {}), tot)
        return out
    om0 = arr
    lin = lambda a, x, b, y: A.ewise(lambda s, t: a * s + b * t, [x, y], dtype)
    s1 = lin(ONE, om0, ONE, flux(om0, p1))
    s2 = lin(ONE, s1, ONE, flux(s1, p2))
    s2 = lin(E(Fraction(3, 4)), om0, E(Fraction(1, 4)), s2)
    s3 = lin(ONE, s2, ONE, flux(s2, p3))
    return lin(E(Fraction(1, 3)), om0, E(Fraction(2, 3)), s3)


@spec("C10", min_obl=8)
def c10(rep, tier):
    rule = "vorticity_new = 1/3 w + 2/3 (u2 + L u2), u2 = 3/4 w + 1/4 (u1 + L u1), u1 = w + L w, L = dt * stretching at the full step"
    op = Op("stretching_step_ssprk3_3d", 3, "gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d",
            {"vorticity_field": "v", "velocity_field": "v", "vorticity_stretching_flux_field": "v", "dt_by_2_dx": "num"},
            ["vorticity_field", "vorticity_stretching_flux_field"], None)
    jobs = [(r, t, f, None) for r, t, f in CONFIGS] + [(F64, False, False, (n,) * 3) for n in (1, 2, 3, 4, 5)]
    if tier == "thorough":
        jobs = [(r, t, f, None) for r, t, f in ALLCONFIGS] + [(F64, False, False, s) for s in small_shapes(3, "quick")]
    jobs = [j + (False,) for j in jobs] + [(F64, False, False, None, True)]
    for real, thr, fixed, shp, warm in jobs:
        name = label(op, real, thr, fixed, ("," + conc(shp) if shp else "") + (",second-call" if warm else ""))
        shape = mkshape(op, shp) if shp else None

        def fn(it):
            gen = anchor(it, op.module, op.gen)
            e = Env(op, real.name, shape)
            buf = symarr("midstep_buffer", (3,) + e.shape, real.name)
            fn.before = {n: a.base.snapshot() for n, a in e.arr.items()}
            p = cas.sym("dt_by_2_dx")
            om = symarr("vorticity_field", (3,) + e.shape, real.name)
            w = ssprk3_want(om, e, p, p, p).pieces()
            bad = ssprk3_want(om, e, p, p, p * Fraction(1, 2)).pieces()
            kw = dict(real_t=real, midstep_buffer_vector_field=buf, num_threads=thr, fixed_grid_size=tuple(e.shape) if fixed else False)
            if warm:
                decoys(it, gen, kw)
            k = it.call(gen, [], kw)
            if warm:
                decoys(it, gen, kw)
                it.call(k, [], warm_args(e))
            dirty(buf, "midstep_buffer_")
            it.call(k, [], e.kw)
            return e, w, bad
        for conds, it, r in run_paths(fn):
            rep.absorb(it)
            if isinstance(r, AbsRaise):
                rep.fail(name, rule, r.where, "raises: %s" % r)
                continue
            e, w, bad = r
            got = e.arr["vorticity_field"].base.pieces
            d = diff_pieces(got, w, conds)
            if not d:
                rep.ok(name, rule)
                continue
            if not diff_pieces(got, bad, conds):
                rep.fail(name, rule, d[0][3], "third stage uses half the step: %s" % show_diff(d, 1), key="third-stage-prefactor-half")
                rep.ok(name + "/all-but-third-stage", "stages 1 and 2 and the convex combinations are those of SSP-RK3")
            else:
                rep.fail(name, rule, d[0][3], show_diff(d, 1))


@spec("C11", min_obl=30)
def c11(rep, tier):
    rule = "penalised = (field + lambda*chi*target) / (1 + lambda*chi) cell by cell, component by component"
    op_obligations(rep, BRINK, tier, None, rule)
    history_obligations(rep, BRINK, rule)
    for op in OPS:
        if op.key in BRINK:
            vec = op.key.endswith("vector")
            inplace(rep, op, "penalised_vector_field" if vec else "penalised_field", "vector_field" if vec else "field", rule)


# ---------------------------------------------------------------- characteristic function
@spec("C12", min_obl=30)
def c12(rep, tier):
    rule = "0 below -width, 1 above +width, sine-smoothed ramp between (compared region by region)"
    for dim in (2, 3):
        op = Op("char_func_%dd" % dim, dim, "gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_%dd" % dim,
                {"char_func_field": "s", "level_set_field": "s"}, ["char_func_field"], None)
        bw = cas.sym("blend_width", False, True)
        jobs = [(r, t, f, None, bw) for r, t, f in CONFIGS] + [(F64, False, False, None, Fraction(1, 2)), (F64, False, False, None, 2)]
        jobs += [(F64, False, False, s, bw) for s in small_shapes(dim, "quick")]
        if tier == "thorough":
            jobs += [(r, t, f, None, Fraction(3, 10)) for r, t, f in ALLCONFIGS]
        for real, thr, fixed, shp, b in jobs:
            name = label(op, real, thr, fixed, ",width=%s%s" % (b, "," + conc(shp) if shp else ""))
            for o in run_op(rep, op, real, thr, fixed, gkw={"blend_width": b}, shape=mkshape(op, shp) if shp else None,
                            warm=real is F64 and shp is None):
                if o.raised:
                    rep.fail(name, rule, o.raised.where, "raises: %s" % o.raised)
                    continue
                got = o.env.arr["char_func_field"].base.pieces
                phi = o.env.fld("level_set_field")()
                B = E(b)
                ramp = (ONE + phi / B + fn("sin", PI * phi / B) / PI) * Fraction(1, 2)
                bad = []
                pa = phi.atoms()[0] if isinstance(phi.atoms(), list) else list(phi.atoms())[0]
                box = full_box(o.env.arr["char_func_field"].base.shape)
                for rg, want in (("below", ZERO), ("above", ONE), ("inside+", ramp), ("inside-", ramp)):
                    sg = region_sign(phi, B, rg)
                    p2 = [(bx, cas.resolve_signs(ex, sg), pv) for bx, ex, pv in got]
                    bad += [(rg, x) for x in diff_pieces(p2, [(box, want, "")], o.conds)]
                for rg, at, want in (("at 0", ZERO, const(Fraction(1, 2))), ("at +width", B, ONE), ("at -width", -B, ZERO)):
                    from ..arrays import simp_in_box
                    p2 = []
                    for bx, ex, pv in got:
                        q = [a for a in ex.all_atoms() if a.kind == "ref" and a.args[0] == "level_set_field"]
                        p2.append((bx, cas.subst(ex, {a: at for a in q}) if len(q) == 1 else ex, pv))
                    bad += [(rg, x) for x in diff_pieces(p2, [(box, want, "")], o.conds)]
                rep.check(not bad, name, rule, bad[0][1][3] if bad else "", "; ".join("%s: %s" % (g, show_diff([x])) for g, x in bad[:2]))


def region_sign(phi, b, rg):
    """sign oracle for expressions linear in the level set value, inside one region"""
    u = cas.sym("excess", False, True)

    def truth(e):
        at = [a for a in e.all_atoms() if a.kind == "ref" and a.args[0] == "level_set_field"]
        if len(set(at)) != 1:
            return lin_sign(e, b, u, True) if not at else None
        pa = at[0]
        if rg == "below":
            return lin_sign(cas.subst(e, {pa: -b - u}), b, u, True)
        if rg == "above":
            return lin_sign(cas.subst(e, {pa: b + u}), b, u, True)
        # |phi| = u with 0 < u < b
        return lin_sign(cas.subst(e, {pa: u if rg == "inside+" else -u}), b, u, False)
    return truth


def lin_sign(x, b, u, outside=False):
    """sign of a linear form alpha*b + beta*u; b > 0, u > 0 (not outside: u < b)"""
    bat = [a for a in b.atoms()]
    uat = [a for a in u.atoms()][0]
    if bat:
        low = min([0] + [n for m in x.t for a, n in m if a is bat[0] and isinstance(n, int)])
        x = x * b ** -low      # b > 0
    al = be = Fraction(0)
    for m, c in x.t.items():
        if len(m) == 0:
            if bat:
                return None
            al += c / b.value
        elif len(m) == 1 and m[0] == (uat, 1):
            be += c
        elif bat and len(m) == 1 and m[0] == (bat[0], 1):
            al += c
        else:
            return None
    if outside:
        if al >= 0 and be >= 0 and (al > 0 or be > 0):
            return 1
        if al <= 0 and be <= 0 and (al < 0 or be < 0):
            return -1
        return None
    # 0 < u < b : values at the ends al*b and (al+be)*b
    v0, v1 = al, al + be
    if v0 >= 0 and v1 >= 0 and (v0 > 0 or v1 > 0):
        return 1
    if v0 <= 0 and v1 <= 0 and (v0 < 0 or v1 < 0):
        return -1
    return None


# ---------------------------------------------------------------- Laplacian filter
def filt_axis(arr, axis, order, shape, dtype):
    """order-fold application of the 1D kernel 1/4(-l+2c-r) along axis, zero on the ghost zone of every pass"""
    from .. import arrays as A
    cur = arr
    for _ in range(order):
        out = Arr.of(Base.make(shape, dtype, ZERO, "wfilt"))
        win = lambda o: tuple(A.SliceV(E(1 + (o if d == axis else 0)), shape[d] - 1 + (o if d == axis else 0), None) for d in range(3))
        t = A.ewise(lambda l, c, r: (2 * c - l - r) * Fraction(1, 4),
                    [A.getitem(cur, win(-1)), A.getitem(cur, win(0)), A.getitem(cur, win(1))], dtype)
        A.assign(A.getitem(out, win(0)), t)
        cur = out
    return cur


def filter_want(arr, order, kind, shape, dtype):
    from .. import arrays as A
    sub = lambda x, y: A.ewise(lambda a, b: a - b, [x, y], dtype)
    if kind == "multiplicative":
        cur = arr
        for _ in range(order):
            for axis in (2, 1, 0):
                cur = filt_axis(cur, axis, 1, shape, dtype)
        return sub(arr, cur)
    cur = arr
    for axis in (2, 1, 0):
        cur = sub(cur, filt_axis(cur, axis, order, shape, dtype))
    return cur


def filter_run(rep, real, thr, fixed, order, ft, kind, shp, warm=False):
    vec = ft == "vector"
    n = "vector_field" if vec else "scalar_field"
    op = Op("laplacian_filter_3d/%s/%s" % (kind, ft), 3, "gen_laplacian_filter_kernel_3d", {n: "v" if vec else "s"}, [n], None)
    shape = mkshape(op, shp) if shp else tuple(isym(x, 16) for x in NAMES[3])

    def fn(it):
        gen = anchor(it, op.module, op.gen)
        e = Env(op, real.name, shape)
        fb = symarr("filter_flux_buffer", shape, real.name)
        bb = symarr("field_buffer", shape, real.name)
        fn.before = {q: a.base.snapshot() for q, a in e.arr.items()}
        kw = dict(filter_order=order, filter_flux_buffer=fb, field_buffer=bb, real_t=real, num_threads=thr,
                  fixed_grid_size=tuple(shape) if fixed else False, field_type=ft, filter_type=kind)
        if warm:
            decoys(it, gen, kw)
        k = it.call(gen, [], kw)
        if warm:
            decoys(it, gen, kw)
            it.call(k, [], {n: symarr("first_" + n, ((3,) if vec else ()) + shape, real.name)})
        dirty(fb, "filter_flux_buffer_")
        dirty(bb, "field_buffer_")
        it.call(k, [], {n: e.arr[n]})
        return e
    name = "%s[order=%d,%s,threads=%s,%s%s%s]" % (op.key, order, real.name, thr, "fixed" if fixed else "generic",
                                                "," + conc(shp) if shp else "", ",second-call" if warm else "")
    for conds, it, r in run_paths(fn):
        rep.absorb(it)
        yield name, conds, it, r, n, vec, shape


@spec("C13", min_obl=20)
def c13(rep, tier):
    rule = ("order >= 1: field - G^order field with G the product (multiplicative) or one direction after the other (convolution) of the 1D "
            "kernels 1/4(-1,2,-1), zero flux on the ghost zone")
    jobs = []
    for kind in ("multiplicative", "convolution"):
        for ft in ("scalar", "vector"):
            for order in ((1, 2) if tier == "quick" else (1, 2, 3)):
                if ft == "vector" and order > 1 and tier == "quick":
                    continue
                jobs.append((F64, False, False, order, ft, kind, None, False))
            jobs.append((F32, 4, True, 1, ft, kind, None, True))
            for m in (1, 2, 3, 4) + ((5, 6) if tier == "thorough" else ()):
                jobs.append((F64, True, False, 1, ft, kind, (m,) * 3, False))
        for order in (3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 33, 65, 101):
            jobs.append((F64, False, False, order, "scalar", kind, (3, 4, 3), False))
        for order in (5, 11, 40):
            jobs.append((F32, False, False, order, "vector", kind, (3, 3, 4), False))
    for real, thr, fixed, order, ft, kind, shp, warm in jobs:
        for name, conds, it, r, n, vec, shape in filter_run(rep, real, thr, fixed, order, ft, kind, shp, warm):
            if isinstance(r, AbsRaise):
                rep.fail(name, rule, r.where, "raises: %s" % r)
                continue
            from .. import arrays as A
            d = []
            for c in (range(3) if vec else [None]):
                src = symarr(n, ((3,) if vec else ()) + shape, real.name)
                a0 = A.getitem(src, c) if vec else src
                w = filter_want(a0, order, kind, shape, real.name)
                g = A.getitem(r.arr[n], c) if vec else r.arr[n]
                d += diff_pieces(g.pieces(), w.pieces(), conds)
            rep.check(not d, name, rule, d[0][3] if d else "", show_diff(d, 1))
    # order 0: the documented kernel raised to power 0 leaves the mean: field - field = 0 is degenerate; the result must
    # at least not depend on what the scratch buffers held before
    rule0 = "the filtered field is a function of the input field only (scratch buffers never leak into the result)"
    for kind in ("multiplicative", "convolution"):
        for ft in ("scalar", "vector"):
            for order in (0, 1, 2):
                if order == 2 and ft == "vector":
                    continue
                for name, conds, it, r, n, vec, shape in filter_run(rep, F64, False, False, order, ft, kind, None):
                    if isinstance(r, AbsRaise):
                        rep.fail(name + "/buffers", rule0, r.where, "raises: %s" % r)
                        continue
                    bad = [(b, e, p) for b, e, p in r.arr[n].base.pieces
                           if any(a.kind == "ref" and "buffer" in str(a.args[0]) for a in e.all_atoms())]
                    rep.check(not bad, name + "/buffers", rule0, bad[0][2] if bad else "",
                              "cells %s depend on a scratch buffer: %s" % (box_str(bad[0][0]), clip(bad[0][1])) if bad else "")
    for s in ("nx", "ny", "nz"):
        isym(s)
