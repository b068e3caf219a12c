"""Properties shared by every generated stencil kernel: frame, safety, precision,
fixed-size specialisation, option validation."""
from .. import arrays as A
from .. import cas
from ..arrays import AbsRaise, box_str
from ..cas import E
from ..core import DEFERRED, anchor, clip, diff_pieces, isym, run_paths, show_diff, symarr
from ..interp import DT
from . import spec
from .ops import EXTRA, NAMES, OPS, Env
from .run import Exact, F32, F64, label, rounded, run_op
from .stencil import conc, mkshape

EVERY = OPS + EXTRA


def sizes(op, tier):
    k = [None]
    g = 2 * (2 if "penal" in op.key else 1)
    if tier == "thorough":
        k += [(n,) * op.dim for n in range(g, g + 5)]
    else:
        k += [(g,) * op.dim, (g + 1,) * op.dim]
    return k


# ---------------------------------------------------------------- C06
@spec("C06", min_obl=150)
def c06(rep, tier):
    rule = "an array that is not a documented output or scratch buffer of the call holds the same content on every cell after the call"
    rule2 = "scalar arguments (lists of component values) are not modified"
    for op in EVERY:
        for real, thr, fixed in ((F64, False, False), (F32, 4, True)):
            for shp in sizes(op, tier):
                if fixed and shp:
                    continue
                for o in run_op(rep, op, real, thr, fixed, shape=mkshape(op, shp) if shp else None):
                    nm = label(op, real, thr, fixed, "," + conc(shp) if shp else "")
                    for n, a in o.env.arr.items():
                        if n in op.writes:
                            continue
                        d = diff_pieces(a.base.pieces, a.base.init, o.conds)
                        rep.check(not d, "%s/%s" % (nm, n), rule, d[0][3] if d else "", "input %s: %s" % (n, show_diff(d)))
                    for n, kind in op.args.items():
                        if kind == "nums":
                            want = [cas.sym("%s_%d" % (n, c)) for c in range(op.dim)]
                            rep.check(o.env.kw[n] == want, "%s/%s" % (nm, n), rule2, op.gen, "list %s changed to %s" % (n, o.env.kw[n]))


# ---------------------------------------------------------------- C07
@spec("C07", min_obl=150)
def c07(rep, tier):
    r_race = "no stencil reads or writes, at another cell, an allocation it writes: iterations are independent, so any thread schedule gives the same result"
    r_oob = "every access of every stencil stays inside the arrays it is given"
    r_thr = "the content left in every array is the same for every thread setting"
    for op in EVERY:
        for real, fixed in ((F64, False), (F32, True)):
            for shp in sizes(op, tier) if not fixed else [None]:
                base = None
                for thr in (False, True, 1, 4):
                    nm = label(op, real, thr, fixed, "," + conc(shp) if shp else "")
                    before = len(DEFERRED)
                    outs = list(run_op(rep, op, real, thr, fixed, shape=mkshape(op, shp) if shp else None))
                    if len(DEFERRED) > before:
                        continue  # undecided
                    hz = [e for o in outs for e in o.events if e[0] == "hazard"]
                    ob = [e for o in outs for e in o.events if e[0] == "oob"]
                    rep.check(not hz, nm + "/independent", r_race, hz[0][2] if hz else "", hz[0][1] if hz else "")
                    rep.check(not ob, nm + "/bounds", r_oob, ob[0][2] if ob else "", ob[0][1] if ob else "")
                    cur = [(o.conds, str(o.raised) if o.raised else {n: a.base.snapshot() for n, a in o.env.arr.items()}) for o in outs]
                    if base is None:
                        base = cur
                        continue
                    bad = same_results(base, cur)
                    rep.check(not bad, nm + "/same-as-serial", r_thr, bad[1] if bad else "", bad[0] if bad else "")


def same_results(x, y):
    if len(x) != len(y):
        return ("different branching (%d vs %d paths)" % (len(x), len(y)), "")
    for (c1, a), (c2, b) in zip(x, y):
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return ("raises: %s / %s" % (a if isinstance(a, str) else "-", b if isinstance(b, str) else "-"), "")
            continue
        for n in a:
            if n not in b:
                return ("array %s missing" % n, "")
            d = diff_pieces(b[n], a[n], c2)
            if d:
                return ("%s: %s" % (n, show_diff(d)), d[0][3])
    return None


# ---------------------------------------------------------------- C14
BADT = ["int32", "int64", "float16", "complex64", "complex128"]


@spec("C14", min_obl=200)
def c14(rep, tier):
    r_t = "every compiled stencil works on fields of the requested precision and evaluates its arithmetic and literals at least at that precision"
    r_ok = "arrays of the requested precision are accepted"
    r_bad = "an array of the other precision is rejected by an exception, never converted or reinterpreted"
    it0 = None
    for op in EVERY:
        for real, other in ((F32, "float64"), (F64, "float32")):
            for thr, fixed in ((False, False), (4, True)):
                nm = label(op, real, thr, fixed)
                for o in run_op(rep, op, real, thr, fixed):
                    rep.check(not o.raised, nm + "/accepts", r_ok, o.raised.where if o.raised else "", "raises: %s" % o.raised)
                    seen = {}
                    for e in o.events:
                        if e[0] == "kernel":
                            bad = kernel_precision(e[1], real.name, e[2])
                            if bad or id(e[1]) not in seen:
                                seen[id(e[1])] = (e[1], e[3], bad)
                    for k, site, bad in seen.values():
                        rep.check(not bad, "%s/%s" % (nm, k.kname), r_t, "%s, called at %s" % (k.where_created, site), bad)
            # wrong precision for each array argument in turn
            fields = [n for n, kind in op.args.items() if kind in "svc"]
            for n in fields:
                nm = "%s[%s]/%s as %s" % (op.key, real.name, n, other)

                def prep(env, n=n, other=other):
                    kind = op.args[n]
                    dt = {"float32": "complex64", "float64": "complex128"}[other] if kind == "c" else other
                    a = env.arr[n]
                    env.arr[n] = env.kw[n] = symarr(n, a.shape, dt)
                for o in run_op(rep, op, real, False, False, prep=prep):
                    rep.check(bool(o.raised), nm, r_bad, op.gen, "the call completes: an array of %s is accepted by a %s kernel" % (other, real.name))
    r_full = "with double precision no intermediate value or constant is rounded to single precision on its way to the result"
    for op in EVERY:
        for thr, fixed in ((False, False), (4, True)):
            nm = label(op, F64, thr, fixed) + "/exact"
            with Exact():
                for o in run_op(rep, op, F64, thr, fixed):
                    if o.raised:
                        continue
                    bad = [(n, rounded(a.base.pieces)) for n, a in o.env.arr.items()]
                    bad = [(n, w) for n, w in bad if w]
                    rep.check(not bad, nm, r_full, "%s, %s" % (bad[0][1], "; ".join(sorted(set(A.NARROWED))[:2])) if bad else "",
                              "array %s holds a value that was rounded to single precision" % bad[0][0] if bad else "")
    c14_objects(rep, r_full)
    rule = "get_real_t maps single to float32, double to float64 and refuses anything else"

    def fnp(it):
        g = anchor(it, "sopht.utils.precision", "get_real_t")
        return it.call(g, [], {"precision": fnp.p})
    for p, want in (("single", "float32"), ("double", "float64"), ("half", None), ("quad", None), ("", None), ("Double", None)):
        fnp.p = p
        for conds, it, r in run_paths(fnp):
            rep.absorb(it)
            if want is None:
                rep.check(isinstance(r, AbsRaise), "get_real_t(%r)" % p, rule, "sopht/utils/precision.py", "returns %s" % r)
            else:
                rep.check(isinstance(r, DT) and r.name == want, "get_real_t(%r)" % p, rule, "sopht/utils/precision.py", "gives %s" % r)


def c14_objects(rep, rule):
    """solvers, transforms and immersed-boundary objects built for double precision"""
    from . import forcing, ibm, poisson

    def job(nm, f):
        def g(it):
            with Exact():
                return f(it)
        try:
            for conds, it, r in run_paths(g):
                rep.absorb(it)
                if isinstance(r, AbsRaise):
                    continue
                bad = [(n, rounded(a.base.pieces)) for n, a in r.items()]
                bad = [(n, w) for n, w in bad if w]
                rep.check(not bad, nm + "/exact", rule, "%s, %s" % (bad[0][1], "; ".join(sorted(set(A.NARROWED))[:2])) if bad else "",
                          "%s holds a value that was rounded to single precision" % bad[0][0] if bad else "")
                dt = [(n, a.dtype) for n, a in r.items() if RANK.get({"complex64": "float32", "complex128": "float64"}.get(a.dtype, a.dtype), 2) < 2]
                rep.check(not dt, nm + "/arrays", "arrays of a double-precision object are double precision", nm, "%s" % dt)
        finally:
            A.NARROW[0] = False
    for dim in (2, 3):
        sh = poisson.dims(dim)
        for cls, kw in (("UnboundedPoissonSolverPYFFTW%dD" % dim, dict(x_range=poisson.X)),
                        ("FastDiagPoissonSolver%dD" % dim, dict(dx=poisson.X / sh[-1]))):
            def f(it, cls=cls, kw=kw):
                s = poisson.make(it, dim, cls, sh, real_t=F64, **kw)
                sol, rhs = symarr("sol", sh, "float64"), symarr("rhs", sh, "float64")
                it.call(it.getattr(s, "solve"), [], dict(solution_field=sol, rhs_field=rhs))
                return {"the solution": sol}
            job(cls, f)
            if cls.endswith("PYFFTW3D"):
                def f(it, cls=cls, kw=kw):
                    s = poisson.make(it, dim, cls, sh, real_t=F64, **kw)
                    sol, rhs = symarr("vsol", (3,) + sh, "float64"), symarr("vrhs", (3,) + sh, "float64")
                    it.call(it.getattr(s, "vector_field_solve"), [], dict(solution_vector_field=sol, rhs_vector_field=rhs))
                    return {"the solution": sol}
                job(cls + ".vector_field_solve", f)

        def f(it):
            p = poisson.make(it, dim, "FFTPyFFTW%dD" % dim, sh, num_threads=1, real_t=F64)
            return {"the field buffer": it.getattr(p, "field_pyfftw_buffer"), "the spectrum buffer": it.getattr(p, "fourier_field_pyfftw_buffer")}
        job("FFTPyFFTW%dD" % dim, f)
        for kind in ("cosine", "peskin"):
            for nc in (1, dim):
                def go(N, kind=kind, nc=nc):
                    def f(it):
                        c = ibm.comm(it, dim, N, 2, F64, nc, kind)
                        pre = () if nc == 1 else (nc,)
                        win = ibm.win_shape(dim, 2)
                        sup, near = symarr("sup0", (dim,) + win + (N,), "float64"), symarr("near0", (dim, N), "int64")
                        wt, lag = symarr("wt0", win + (N,), "float64"), symarr("lag0", pre + (N,), "float64")
                        eul = symarr("eul0", pre + ibm.grid(dim), "float64")
                        it.call(it.getattr(c, "local_eulerian_grid_support_of_lagrangian_grid_kernel"), [],
                                dict(local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=near,
                                     lag_positions=ibm.positions(dim, N, "float64")))
                        out = {"the support": A.copy(sup)}
                        it.call(it.getattr(c, "interpolation_weights_kernel"), [], dict(interp_weights=wt, local_eul_grid_support_of_lag_grid=sup))
                        out["the weights"] = A.copy(wt)
                        w2, n2 = symarr("wt1", win + (N,), "float64"), ibm.near_array(dim, N)
                        it.call(it.getattr(c, "eulerian_to_lagrangian_grid_interpolation_kernel"), [],
                                dict(lag_grid_field=lag, eul_grid_field=eul, interp_weights=w2, nearest_eul_grid_index_to_lag_grid=n2))
                        out["the interpolated field"] = A.copy(lag)
                        lag = symarr("lag0", pre + (N,), "float64")
                        it.call(it.getattr(c, "lagrangian_to_eulerian_grid_interpolation_kernel"), [],
                                dict(eul_grid_field=eul, lag_grid_field=lag, interp_weights=w2, nearest_eul_grid_index_to_lag_grid=n2))
                        out["the spread field"] = eul
                        return out
                    ibm.bounds.REF_LB[ibm.KN] = 1
                    job("communicator %dD[%s,components=%d]" % (dim, kind, nc), f)
                ibm.generic_or_counts(rep, go, "quick")
        for which, t in ((forcing.VB, "virtual boundary"), (forcing.BR, "brinkmann")):
            def go(N, which=which, t=t):
                def f(it):
                    it.new_hook = forcing.hook
                    v = forcing.make(it, which, dim, N, F64, False)
                    a, eul = forcing.Args("A", dim, N, F64), forcing.eul_field(dim, F64)
                    forcing.c29_call(it, which, v, eul, a, cas.sym("dt_ib", nonneg=True))
                    if which is forcing.VB:
                        it.call(it.getattr(v, "time_step"), [], dict(dt=cas.sym("dt_ib", nonneg=True)))
                    out = {"attribute " + n: x for n, x in forcing.buffers(v).items() if x.dtype != "int64"}
                    out["the Eulerian field"] = eul
                    return out
                job("%s %dD" % (t, dim), f)
            ibm.generic_or_counts(rep, go, "quick")


RANK = {"float32": 1, "float64": 2}


def tname(x):
    return x.name if isinstance(x, DT) else str(x).replace("double", "float64").replace("single", "float32")


def dyadic(v):
    return v.is_const and not (v.value.denominator & (v.value.denominator - 1))


def kernel_precision(k, real, kwargs):
    """pystencils gives every arithmetic node the widest type among its operands: fields have their own type, untyped scalar
    arguments take data_type, literals default_number_float.  A narrow data_type matters when there is a scalar argument, a
    narrow literal type when an assigned value consists of literals only (and is not a dyadic number)."""
    for f in k.fields.values():
        if f.dtype != real:
            return "stencil %s uses field %s of type %s in a %s kernel" % (k.kname, f.name, f.dtype, real)
    dt = tname(k.config.kw.get("data_type"))
    nf = k.config.kw.get("default_number_float")
    nf = dt if nf is None else tname(nf)
    pars = [p for p in k.params if not dyadic(E(kwargs[str(p.args[0])[1:]]))]
    if RANK.get(dt, 0) < RANK[real] and pars:
        return "stencil %s takes scalar %s as %s, below the precision of its %s fields" % (
            k.kname, ", ".join(str(p.args[0])[1:] for p in pars), dt, real)
    if RANK.get(nf, 0) < RANK[real]:
        for a in k.assigns:
            if a.rhs.is_const and not dyadic(a.rhs):
                return "stencil %s assigns the literal %s as %s" % (k.kname, a.rhs.value, nf)
    return ""


# ---------------------------------------------------------------- C15
@spec("C15", min_obl=60)
def c15(rep, tier):
    r_same = "the kernel specialised to a grid size leaves the same content in every array as the generic kernel"
    r_rej = "a kernel specialised to a grid size refuses arrays of another size"
    for op in EVERY:
        if op.nofixed:
            continue
        shapes = [None] + ([(4, 5, 6)[3 - op.dim:], (5, 4, 7)[3 - op.dim:]] if tier == "thorough" else [(4, 5, 6)[3 - op.dim:]])
        for real, thr in ((F64, False), (F32, 4)):
            for shp in shapes:
                sh = mkshape(op, shp) if shp else None
                nm = label(op, real, thr, True, "," + conc(shp) if shp else "")
                res, before = [], len(DEFERRED)
                for fixed in (False, True):
                    outs = list(run_op(rep, op, real, thr, fixed, shape=sh))
                    res.append([(o.conds, str(o.raised) if o.raised else {n: a.base.snapshot() for n, a in o.env.arr.items()}) for o in outs])
                if len(DEFERRED) > before:
                    continue  # one side is undecided
                bad = same_results(res[0], res[1])
                rep.check(not bad, nm, r_same, bad[1] if bad else "", bad[0] if bad else "")
        # other sizes
        for d in range(op.dim):
            nm = "%s/other extent on axis %d" % (op.key, d)

            def fn(it):
                gen = anchor(it, op.module, op.gen)
                env = Env(op, "float64")
                other = list(env.shape)
                other[d] = isym(NAMES[op.dim][d] + "_other", 8)
                k = it.call(gen, [], dict(op.gkw, real_t=F64, fixed_grid_size=tuple(env.shape), **env.gkw))
                for n, kind in op.args.items():
                    if kind in "svc":
                        a = env.arr[n]
                        off = a.nd - op.dim
                        sh = tuple(a.shape[:off]) + tuple(other)
                        env.kw[n] = symarr(n, sh, a.dtype)
                it.call(k, [], env.kw)
            for conds, it, r in run_paths(fn):
                rep.absorb(it)
                rep.check(isinstance(r, AbsRaise), nm, r_rej, op.gen, "the call completes on a grid of another size")


# ---------------------------------------------------------------- C16
@spec("C16", min_obl=100)
def c16(rep, tier):
    rule = "a generator given an option outside its documented set raises instead of returning a kernel"
    seen = set()
    for op in EVERY:
        jobs = []
        for t in BADT:
            jobs.append(("real_t", DT(t)))
        if "field_type" in op.gkw:
            jobs += [("field_type", v) for v in ("tensor", "Scalar", "VECTOR", "", None, 3)]
        if "width" in op.gkw:
            lo = [-1, -3] + ([0] if "set_boundary" in op.key else [])
            jobs += [("width", v) for v in lo] + [("width", cas.const(cas.Fraction(3, 2)))]
        if "filter_order" in op.gkw:
            jobs += [("filter_order", -1), ("filter_order", cas.const(cas.Fraction(3, 2)))]
        if "filter_type" in op.gkw:
            jobs += [("filter_type", v) for v in ("gaussian", "Convolution", "", None)]
        for par, val in jobs:
            base = {k: v for k, v in op.gkw.items()}
            key = (op.gen, par, str(val), tuple(sorted((k, str(v)) for k, v in base.items() if k != par)))
            if key in seen:
                continue
            seen.add(key)
            nm = "%s/%s=%s" % (op.key, par, val)

            def fn(it):
                gen = anchor(it, op.module, op.gen)
                env = Env(op, "float64")
                kw = dict(base, real_t=F64, **env.gkw)
                kw[par] = val
                return it.call(gen, [], kw)
            for conds, it, r in run_paths(fn):
                rep.absorb(it)
                rep.check(isinstance(r, AbsRaise), nm, rule, op.gen, "returns %s" % type(r).__name__)
