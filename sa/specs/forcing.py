"""Feedback forcing classes: virtual boundary and Brinkmann boundary forcing."""
from .. import arrays as A
from .. import bounds, cas
from ..arrays import AbsRaise, Arr, Base, Unsupported
from ..bounds import Undecidable
from ..cas import E, ZERO, const, idx, ref
from ..core import anchor, isym, run_paths, symarr
from ..interp import ModelFn
from . import spec
from .ibm import DX, KN, PKG, SHIFT, TH, among, comm, exact, generic_or_counts, grid, nodes, pn, raised, races, same, unchanged
from .run import F32, F64

COMM = ("EulerianLagrangianGridCommunicator2D", "EulerianLagrangianGridCommunicator3D")
VB = (PKG, "VirtualBoundaryForcing")
BR = (PKG, "BrinkmannBoundaryForcing")
#: kernels whose results are named by their content (value numbering across the kernel boundary)
NAMED = ("interpolation_weights_kernel", "eulerian_to_lagrangian_grid_interpolation_kernel")
KPOS, KVEL, LAM = cas.sym("stiffness"), cas.sym("damping"), cas.sym("brinkmann_lambda", nonneg=True)


def hook(it, inst):
    """results of the communicator's weight and interpolation kernels get a name determined by their content"""
    if inst.cls.name not in COMM:
        return
    for nm in NAMED:
        k = it.getattr(inst, nm)

        def wrapped(it_, *a, _k=k, _nm=nm, **kw):
            arrs = [x for x in list(a) + list(kw.values()) if isinstance(x, Arr)]
            before = [(x, x.base.version if hasattr(x.base, "version") else None, list(x.base.pieces)) for x in arrs]
            r = it_.call(_k, list(a), kw)
            for x, _, old in before:
                if x.base.pieces != old and is_whole(x):
                    n = A.op_name("named:" + _nm, [x])
                    x.base.pieces[:] = [(A.full_box(x.base.shape), ref(n, [idx(d) for d in range(x.base.nd)]), "")]
            return r
        inst.attrs[nm] = ModelFn(nm, wrapped, interp=True)


def is_whole(x):
    v = Arr.of(x.base)
    return [str(s) for s in x.full_vshape()] == [str(s) for s in v.full_vshape()]


class Args:
    """arguments of one interaction step"""

    def __init__(self, tag, dim, N, real):
        self.dim, self.N = dim, N
        self.vel = symarr("vel" + tag, (dim,) + grid(dim), real.name)
        self.body = symarr("body" + tag, (dim, N), real.name)
        ps = [(((const(d), const(d + 1)), (ZERO, N)),
               SHIFT + DX * (ref(KN + tag, [d, idx(1)]) + ref(TH + tag, [d, idx(1)])), "") for d in range(dim)]
        b = Base((const(dim), N), real.name, ps, "pos" + tag)
        b.init = list(ps)
        self.pos = Arr.of(b)
        self.arrs = {"eul_grid_velocity_field": self.vel, "lag_grid_position_field": self.pos, "lag_grid_velocity_field": self.body}

    def kw(self):
        return dict(self.arrs)

    def become(self, other):
        """the same array objects with the content of other arguments (bodies and flows evolve in place)"""
        for n, x in self.arrs.items():
            x.base.pieces[:] = list(other.arrs[n].base.pieces)
            x.base.init = list(x.base.pieces)


for _t in ("A", "B", "P"):
    cas.INT_REFS.add(KN + _t)
    cas.UNIT.add(TH + _t)
    bounds.REF_LB[KN + _t] = 1


def lag_names(dim):
    return [idx(0), idx(1)]


def flow_of(it, c, args, real):
    """reference: what the communicator interpolates for these arguments, and its window data"""
    dim, N = args.dim, args.N
    sup = symarr("r_sup", (dim,) + (4,) * dim + (N,), real.name)
    near = symarr("r_near", (dim, N), "int64")
    wt = symarr("r_wt", (4,) * dim + (N,), real.name)
    flow = symarr("r_flow", (dim, N), real.name)
    it.call(it.getattr(c, "local_eulerian_grid_support_of_lagrangian_grid_kernel"), [],
            dict(local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=near, lag_positions=args.pos))
    it.call(it.getattr(c, "interpolation_weights_kernel"), [], dict(interp_weights=wt, local_eul_grid_support_of_lag_grid=sup))
    it.call(it.getattr(c, "eulerian_to_lagrangian_grid_interpolation_kernel"), [],
            dict(lag_grid_field=flow, eul_grid_field=args.vel, interp_weights=wt, nearest_eul_grid_index_to_lag_grid=near))
    return flow, wt, near


def lagarr(name, dim, N, real, f):
    """array over (component, node) holding f(component-index, node-index)"""
    ps = [(A.full_box((E(dim), E(N))), f(idx(0), idx(1)), "")]
    b = Base((const(dim), E(N)), real.name, ps, name)
    return Arr.of(b)


def at(arr):
    """content of a whole-named (component, node) array as an expression in idx(0), idx(1)"""
    ps = arr.base.pieces
    if len(ps) != 1:
        raise Unsupported("reference content in several pieces")
    return ps[0][1]


def spread_of(it, c, eul, lag, wt, near, scale=None):
    w = wt
    if scale is not None:
        ps = [(b, e * scale, p) for b, e, p in wt.base.pieces]
        w = Arr.of(Base(wt.base.shape, wt.base.dtype, ps, "r_wts"))
    it.call(it.getattr(c, "lagrangian_to_eulerian_grid_interpolation_kernel"), [],
            dict(eul_grid_field=eul, lag_grid_field=lag, interp_weights=w, nearest_eul_grid_index_to_lag_grid=near))


def make(it, which, dim, N, real, reset, threads=False, defaults=False, among_others=False, **over):
    C = anchor(it, *which)
    k = dict(grid_dim=dim, dx=DX, num_lag_nodes=pn(N), real_t=real)
    if which is VB:
        k.update(virtual_boundary_stiffness_coeff=KPOS, virtual_boundary_damping_coeff=KVEL, enable_eul_grid_forcing_reset=reset)
    else:
        k.update(brinkmann_coeff=LAM, enable_eul_grid_flux_reset=reset)
    if not defaults or which is BR:
        k.update(eul_grid_coord_shift=SHIFT, interp_kernel_width=2)
    if defaults:
        k.pop("enable_eul_grid_forcing_reset", None)
        k.pop("enable_eul_grid_flux_reset", None)
    k["num_threads"] = threads
    k.update(over)
    if not among_others:
        return it.call(C, [], k)
    coef = {n: cas.sym("other_" + n, nonneg=True) for n in k if n.endswith("_coeff")}
    return among(it, C, k, [coef, dict(grid_dim=5 - dim), dict(real_t=F32 if real is F64 else F64)])


STATE = {"lag_grid_position_mismatch_field": "X0"}


def buffers(inst):
    return {n: a for n, a in inst.attrs.items() if isinstance(a, Arr)}


def junk(inst, keep=()):
    """arbitrary content in every buffer of the object: anything earlier calls could have left"""
    for n, a in buffers(inst).items():
        if n in keep or a.base.dtype in ("int64", "int32"):
            continue
        nm = STATE.get(n, "junk_" + n)
        a.base.pieces[:] = [(A.full_box(a.base.shape), ref(nm, [idx(d) for d in range(a.base.nd)]), "")]
        a.base.init = list(a.base.pieces)


def eul_field(dim, real, nm="eul0"):
    return symarr(nm, (dim,) + grid(dim), real.name)


def zero_field(dim, real):
    a = eul_field(dim, real)
    a.base.pieces[:] = [(A.full_box(a.base.shape), ZERO, "")]
    return a


def attr(it, inst, n):
    from ..core import AnchorLost
    try:
        return it.getattr(inst, n)
    except AbsRaise:
        raise AnchorLost("attribute %s of %s" % (n, inst.cls.name))


def configs(tier):
    for dim in (2, 3):
        for real in (F64, F32):
            for reset in (True, False):
                yield dim, real, reset


# ---------------------------------------------------------------- C27
@spec("C27", min_obl=60)
def c27(rep, tier):
    r_zero = "position mismatch, velocity mismatch and forcing start at zero"
    r_mis = "velocity mismatch = interpolated flow velocity - body velocity"
    r_for = "Lagrangian forcing = stiffness * position mismatch + damping * velocity mismatch"
    r_eul = "Eulerian forcing = what was there (zero with reset) + spread of the Lagrangian forcing"
    r_time = "time_step adds dt * velocity mismatch to the position mismatch and dt to the time, nothing else"
    r_dt = "real buffers carry the requested precision"
    t0, dt, dt_p = cas.sym("t_start"), cas.sym("dt_any"), cas.sym("dt_before")

    def job(dim, real, reset, defaults, threads, later=False, zero=False):
        def go(N):
            nm = "virtual boundary %dD[%s,reset=%s,defaults=%s,threads=%s,nodes=%s%s%s]" % (
                dim, real.name, reset, defaults, threads, N, ",later step" if later else "", ",unshifted grid" if zero else "")

            def f(it):
                it.new_hook = hook
                kw = {} if defaults else {"start_time": t0}
                if zero:
                    kw["eul_grid_coord_shift"] = 0
                v = make(it, VB, dim, N, real, reset, threads, defaults, later, **kw)
                first = {n: list(a.base.pieces) for n, a in buffers(v).items()}
                time0 = attr(it, v, "time")
                a = Args("A", dim, N, real)
                eul = eul_field(dim, real)
                if later:
                    # an earlier step of the same run: the same arrays, held by the caller, with other content
                    a.become(Args("P", dim, N, real))
                    it.call(attr(it, v, "compute_interaction_forcing"), [], dict(eul_grid_forcing_field=eul, **a.kw()))
                    it.call(attr(it, v, "time_step"), [], dict(dt=dt_p))
                    a.become(Args("A", dim, N, real))
                    eul.base.pieces[:] = list(eul.base.init)
                junk(v)
                it.call(attr(it, v, "compute_interaction_forcing"), [], dict(eul_grid_forcing_field=eul, **a.kw()))
                got = {n: Arr.of(Base(x.base.shape, x.base.dtype, list(x.base.pieces), n)) for n, x in buffers(v).items()}
                it.call(attr(it, v, "time_step"), [], dict(dt=dt))
                # the reference
                c = comm(it, dim, N, 2, real, dim, **({"eul_grid_coord_shift": 0 if zero else DX / 2} if defaults or zero else {}))
                flow, wt, near = flow_of(it, c, a, real)
                X = ref("X0", [idx(0), idx(1)])
                M = at(flow) - ref("bodyA", [idx(0), idx(1)])
                Fo = KPOS * X + KVEL * M
                want = zero_field(dim, real) if reset else eul_field(dim, real)
                spread_of(it, c, want, lagarr("r_f", dim, N, real, lambda i, j: Fo), wt, near)
                return v, first, time0, a, eul, got, want, X, M, Fo
            for conds, it, r in run_paths(exact(real, f)):
                rep.absorb(it)
                if raised(rep, nm, r):
                    continue
                v, first, time0, a, eul, got, want, X, M, Fo = r
                full = A.full_box((E(dim), E(N)))
                for n in ("lag_grid_position_mismatch_field", "lag_grid_velocity_mismatch_field", "lag_grid_forcing_field"):
                    if n not in got:
                        from ..core import AnchorLost
                        raise AnchorLost("attribute " + n)
                    same(rep, nm, r_zero, Arr.of(Base(got[n].base.shape, real.name, first[n], n)), [(full, ZERO, "")], conds, "/initial " + n)
                same(rep, nm, r_mis, got["lag_grid_velocity_mismatch_field"], [(full, M, "")], conds, "/velocity mismatch")
                same(rep, nm, r_for, got["lag_grid_forcing_field"], [(full, Fo, "")], conds, "/Lagrangian forcing")
                same(rep, nm, r_time, got["lag_grid_position_mismatch_field"], [(full, X, "")], conds, "/position mismatch before step")
                same(rep, nm, r_eul, eul, want.base.pieces, conds, "/Eulerian forcing")
                X1 = X + dt * M
                same(rep, nm, r_time, v.attrs["lag_grid_position_mismatch_field"], [(full, X1, "")], conds, "/position mismatch after step")
                same(rep, nm, r_time, v.attrs["lag_grid_velocity_mismatch_field"], [(full, M, "")], conds, "/velocity mismatch after step")
                same(rep, nm, r_time, v.attrs["lag_grid_forcing_field"], [(full, Fo, "")], conds, "/forcing after step")
                w0 = ZERO if defaults else t0
                rep.check(cas.equal(E(time0), w0), nm + "/start time", r_time, "", "time starts at %s" % (time0,))
                t1 = attr(it, v, "time")
                rep.check(cas.equal(E(t1), w0 + dt + (dt_p if later else 0)), nm + "/time", r_time, "", "time after step: %s" % (t1,))
                bad = [n for n, x in buffers(v).items() if x.base.dtype not in ("int64", "int32") and x.base.dtype != real.name]
                rep.check(not bad, nm + "/precision", r_dt, "", "buffers %s" % bad)
                races(rep, nm, it)
        return go
    for dim, real, reset in configs(tier):
        generic_or_counts(rep, job(dim, real, reset, False, False), tier)
    for dim in (2, 3):
        generic_or_counts(rep, job(dim, F64, True, True, False), tier)
        generic_or_counts(rep, job(dim, F32, True, False, 4), tier)
        for reset in (True, False):
            generic_or_counts(rep, job(dim, F64, reset, False, False, True), tier)
        generic_or_counts(rep, job(dim, F64, False, False, False, False, True), tier)


# ---------------------------------------------------------------- C28
@spec("C28", min_obl=40)
def c28(rep, tier):
    r_pen = "penalised velocity = (flow + lambda dt body) / (1 + lambda dt), flow the interpolated velocity"
    r_flux = "Lagrangian penalisation flux = penalised velocity - flow velocity"
    r_eul = "Eulerian flux = what was there (zero with reset) + spread of the Lagrangian flux with weights times dx^dim"
    r_f = "Lagrangian forcing = dx^dim * flux / dt"
    r_dt = "real buffers carry the requested precision"
    dt, dt_p = cas.sym("dt_ib", nonneg=True), cas.sym("dt_prev", nonneg=True)

    def job(dim, real, reset, defaults, threads, later=False, zero=False):
        def go(N):
            nm = "brinkmann forcing %dD[%s,reset=%s,defaults=%s,threads=%s,nodes=%s%s%s]" % (
                dim, real.name, reset, defaults, threads, N, ",later step" if later else "", ",unshifted grid" if zero else "")

            def f(it):
                it.new_hook = hook
                kw = {"eul_grid_coord_shift": 0} if zero else {}
                v = make(it, BR, dim, N, real, reset, threads, defaults, later, **kw)
                a = Args("A", dim, N, real)
                eul = eul_field(dim, real)
                if later:
                    # an earlier step of the same run: the same arrays, held by the caller, with other content
                    a.become(Args("P", dim, N, real))
                    it.call(attr(it, v, "compute_interaction_forcing"), [], dict(eul_grid_penalisation_flux=eul, dt=dt_p, **a.kw()))
                    a.become(Args("A", dim, N, real))
                    eul.base.pieces[:] = list(eul.base.init)
                junk(v)
                it.call(attr(it, v, "compute_interaction_forcing"), [], dict(eul_grid_penalisation_flux=eul, dt=dt, **a.kw()))
                c = comm(it, dim, N, 2, real, dim, **kw)
                flow, wt, near = flow_of(it, c, a, real)
                U = at(flow)
                P = (U + LAM * dt * ref("bodyA", [idx(0), idx(1)])) * cas.power(1 + LAM * dt, -1)
                Fl = P - U
                want = zero_field(dim, real) if reset else eul_field(dim, real)
                # the step's own flux is opaque for the window sum once it is known to be right
                spread_of(it, c, want, lagarr("r_f", dim, N, real, lambda i, j: Fl), wt, near, cas.power(DX, dim))
                return v, a, eul, want, U, P, Fl
            for conds, it, r in run_paths(exact(real, f)):
                rep.absorb(it)
                if raised(rep, nm, r):
                    continue
                v, a, eul, want, U, P, Fl = r
                full = A.full_box((E(dim), E(N)))
                Fo = cas.power(DX, dim) * Fl * cas.power(dt, -1)
                for n, w, rule in (("lag_grid_flow_velocity_field", U, r_pen), ("lag_grid_penalised_velocity_field", P, r_pen),
                                   ("lag_grid_penalisation_flux", Fl, r_flux), ("lag_grid_penalisation_forcing", Fo, r_f)):
                    same(rep, nm, rule, attr(it, v, n), [(full, w, "")], conds, "/" + n)
                same(rep, nm, r_eul, eul, want.base.pieces, conds, "/Eulerian flux")
                bad = [n for n, x in buffers(v).items() if x.base.dtype not in ("int64", "int32") and x.base.dtype != real.name]
                rep.check(not bad, nm + "/precision", r_dt, "", "buffers %s" % bad)
                races(rep, nm, it)
        return go
    for dim, real, reset in configs(tier):
        generic_or_counts(rep, job(dim, real, reset, False, False), tier)
    for dim in (2, 3):
        generic_or_counts(rep, job(dim, F64, True, True, False), tier)
        generic_or_counts(rep, job(dim, F32, True, False, 4), tier)
        for reset in (True, False):
            generic_or_counts(rep, job(dim, F64, reset, False, False, True), tier)
        generic_or_counts(rep, job(dim, F64, False, False, False, False, True), tier)


# ---------------------------------------------------------------- C29
def c29_call(it, which, v, eul, a, dt):
    if which is VB:
        it.call(attr(it, v, "compute_interaction_forcing"), [], dict(eul_grid_forcing_field=eul, **a.kw()))
    else:
        it.call(attr(it, v, "compute_interaction_forcing"), [], dict(eul_grid_penalisation_flux=eul, dt=dt, **a.kw()))


@spec("C29", min_obl=40)
def c29(rep, tier):
    r_in = "flow velocity, body positions and body velocity are only read"
    r_own = "two live forcing objects share no buffer, and using one leaves the other's state alone"
    r_fresh = "with reset the Eulerian field after a step is that of a fresh object with the same position mismatch"
    r_acc = "without reset a step adds the same field to whatever the Eulerian field held"
    r_state = "the step changes no persistent state but the velocity mismatch and results (position mismatch only changes in time_step)"
    dt, dt_p = cas.sym("dt_ib", nonneg=True), cas.sym("dt_prev", nonneg=True)

    def setx(v, nm):
        x = v.attrs.get("lag_grid_position_mismatch_field")
        if x is not None:
            x.base.pieces[:] = [(A.full_box(x.base.shape), ref(nm, [idx(0), idx(1)]), "")]

    def job(which, dim, real, reset, inplace):
        def go(N):
            nm = "%s %dD[%s,reset=%s,nodes=%s%s]" % ("virtual boundary" if which is VB else "brinkmann", dim, real.name, reset, N, ",arguments evolve in place" if inplace else "")

            def f(it):
                it.new_hook = hook
                # objects with other parameters, made before and after this one
                k2 = dict(dx=2 * DX, eul_grid_coord_shift=3 * SHIFT)
                k2.update(dict(virtual_boundary_stiffness_coeff=cas.sym("stiffness2"), virtual_boundary_damping_coeff=cas.sym("damping2"))
                          if which is VB else dict(brinkmann_coeff=cas.sym("lambda2", nonneg=True)))
                make(it, which, dim, N, real, not reset, **k2)
                other = make(it, which, dim, N, real, reset)
                v = make(it, which, dim, N, real, reset)
                make(it, which, dim, N, real, not reset, **k2)
                a, b = Args("A", dim, N, real), Args("B", dim, N, real)
                eul = eul_field(dim, real)
                junk(other)
                before = {n: list(x.base.pieces) for n, x in buffers(other).items()}
                setx(v, "X0")
                c29_call(it, which, v, eul, a, dt_p)
                a_seen = {n: (list(x.base.pieces), list(x.base.init)) for n, x in a.arrs.items()}
                x_mid = v.attrs.get("lag_grid_position_mismatch_field")
                x_mid = list(x_mid.base.pieces) if x_mid is not None else None
                setx(v, "X1")
                # what the second call meets: arbitrary Eulerian content
                eul2 = eul_field(dim, real, "eul1")
                if inplace:
                    a.become(b)
                    b = a
                    eul.base.pieces[:] = list(eul2.base.pieces)
                    eul2 = eul
                c29_call(it, which, v, eul2, b, dt)
                res2 = {n: list(x.base.pieces) for n, x in buffers(v).items()}
                fresh = make(it, which, dim, N, real, reset)
                setx(fresh, "X1")
                eul3 = eul_field(dim, real, "eul1")
                b2 = Args("B", dim, N, real)
                c29_call(it, which, fresh, eul3, b2, dt)
                resf = {n: list(x.base.pieces) for n, x in buffers(fresh).items()}
                return v, other, before, a, b, eul2, eul3, res2, resf, x_mid, a_seen
            for conds, it, r in run_paths(exact(real, f)):
                rep.absorb(it)
                if raised(rep, nm, r):
                    continue
                v, other, before, a, b, eul2, eul3, res2, resf, x_mid, a_seen = r
                for n, x in a.arrs.items():
                    same(rep, nm, r_in, Arr.of(Base(x.base.shape, x.base.dtype, a_seen[n][0], n)), a_seen[n][1], conds, "/%s of first call" % n)
                for n, x in b.arrs.items():
                    same(rep, nm, r_in, x, x.base.init, conds, "/%s of second call" % n)
                same(rep, nm, r_fresh if reset else r_acc, eul2, eul3.base.pieces, conds, "/Eulerian field of second call")
                for n in resf:
                    if n in ("nearest_eul_grid_index_to_lag_grid",) or n.startswith("lag_grid"):
                        x = v.attrs[n]
                        same(rep, nm, r_fresh, Arr.of(Base(x.base.shape, x.base.dtype, res2[n], n)), resf[n], conds, "/" + n)
                if x_mid is not None:
                    x = v.attrs["lag_grid_position_mismatch_field"]
                    same(rep, nm, r_state, Arr.of(Base(x.base.shape, x.base.dtype, x_mid, "x")),
                         [(A.full_box(x.base.shape), ref("X0", [idx(0), idx(1)]), "")], conds, "/position mismatch")
                for n, x in buffers(other).items():
                    d = [m for m, y in buffers(v).items() if y.base is x.base]
                    rep.check(not d, nm + "/other object/" + n, r_own, "", "shares %s" % d)
                    same(rep, nm, r_own, x, before[n], conds, "/other object's %s" % n)
                own = list(buffers(v).items())
                for i, (n, x) in enumerate(own):
                    al = [m for m, y in own[i + 1:] if y.base is x.base]
                    rep.check(not al, nm + "/aliasing/" + n, "the object's buffers are distinct arrays", "", "%s is also %s" % (n, al))
        return go
    for which in (VB, BR):
        for dim in (2, 3):
            for real in ((F64,) if tier != "thorough" else (F64, F32)):
                for reset in (True, False):
                    for inplace in (False, True):
                        generic_or_counts(rep, job(which, dim, real, reset, inplace), tier)


# ---------------------------------------------------------------- C30
@spec("C30", min_obl=12)
def c30(rep, tier):
    rule = "an option outside the documented set raises instead of giving an object"
    rv = "a documented option is accepted"

    def attempt(nm, mk, want_raise):
        for conds, it, r in run_paths(mk):
            rep.absorb(it)
            if want_raise:
                rep.check(isinstance(r, AbsRaise), nm, rule, "", "accepted")
            else:
                rep.check(not isinstance(r, AbsRaise), nm, rv, getattr(r, "where", "") or "", str(r))
    N = nodes()
    for dim in (2, 3):
        for real in (F64, F32):
            for kind in ("cosine", "peskin"):
                for nc in (1, dim):
                    attempt("communicator %dD[%s,components=%s,%s]" % (dim, kind, nc, real.name),
                            lambda it: comm(it, dim, N, 2, real, nc, kind), False)
            for kind in ("gaussian", "", "Cosine"):
                attempt("communicator %dD kernel type %r[%s]" % (dim, kind, real.name),
                        lambda it: comm(it, dim, N, 2, real, 1, None, interp_kernel_type=kind), True)
            for nc in (0, 4, 5 - dim):
                attempt("communicator %dD components=%s[%s]" % (dim, nc, real.name), lambda it: comm(it, dim, N, 2, real, nc), True)
            for w in (1, 3):
                for kind in ("cosine", "peskin"):
                    attempt("communicator %dD %s width=%s[%s]" % (dim, kind, w, real.name),
                            lambda it: comm(it, dim, N, w, real, 1, kind), True)
    for which, t in ((VB, "virtual boundary"), (BR, "brinkmann")):
        for gd in (1, 4, 0):
            attempt("%s grid_dim=%d" % (t, gd), lambda it: make(it, which, 3, N, F64, True, grid_dim=gd), True)
        for gd in (2, 3):
            attempt("%s grid_dim=%d" % (t, gd), lambda it: make(it, which, gd, N, F64, True), False)
