"""Table of the stencil operations: how to generate and call each, and what the
call must leave in every array.  Axis convention (from the documentation and the
tests): scalar 2D fields are [y, x], 3D fields [z, y, x]; vector fields carry the
component (x, y, z) first."""
from fractions import Fraction

from .. import cas
from ..bounds import try_le
from ..cas import E, ONE, ZERO, PI, idx
from ..core import F, Want, anchor, isym, symarr

S2 = "sopht.numeric.eulerian_grid_ops.stencil_ops_2d"
S3 = "sopht.numeric.eulerian_grid_ops.stencil_ops_3d"
NAMES = {2: ("ny", "nx"), 3: ("nz", "ny", "nx")}
Q = Fraction


def ax(dim, c):
    """array axis (of a scalar field) along component direction c"""
    return dim - 1 - c


class Fld:
    """reads of a symbolic field at stencil offsets; vec: component first"""

    def __init__(self, name, dim, vec=False):
        self.name, self.dim, self.vec = name, dim, vec

    def __call__(self, c=None, **off):
        """off: x=1, y=-1, z=..."""
        ix = [idx(d + (1 if self.vec else 0)) for d in range(self.dim)]
        for k, v in off.items():
            a = ax(self.dim, "xyz".index(k))
            ix[a] = ix[a] + v
        if self.vec:
            ix = [E(c)] + ix
        return F(self.name, *ix)


class ScalarOf(Fld):
    """scalar content but read where the written array is a vector (index shift)"""

    def __init__(self, name, dim, shift=1):
        Fld.__init__(self, name, dim)
        self.shift = shift

    def __call__(self, c=None, **off):
        ix = [idx(d + self.shift) for d in range(self.dim)]
        for k, v in off.items():
            a = ax(self.dim, "xyz".index(k))
            ix[a] = ix[a] + v
        return F(self.name, *ix)


class UnShift(Fld):
    """vector content read where the written array is a scalar field"""

    def __call__(self, c=None, **off):
        ix = [idx(d) for d in range(self.dim)]
        for k, v in off.items():
            a = ax(self.dim, "xyz".index(k))
            ix[a] = ix[a] + v
        return F(self.name, E(c), *ix)


class Op:
    def __init__(self, key, dim, gen, args, writes, want, gkw=None, ghost=0, variants=None, reject=None,
                 module=None, nofixed=False, gen_arrays=None, nogen_threads=False):
        self.key, self.dim, self.gen, self.args, self.writes, self.want = key, dim, gen, args, set(writes), want
        self.gkw = gkw or {}
        self.ghost = ghost
        self.module = module or (S2 if dim == 2 else S3)
        self.nofixed = nofixed
        self.gen_arrays = gen_arrays or {}
        self.reject = reject


class Env:
    """the symbolic call of an op"""

    def __init__(self, op, dtype, shape=None):
        self.op, self.dim, self.dtype = op, op.dim, dtype
        self.shape = tuple(shape) if shape else tuple(isym(n) for n in NAMES[op.dim])
        self.arr = {}
        self.kw = {}
        self.gkw = {}
        for n, kind in op.gen_arrays.items():
            self.gkw[n] = self.make(n, kind)
        for n, kind in op.args.items():
            self.kw[n] = self.make(n, kind)

    def make(self, n, kind):
        if kind == "s":
            a = symarr(n, self.shape, self.dtype)
        elif kind == "v":
            a = symarr(n, (self.dim,) + self.shape, self.dtype)
        elif kind == "c":
            a = symarr(n, self.shape, {"float32": "complex64", "float64": "complex128"}[self.dtype])
        elif kind == "num":
            return cas.sym(n)
        elif kind == "nums":
            return [cas.sym("%s_%d" % (n, c)) for c in range(self.dim)]
        else:
            raise KeyError(kind)
        self.arr[n] = a
        return a

    def fld(self, n):
        return Fld(n, self.dim, self.op.args[n] == "v")

    def interior(self, g, vec=None):
        b = [(g, n - g) for n in self.shape]
        return b if vec is None else [vec] + b

    def comps(self):
        return range(self.dim)


def sides(env, g):
    """boxes of the boundary zone of width g (over the scalar axes)"""
    out = []
    for d in range(env.dim):
        n = env.shape[d]
        fits = try_le(g, n)
        for r in ((ZERO, E(g) if fits else n), (n - g if fits else ZERO, n)):
            b = [None] * env.dim
            b[d] = r
            out.append(b)
    return out


def zero_ghost(env, w, g=1, vec=False, vals=None):
    for b in sides(env, g):
        if vec:
            for c in env.comps():
                w.put([c] + b, vals[c] if vals else 0)
        else:
            w.put(b, vals if vals is not None else 0)
    return w


def curl_of(f, c, dim):
    """2h * component c of the centred curl of the 3D vector accessor f"""
    X = "xyz"
    a, b = (c + 1) % 3, (c + 2) % 3
    return (f(b, **{X[a]: 1}) - f(b, **{X[a]: -1})) - (f(a, **{X[b]: 1}) - f(a, **{X[b]: -1}))


def lap(f, dim, c=None):
    s = -2 * dim * f(c)
    for k in "xyz"[:dim]:
        s = s + f(c, **{k: 1}) + f(c, **{k: -1})
    return s


# ---------------------------------------------------------------- differential operators
def w_outcurl(reset):
    def want(e):
        w = Want(e.arr["curl"])
        f, p = ScalarOf("field", 2), cas.sym("prefactor")
        w.put(e.interior(1, 0), p * (f(y=1) - f(y=-1)))
        w.put(e.interior(1, 1), p * (f(x=-1) - f(x=1)))
        if reset:
            zero_ghost(e, w, 1, True)
        return {"curl": w}
    return want


def w_incurl(e):
    f, p = UnShift("field", 2), cas.sym("prefactor")
    w = Want(e.arr["curl"])
    w.put(e.interior(1), p * (f(1, x=1) - f(1, x=-1) - f(0, y=1) + f(0, y=-1)))
    return {"curl": w}


def w_curl3(reset):
    def want(e):
        w = Want(e.arr["curl"])
        f, p = e.fld("field"), cas.sym("prefactor")
        for c in range(3):
            w.put(e.interior(1, c), p * curl_of(f, c, 3))
        if reset:
            zero_ghost(e, w, 1, True)
        return {"curl": w}
    return want


def w_div(reset):
    def want(e):
        w = Want(e.arr["divergence"])
        f, p = UnShift("field", 3), cas.sym("inv_dx")
        s = ZERO
        for c, k in enumerate("xyz"):
            s = s + f(c, **{k: 1}) - f(c, **{k: -1})
        w.put(e.interior(1), p * s * Q(1, 2))
        if reset:
            zero_ghost(e, w)
        return {"divergence": w}
    return want


def w_diff(out, inp, pre, reset, vec):
    def want(e):
        w = Want(e.arr[out])
        f, p = e.fld(inp), cas.sym(pre)
        if vec:
            for c in e.comps():
                w.put(e.interior(1, c), p * lap(f, e.dim, c))
        else:
            w.put(e.interior(1), p * lap(f, e.dim))
        if reset:
            zero_ghost(e, w, 1, vec)
        return {out: w}
    return want


def w_stretch(e):
    w = Want(e.arr["vorticity_stretching_flux_field"])
    om, v, p = e.fld("vorticity_field"), e.fld("velocity_field"), cas.sym("prefactor")
    for c in range(3):
        w.put(e.interior(1, c), p * stretch_rhs(om, v, c))
    zero_ghost(e, w, 1, True)
    return {"vorticity_stretching_flux_field": w}


def stretch_rhs(om, v, c):
    s = ZERO
    for d, k in enumerate("xyz"):
        s = s + om(d) * (v(c, **{k: 1}) - v(c, **{k: -1}))
    return s


def w_vortupd(dim, names):
    """vorticity += prefactor * curl(sum sign*field)"""
    def want(e):
        w = Want(e.arr["vorticity_field"])
        p = cas.sym("prefactor")
        if dim == 2:
            fs = [(s, UnShift(n, 2)) for s, n in names]
            t = ZERO
            for s, f in fs:
                t = t + s * (f(1, x=1) - f(1, x=-1) - f(0, y=1) + f(0, y=-1))
            w.put(e.interior(1), e.fld("vorticity_field")() + p * t)
        else:
            fs = [(s, e.fld(n)) for s, n in names]
            for c in range(3):
                t = ZERO
                for s, f in fs:
                    t = t + s * curl_of(f, c, 3)
                w.put(e.interior(1, c), e.fld("vorticity_field")(c) + p * t)
        return {"vorticity_field": w}
    return want


# ---------------------------------------------------------------- advection
def eno_face(f, v, k, at, tie):
    """numerical flux through the face between cells `at` and `at+1` along k.
    f, v: accessors.  tie: which side is used when v_i + v_{i+1} = 0"""
    g = lambda o: f(**{k: at + o}) * v(**{k: at + o})
    left = Q(1, 3) * g(1) + Q(5, 6) * g(0) - Q(1, 6) * g(-1)
    right = Q(1, 3) * g(0) + Q(5, 6) * g(1) - Q(1, 6) * g(2)
    s = v(**{k: at}) + v(**{k: at + 1})
    c = cas.pos(s) if tie == 0 else ONE - cas.pos(-s)
    return c * left + (ONE - c) * right


def eno_div(f, vels, dim, tie):
    t = ZERO
    for c, k in enumerate("xyz"[:dim]):
        v = vels(c)
        t = t + eno_face(f, v, k, 0, tie) - eno_face(f, v, k, -1, tie)
    return t


def w_adv(e, tie=0):
    w = Want(e.arr["advection_flux"])
    f = e.fld("field")
    V = UnShift("velocity", e.dim)
    t = eno_div(f, lambda c: (lambda **o: V(c, **o)), e.dim, tie)
    w.put(e.interior(2), e.fld("advection_flux")() + cas.sym("inv_dx") * t)
    return {"advection_flux": w}


def w_adv_step(vec, tie=0):
    def want(e, tie=tie):
        n = "vector_field" if vec else "field"
        w = Want(e.arr[n])
        dt = cas.sym("dt_by_dx")
        if not vec:
            V = UnShift("velocity", e.dim)
            f = e.fld("field")
            t = eno_div(f, lambda c: (lambda **o: V(c, **o)), e.dim, tie)
            w.put(e.interior(2), f() - dt * t)
        else:
            V, f = e.fld("velocity"), e.fld("vector_field")
            for j in e.comps():
                t = eno_div(lambda **o: f(j, **o), lambda c: (lambda **o: V(c, **o)), e.dim, tie)
                w.put(e.interior(2, j), f(j) - dt * t)
        return {n: w}
    return want


def w_diff_step(vec):
    def want(e):
        n = "vector_field" if vec else "field"
        w = Want(e.arr[n])
        f, p = e.fld(n), cas.sym("nu_dt_by_dx2")
        if vec:
            for c in e.comps():
                w.put(e.interior(1, c), f(c) + p * lap(f, e.dim, c))
        else:
            w.put(e.interior(1), f() + p * lap(f, e.dim))
        return {n: w}
    return want


def w_stretch_step(e):
    w = Want(e.arr["vorticity_field"])
    om, v, p = e.fld("vorticity_field"), e.fld("velocity_field"), cas.sym("dt_by_2_dx")
    for c in range(3):
        w.put(e.interior(1, c), om(c) + p * stretch_rhs(om, v, c))
    return {"vorticity_field": w}


# ---------------------------------------------------------------- elementwise
def ew(out, expr, vec=False):
    """expr(env, c) -> Expr"""
    def want(e):
        w = Want(e.arr[out])
        if vec:
            for c in e.comps():
                w.put([c], expr(e, c))
        else:
            w.put([], expr(e, None))
        return {out: w}
    return want


def w_cplx(e):
    w = Want(e.arr["product_field"])
    n = e.dim
    I = [idx(d) for d in range(n)]
    a = lambda nm, p: F(nm, *(I + [E(p)]))
    full = [None] * n
    w.put(full + [0], a("field_1", 0) * a("field_2", 0) - a("field_1", 1) * a("field_2", 1))
    w.put(full + [1], a("field_1", 0) * a("field_2", 1) + a("field_1", 1) * a("field_2", 0))
    return {"product_field": w}


def w_cross(e):
    w = Want(e.arr["result_field"])
    f, g = e.fld("field_1"), e.fld("field_2")
    for c in range(3):
        a, b = (c + 1) % 3, (c + 2) % 3
        w.put([c], f(a) * g(b) - f(b) * g(a))
    return {"result_field": w}


def brink(e, c, out, fld, pen, cf="char_field", cc=None):
    lam = cas.sym("penalty_factor")
    f = e.fld(fld)(c)
    chi = (ScalarOf(cf, e.dim) if c is not None else e.fld(cf))()
    if e.op.args[pen] in ("num",):
        u = cas.sym(pen)
    elif e.op.args[pen] == "nums":
        u = cas.sym("%s_%d" % (pen, c))
    else:
        u = e.fld(pen)(c)
    return (f + lam * chi * u) / (ONE + lam * chi)


def set_boundary(vec):
    def want(e):
        n = "vector_field" if vec else "field"
        w = Want(e.arr[n])
        g = e.width
        zero_ghost(e, w, g, vec, [cas.sym("fixed_vals_%d" % c) for c in e.comps()] if vec else cas.sym("fixed_val"))
        return {n: w}
    return want


OPS = []


def op(*a, **k):
    OPS.append(Op(*a, **k))


def build():
    for reset in (True, False):
        r = {"reset_ghost_zone": reset}
        t = "reset" if reset else "noreset"
        op("outplane_curl_2d/" + t, 2, "gen_outplane_field_curl_pyst_kernel_2d", {"curl": "v", "field": "s", "prefactor": "num"},
           ["curl"], w_outcurl(reset), r, 1)
        op("curl_3d/" + t, 3, "gen_curl_pyst_kernel_3d", {"curl": "v", "field": "v", "prefactor": "num"}, ["curl"], w_curl3(reset), r, 1)
        op("divergence_3d/" + t, 3, "gen_divergence_pyst_kernel_3d", {"divergence": "s", "field": "v", "inv_dx": "num"},
           ["divergence"], w_div(reset), r, 1)
        op("diffusion_flux_2d/" + t, 2, "gen_diffusion_flux_pyst_kernel_2d", {"diffusion_flux": "s", "field": "s", "prefactor": "num"},
           ["diffusion_flux"], w_diff("diffusion_flux", "field", "prefactor", reset, False), r, 1)
        op("diffusion_flux_3d/scalar/" + t, 3, "gen_diffusion_flux_pyst_kernel_3d",
           {"diffusion_flux": "s", "field": "s", "prefactor": "num"}, ["diffusion_flux"],
           w_diff("diffusion_flux", "field", "prefactor", reset, False), dict(r, field_type="scalar"), 1)
        op("diffusion_flux_3d/vector/" + t, 3, "gen_diffusion_flux_pyst_kernel_3d",
           {"vector_field_diffusion_flux": "v", "vector_field": "v", "prefactor": "num"}, ["vector_field_diffusion_flux"],
           w_diff("vector_field_diffusion_flux", "vector_field", "prefactor", reset, True), dict(r, field_type="vector"), 1)
    op("inplane_curl_2d", 2, "gen_inplane_field_curl_pyst_kernel_2d", {"curl": "s", "field": "v", "prefactor": "num"}, ["curl"], w_incurl, None, 1)
    op("stretching_flux_3d", 3, "gen_vorticity_stretching_flux_pyst_kernel_3d",
       {"vorticity_stretching_flux_field": "v", "vorticity_field": "v", "velocity_field": "v", "prefactor": "num"},
       ["vorticity_stretching_flux_field"], w_stretch, None, 1)
    for d in (2, 3):
        op("vorticity_from_forcing_%dd" % d, d, "gen_update_vorticity_from_velocity_forcing_pyst_kernel_%dd" % d,
           {"vorticity_field": "s" if d == 2 else "v", "velocity_forcing_field": "v", "prefactor": "num"},
           ["vorticity_field"], w_vortupd(d, [(1, "velocity_forcing_field")]), None, 1)
        op("vorticity_from_penalised_%dd" % d, d, "gen_update_vorticity_from_penalised_velocity_pyst_kernel_%dd" % d,
           {"vorticity_field": "s" if d == 2 else "v", "penalised_velocity_field": "v", "velocity_field": "v", "prefactor": "num"},
           ["vorticity_field"], w_vortupd(d, [(1, "penalised_velocity_field"), (-1, "velocity_field")]), None, 1)
        op("advection_flux_%dd" % d, d, "gen_advection_flux_conservative_eno3_pyst_kernel_%dd" % d,
           {"advection_flux": "s", "field": "s", "velocity": "v", "inv_dx": "num"}, ["advection_flux"], w_adv, None, 2)
        # timesteps (flux buffers are scratch)
        T = "gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_%dd" % d
        if d == 2:
            op("advection_step_2d", d, T, {"field": "s", "advection_flux": "s", "velocity": "v", "dt_by_dx": "num"},
               ["field", "advection_flux"], w_adv_step(False), None, 2)
            op("diffusion_step_2d", d, "gen_diffusion_timestep_euler_forward_pyst_kernel_2d",
               {"field": "s", "diffusion_flux": "s", "nu_dt_by_dx2": "num"}, ["field", "diffusion_flux"], w_diff_step(False), None, 1)
        else:
            op("advection_step_3d/scalar", d, T, {"field": "s", "advection_flux": "s", "velocity": "v", "dt_by_dx": "num"},
               ["field", "advection_flux"], w_adv_step(False), {"field_type": "scalar"}, 2)
            op("advection_step_3d/vector", d, T, {"vector_field": "v", "advection_flux": "s", "velocity": "v", "dt_by_dx": "num"},
               ["vector_field", "advection_flux"], w_adv_step(True), {"field_type": "vector"}, 2)
            for ft, vec in (("scalar", False), ("vector", True)):
                op("diffusion_step_3d/" + ft, d, "gen_diffusion_timestep_euler_forward_pyst_kernel_3d",
                   {"vector_field" if vec else "field": "v" if vec else "s", "diffusion_flux": "s", "nu_dt_by_dx2": "num"},
                   ["vector_field" if vec else "field", "diffusion_flux"], w_diff_step(vec), {"field_type": ft}, 1)
            op("stretching_step_euler_3d", 3, "gen_vorticity_stretching_timestep_euler_forward_pyst_kernel_3d",
               {"vorticity_field": "v", "velocity_field": "v", "vorticity_stretching_flux_field": "v", "dt_by_2_dx": "num"},
               ["vorticity_field", "vorticity_stretching_flux_field"], w_stretch_step, None, 1)
        # elementwise
        for ft, vec in (("scalar", False), ("vector", True)):
            k = "v" if vec else "s"
            ftk = {"field_type": ft}
            op("elementwise_sum_%dd/%s" % (d, ft), d, "gen_elementwise_sum_pyst_kernel_%dd" % d,
               {"sum_field": k, "field_1": k, "field_2": k}, ["sum_field"],
               ew("sum_field", lambda e, c: e.fld("field_1")(c) + e.fld("field_2")(c), vec), ftk)
            op("saxpby_%dd/%s" % (d, ft), d, "gen_elementwise_saxpby_pyst_kernel_%dd" % d,
               {"sum_field": k, "field_1": k, "field_2": k, "field_1_prefac": "num", "field_2_prefac": "num"}, ["sum_field"],
               ew("sum_field", lambda e, c: cas.sym("field_1_prefac") * e.fld("field_1")(c) + cas.sym("field_2_prefac") * e.fld("field_2")(c), vec), ftk)
            if vec:
                op("set_fixed_val_%dd/vector" % d, d, "gen_set_fixed_val_pyst_kernel_%dd" % d, {"vector_field": "v", "fixed_vals": "nums"},
                   ["vector_field"], ew("vector_field", lambda e, c: cas.sym("fixed_vals_%d" % c), True), ftk)
                op("add_fixed_val_%dd/vector" % d, d, "gen_add_fixed_val_pyst_kernel_%dd" % d,
                   {"sum_field": "v", "vector_field": "v", "fixed_vals": "nums"}, ["sum_field"],
                   ew("sum_field", lambda e, c: e.fld("vector_field")(c) + cas.sym("fixed_vals_%d" % c), True), ftk)
                op("brinkmann_%dd/vector" % d, d, "gen_brinkmann_penalise_pyst_kernel_%dd" % d,
                   {"penalised_vector_field": "v", "penalty_factor": "num", "char_field": "s", "penalty_vector_field": "v", "vector_field": "v"},
                   ["penalised_vector_field"],
                   ew("penalised_vector_field", lambda e, c: brink(e, c, "", "vector_field", "penalty_vector_field"), True), ftk)
            else:
                op("set_fixed_val_%dd/scalar" % d, d, "gen_set_fixed_val_pyst_kernel_%dd" % d, {"field": "s", "fixed_val": "num"},
                   ["field"], ew("field", lambda e, c: cas.sym("fixed_val")), ftk)
                op("add_fixed_val_%dd/scalar" % d, d, "gen_add_fixed_val_pyst_kernel_%dd" % d,
                   {"sum_field": "s", "field": "s", "fixed_val": "num"}, ["sum_field"],
                   ew("sum_field", lambda e, c: e.fld("field")() + cas.sym("fixed_val")), ftk)
                op("brinkmann_%dd/scalar" % d, d, "gen_brinkmann_penalise_pyst_kernel_%dd" % d,
                   {"penalised_field": "s", "penalty_factor": "num", "char_field": "s", "penalty_field": "s", "field": "s"},
                   ["penalised_field"], ew("penalised_field", lambda e, c: brink(e, c, "", "field", "penalty_field")), ftk)
        op("elementwise_copy_%dd" % d, d, "gen_elementwise_copy_pyst_kernel_%dd" % d, {"field": "s", "rhs_field": "s"}, ["field"],
           ew("field", lambda e, c: e.fld("rhs_field")()))
        op("complex_product_%dd" % d, d, "gen_elementwise_complex_product_pyst_kernel_%dd" % d,
           {"product_field": "c", "field_1": "c", "field_2": "c"}, ["product_field"], w_cplx)
    op("brinkmann_fixed_2d/scalar", 2, "gen_brinkmann_penalise_vs_fixed_val_pyst_kernel_2d",
       {"penalised_field": "s", "penalty_factor": "num", "char_field": "s", "penalty_val": "num", "field": "s"},
       ["penalised_field"], ew("penalised_field", lambda e, c: brink(e, c, "", "field", "penalty_val")), {"field_type": "scalar"})
    op("brinkmann_fixed_2d/vector", 2, "gen_brinkmann_penalise_vs_fixed_val_pyst_kernel_2d",
       {"penalised_vector_field": "v", "penalty_factor": "num", "char_field": "s", "penalty_val": "nums", "vector_field": "v"},
       ["penalised_vector_field"], ew("penalised_vector_field", lambda e, c: brink(e, c, "", "vector_field", "penalty_val"), True), {"field_type": "vector"})
    op("cross_product_3d", 3, "gen_elementwise_cross_product_pyst_kernel_3d",
       {"result_field": "v", "field_1": "v", "field_2": "v"}, ["result_field"], w_cross)


def build_extra():
    """operations whose content has its own property: listed here for the properties common to all"""
    out = []

    def x(*a, **k):
        out.append(Op(*a, **k))
    for d in (2, 3):
        grids = {"%s_grid_field" % k: "s" for k in "xyz"[:d]}
        for ft, vec in (("scalar", False), ("vector", True)):
            n = "vector_field" if vec else "field"
            x("set_boundary_%dd/%s" % (d, ft), d, "gen_set_fixed_val_at_boundaries_pyst_kernel_%dd" % d,
              {n: "v" if vec else "s", "fixed_vals" if vec else "fixed_val": "nums" if vec else "num"}, [n], None,
              {"field_type": ft, "width": 2}, nofixed=True)
            if d == 2 and vec:
                continue
            x("penalise_boundary_%dd/%s" % (d, ft), d, "gen_penalise_field_boundary_pyst_kernel_%dd" % d,
              {n: "v" if vec else "s"}, [n], None, dict({"width": 2, "dx": cas.sym("dx")}, **({"field_type": ft} if d == 3 else {})),
              gen_arrays=grids)
            if d == 3:
                for kind in ("multiplicative", "convolution"):
                    m = "vector_field" if vec else "scalar_field"
                    x("laplacian_filter_3d/%s/%s" % (kind, ft), 3, "gen_laplacian_filter_kernel_3d", {m: "v" if vec else "s"},
                      [m, "filter_flux_buffer", "field_buffer"], None, {"field_type": ft, "filter_type": kind, "filter_order": 1},
                      gen_arrays={"filter_flux_buffer": "s", "field_buffer": "s"})
        x("char_func_%dd" % d, d, "gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_%dd" % d,
          {"char_func_field": "s", "level_set_field": "s"}, ["char_func_field"], None, {"blend_width": cas.sym("blend_width", False, True)})
    x("stretching_step_ssprk3_3d", 3, "gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d",
      {"vorticity_field": "v", "velocity_field": "v", "vorticity_stretching_flux_field": "v", "dt_by_2_dx": "num"},
      ["vorticity_field", "vorticity_stretching_flux_field", "midstep_buffer_vector_field"], None,
      gen_arrays={"midstep_buffer_vector_field": "v"})
    return out


build()
EXTRA = build_extra()
BY = {o.key: o for o in OPS}
