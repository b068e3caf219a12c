"""Models of the FFT, sparse-matrix, file-system and HDF5 libraries the package uses."""
from fractions import Fraction

from . import arrays as A
from . import cas
from .arrays import AbsRaise, Arr, Base, Ctx, Unsupported, assign, is_complex
from .cas import E, ONE, ZERO, const, idx
from .interp import EXC, GenList, Inst, ModelFn, ModelModule, Obj, OpaqueModule, SymRange

COMPLEX_OF = {"float32": "complex64", "float64": "complex128", "int64": "complex128", "int32": "complex128", "int16": "complex64", "int8": "complex64"}
REAL_OF = {"complex64": "float32", "complex128": "float64"}


# ------------------------------------------------------------------ transforms
def linear_op(op, a, extra, out_shape, out_dtype):
    """result of a linear operator, named by the content it is applied to (index-free factors pulled out)"""
    f, ps = A.scalar_factor(a)
    src = Arr.from_pieces(a.shape, a.dtype, ps)
    neg = Arr.from_pieces(a.shape, a.dtype, [(b, -e, p) for b, e, p in ps])
    key = (op, extra, (src.full_vshape(),))
    for nm, qs in A._OPREG.get(key, []):
        if not A.compare(src.pieces(), qs[0], None):
            break
        if not A.compare(neg.pieces(), qs[0], None):
            f = -f
            break
    else:
        nm = A.op_name(op, [src], extra)
    full = tuple(out_shape) + ((const(2),) if is_complex(out_dtype) else ())
    e = f * cas.ref(nm, [idx(i) for i in range(len(full))])
    return Arr.from_pieces(out_shape, out_dtype, [(A.full_box(full), e, Ctx.where())])


def half(n):
    from .models import scal
    return E(scal("floordiv", E(n), 2))


def norm_axes(axes, nd):
    if axes is None:
        return tuple(range(nd))
    if isinstance(axes, int):
        axes = (axes,)
    return tuple(int(x) % nd for x in axes)


def canon_axes(axes, last):
    """transforms commute over the axes; only the half-spectrum axis is special"""
    return tuple(sorted(axes)) + (("half", last) if last is not None else ())


def rfftn(a, axes=None, s=None):
    a = A.as_arr(a)
    if a.cplx:
        raise AbsRaise("TypeError", "rfftn of complex input", Ctx.where())
    ax = norm_axes(axes, a.nd)
    if s is not None:
        a = resize(a, s, ax)
    sh = list(a.shape)
    sh[ax[-1]] = half(sh[ax[-1]]) + 1
    return linear_op("rfftn", a, canon_axes(ax, ax[-1]), sh, COMPLEX_OF[a.dtype])


def irfftn(a, axes=None, s=None, out_shape=None):
    """normalised inverse; out_shape fixes the length of the half axis"""
    a = A.as_arr(a)
    if not a.cplx:
        a = A.copy(a, COMPLEX_OF[a.dtype])
    ax = norm_axes(axes, a.nd)
    sh = list(out_shape) if out_shape is not None else list(a.shape)
    if out_shape is None:
        if s is not None:
            for x, v in zip(ax, s):
                sh[x] = E(v)
        else:
            sh[ax[-1]] = (a.shape[ax[-1]] - 1) * 2
    # inverse of a forward transform of known content
    r = _cancel(a, "rfftn", canon_axes(ax, ax[-1]), sh)
    if r is not None:
        return r
    return linear_op("irfftn", a, canon_axes(ax, ax[-1]) + (tuple(E(x) for x in sh),), sh, REAL_OF[a.dtype])


def cfftn(a, axes, inverse):
    a = A.as_arr(a)
    if not a.cplx:
        a = A.copy(a, COMPLEX_OF[a.dtype])
    ax = norm_axes(axes, a.nd)
    r = _cancel(a, "ifftn" if not inverse else "fftn", canon_axes(ax, None), list(a.shape))
    if r is not None:
        return r
    return linear_op("ifftn" if inverse else "fftn", a, canon_axes(ax, None), a.shape, a.dtype)


def _cancel(a, op, extra, sh):
    f, ps = A.scalar_factor(a)
    names = set()
    n = a.nd + 1
    for b, e, p in ps:
        names |= {x.args[0] for x in e.atoms() if x.kind == "ref"}
        if len(names) != 1:
            return None
    nm = names.pop()
    lk = A.op_lookup(nm)
    if lk is None or lk[0] != op or lk[1] != extra:
        return None
    want = cas.ref(nm, [idx(i) for i in range(n)])
    sg = None
    for b, e, p in ps:
        k = A.simp_in_box(e, b)
        if k == A.simp_in_box(want, b):
            s = 1
        elif k == -A.simp_in_box(want, b):
            s = -1
        else:
            return None
        if sg not in (None, s):
            return None
        sg = s
    content = lk[2][0]
    shp = [key[2][0] for key, lst in A._OPREG.items() if key[0] == op and any(q[0] == nm for q in lst)][0]
    cp = op != "rfftn"
    shp = list(shp[:a.nd])
    if [E(x) for x in sh] != [E(x) for x in shp]:
        return None
    return Arr.from_pieces(shp, a.dtype if cp else REAL_OF[a.dtype], [(b, e * f * sg, p) for b, e, p in content])


def resize(a, s, ax):
    out = list(a.shape)
    for x, v in zip(ax, s):
        out[x] = E(v)
    r = Arr.of(Base.make(out, a.dtype, ZERO))
    box = []
    for x in range(a.nd):
        box.append((ZERO, A.bmin(a.shape[x], out[x])))
    r.write([(tuple(A.box_inter(b, tuple(box) + b[a.nd:])), e, p) for b, e, p in a.pieces()])
    return r


def havoc(arr, why):
    nm = Ctx.fresh(why)
    full = arr.full_vshape()
    arr.write([(A.full_box(full), cas.ref(nm, [idx(i) for i in range(len(full))]), Ctx.where())])


def contiguous(a):
    """the view covers its whole allocation in order"""
    b = a.base
    want = [(d, 1, ZERO) for d in range(a.nd)] + ([("part", 1, ZERO)] if a.cplx else [])
    return list(a.map) == want and a.full_vshape() == b.shape


class Plan(Obj):
    """pyfftw.FFTW"""
    tname = "FFTW"

    def __init__(self, it, inp, out, axes=(-1,), direction="FFTW_FORWARD", flags=("FFTW_MEASURE",), threads=1,
                 planning_timelimit=None, normalise_idft=True, ortho=False):
        self.it = it
        self.inp, self.out = inp, out
        self.shape_in, self.shape_out = inp.shape, out.shape
        self.dt_in, self.dt_out = inp.dtype, out.dtype
        self.axes = norm_axes(axes, inp.nd)
        if not isinstance(flags, (str, list, tuple)):
            raise AbsRaise("TypeError", "flags must be a sequence of strings", it.where())
        self.dir, self.flags = direction, tuple(flags)
        w = it.where()
        k = (inp.dtype, out.dtype)
        if direction not in ("FFTW_FORWARD", "FFTW_BACKWARD"):
            raise AbsRaise("ValueError", "Invalid direction: %s" % direction, w)
        if inp.cplx and out.cplx and k[0] == k[1]:
            self.kind = "c2c"
        elif not inp.cplx and out.cplx and COMPLEX_OF.get(k[0]) == k[1] and k[0] in ("float32", "float64"):
            self.kind = "r2c"
        elif inp.cplx and not out.cplx and REAL_OF.get(k[0]) == k[1]:
            self.kind = "c2r"
        else:
            raise AbsRaise("ValueError", "Invalid scheme: the input/output dtypes %s -> %s do not match a transform" % k, w)
        if (self.kind == "r2c" and direction != "FFTW_FORWARD") or (self.kind == "c2r" and direction != "FFTW_BACKWARD"):
            raise AbsRaise("ValueError", "Invalid direction for %s transform" % self.kind, w)
        real, cpl = (inp, out) if self.kind == "r2c" else (out, inp)
        if len(set(self.axes)) != len(self.axes):
            raise Unsupported("repeated FFT axes")
        for d in range(inp.nd):
            want = real.shape[d]
            if self.kind != "c2c" and d == self.axes[-1]:
                want = half(want) + 1
            if cpl.shape[d] != want:
                raise AbsRaise("ValueError", "Invalid shapes: input %s, output %s" % (list(map(str, inp.shape)), list(map(str, out.shape))), w)
        self.normalise = normalise_idft
        if "FFTW_ESTIMATE" not in self.flags and "FFTW_WISDOM_ONLY" not in self.flags:
            # measuring overwrites both arrays
            havoc(inp, "fftw_planned")
            if out.base is not inp.base:
                havoc(out, "fftw_planned")

    def getattr(self, it, n):
        if n in ("input_array", "output_array"):
            return self.inp if n == "input_array" else self.out
        if n in ("input_shape", "output_shape"):
            return tuple(self.shape_in if n == "input_shape" else self.shape_out)
        if n in ("input_dtype", "output_dtype"):
            from .models import DTypeObj
            return DTypeObj(self.dt_in if n == "input_dtype" else self.dt_out)
        if n == "execute":
            return ModelFn("execute", lambda: self.execute(False))
        if n == "update_arrays":
            return ModelFn("update_arrays", self.update)
        if n == "__call__":
            return ModelFn("FFTW", lambda *a, **k: self.call(it, *a, **k))
        if n in ("axes", "direction", "flags"):
            return {"axes": self.axes, "direction": self.dir, "flags": self.flags}[n]
        raise Unsupported("FFTW." + n)

    def update(self, a, b):
        w = self.it.where()
        for x, sh, dt, what in ((a, self.shape_in, self.dt_in, "input"), (b, self.shape_out, self.dt_out, "output")):
            if not isinstance(x, Arr):
                raise AbsRaise("ValueError", "Invalid %s array" % what, w)
            if x.dtype != dt:
                raise AbsRaise("ValueError", "Invalid %s dtype: %s, plan was made for %s" % (what, x.dtype, dt), w)
            if x.shape != sh:
                raise AbsRaise("ValueError", "Invalid %s shape: %s, plan was made for %s" % (what, list(map(str, x.shape)), list(map(str, sh))), w)
            if not contiguous(x):
                raise AbsRaise("ValueError", "Invalid %s striding" % what, w)
        self.inp, self.out = a, b

    def call(self, it, input_array=None, output_array=None, normalise_idft=True, ortho=False):
        if ortho:
            raise Unsupported("ortho FFT")
        also = None
        if input_array is not None or output_array is not None:
            i = input_array if input_array is not None else self.inp
            o = output_array if output_array is not None else self.out
            if not isinstance(i, Arr) or i.dtype != self.dt_in or not contiguous(i):
                i = A.as_arr(i)
                if i.shape != self.shape_in:
                    raise AbsRaise("ValueError", "Invalid input shape: %s, plan was made for %s" % (
                        list(map(str, i.shape)), list(map(str, self.shape_in))), it.where())
                if i.cplx and self.kind == "r2c":
                    raise Unsupported("complex input of a real transform")
                assign(self.inp, i)
                i = self.inp
            elif not i.base.attrs.get("aligned"):
                also = self.inp  # alignment may force a copy through the internal input array
            self.update(i, o)
        return self.execute(normalise_idft, also)

    def execute(self, norm, also=None):
        if self.kind == "r2c":
            r = rfftn(self.inp, self.axes)
        elif self.kind == "c2r":
            r = irfftn(self.inp, self.axes, out_shape=self.shape_out)
        else:
            r = cfftn(self.inp, self.axes, self.dir == "FFTW_BACKWARD")
        if self.dir == "FFTW_BACKWARD" and not norm:
            n = ONE
            for d in self.axes:
                n = n * (self.shape_out[d])
            r = self.it.models.arr_binop("mul", r, n)
        if self.inp.base is not self.out.base:
            if (self.kind == "c2r" and len(self.axes) > 1) or "FFTW_DESTROY_INPUT" in self.flags:
                havoc(self.inp, "fftw_destroyed")
                if also is not None and also.base is not self.inp.base and also.base is not self.out.base:
                    havoc(also, "fftw_destroyed")
            elif also is not None and also.base is not self.inp.base and also.base is not self.out.base:
                havoc(also, "fftw_internal_copy")
        self.out.write(r.pieces(), self.it.where())
        self.it.events.append(("fft", self.kind, self.it.where()))
        return self.out


def setup_fft(M):
    from .models import dtype_name, filled, uninit
    it = M.it

    def aligned(shape, dtype="float64", order="C", n=None, fill=None):
        a = uninit(shape, dtype_name(dtype)) if fill is None else filled(shape, dtype_name(dtype), fill)
        a.base.attrs["aligned"] = True
        return a

    def plan(i, o, *a, **k):
        return Plan(it, i, o, *a, **k)

    def builder(kind):
        def f(a, s=None, axes=None, threads=1, overwrite_input=False, planner_effort="FFTW_MEASURE", auto_align_input=True,
              auto_contiguous=True, avoid_copy=False, norm=None, n=None, axis=-1):
            ax = norm_axes(axes if kind.endswith("n") else axis, a.nd)
            inv = kind.startswith("i")
            if s is not None or n is not None:
                raise Unsupported("pyfftw.builders with a shape")
            sh = list(a.shape)
            base_dt = REAL_OF.get(a.dtype, a.dtype)
            if "rfft" in kind and not inv:
                if a.cplx:
                    raise AbsRaise("TypeError", "rfftn of complex input", it.where())
                sh[ax[-1]] = half(sh[ax[-1]]) + 1
                o = uninit(sh, COMPLEX_OF[base_dt])
            elif "rfft" in kind:
                sh[ax[-1]] = (sh[ax[-1]] - 1) * 2
                o = uninit(sh, base_dt)
            else:
                o = uninit(sh, COMPLEX_OF[base_dt])
            i = a
            if not is_complex(a.dtype) and (inv or "rfft" not in kind):
                i = uninit(a.shape, COMPLEX_OF[base_dt])
            # planning through the builders preserves the content of the array handed in
            keep = i.base.snapshot()
            p = Plan(it, i, o, ax, "FFTW_BACKWARD" if inv else "FFTW_FORWARD", (planner_effort,), threads)
            i.base.pieces = keep
            return p
        return ModelFn("pyfftw.builders." + kind, f)
    kinds = ("fft", "ifft", "rfft", "irfft", "fftn", "ifftn", "rfftn", "irfftn")
    b = ModelModule("pyfftw.builders", {k: builder(k) for k in kinds})
    M.mods["pyfftw.builders"] = b
    M.mods["pyfftw"] = ModelModule("pyfftw", {
        "empty_aligned": ModelFn("empty_aligned", aligned),
        "zeros_aligned": ModelFn("zeros_aligned", lambda s, dtype="float64", **k: aligned(s, dtype, fill=0)),
        "ones_aligned": ModelFn("ones_aligned", lambda s, dtype="float64", **k: aligned(s, dtype, fill=1)),
        "byte_align": ModelFn("byte_align", lambda a, *r, **k: a), "simd_alignment": 32,
        "FFTW": ModelFn("FFTW", plan), "builders": b,
        "config": OpaqueModule("pyfftw.config"),
        "interfaces": OpaqueModule("pyfftw.interfaces")})

    def sp(kind):
        def f(a, s=None, axes=None, norm=None, overwrite_x=False, workers=None, plan=None):
            if norm not in (None, "backward"):
                raise Unsupported("fft norm")
            a = A.as_arr(a)
            if kind == "rfftn":
                return rfftn(a, axes, s)
            if kind == "irfftn":
                return irfftn(a, axes, s)
            if s is not None:
                raise Unsupported("fftn shape")
            return cfftn(a, axes, kind == "ifftn")
        return ModelFn("scipy.fft." + kind, f)

    def sp1(kind):
        def f(a, n=None, axis=-1, norm=None, overwrite_x=False, workers=None):
            return sp(kind + "n").f(a, None if n is None else (n,), (axis,), norm)
        return ModelFn("scipy.fft." + kind, f)

    def sp2(kind):
        def f(a, s=None, axes=(-2, -1), norm=None, overwrite_x=False, workers=None):
            return sp(kind[:-1] + "n").f(a, s, axes, norm)
        return ModelFn("scipy.fft." + kind, f)
    fm = {k: sp(k) for k in ("rfftn", "irfftn", "fftn", "ifftn")}
    fm.update({k: sp1(k) for k in ("rfft", "irfft", "fft", "ifft")})
    fm.update({k: sp2(k) for k in ("rfft2", "irfft2", "fft2", "ifft2")})
    sf = ModelModule("scipy.fft", fm)
    M.mods["scipy.fft"] = sf
    nf = ModelModule("numpy.fft", fm)
    M.mods["numpy.fft"] = nf
    M.np.attrs["fft"] = nf

    # ---- sparse matrices: represented densely
    class Sparse(Obj):
        tname = "spmatrix"

        def __init__(self, arr):
            self.a = arr

        def getattr(self, it, n):
            if n in ("toarray", "todense"):
                return ModelFn(n, lambda *a, **k: A.copy(self.a))
            if n in ("tocsr", "tocsc", "tocoo", "tolil", "copy"):
                return ModelFn(n, lambda *a, **k: Sparse(A.copy(self.a)))
            if n == "astype":
                return ModelFn(n, lambda d, **k: Sparse(M.astype(self.a, d)))
            if n == "shape":
                return M.arr_attr(self.a, "shape")
            if n == "T":
                return Sparse(A.transpose(self.a))
            raise Unsupported("sparse matrix ." + n)

        def binop(self, it, op, a, b):
            x = a.a if isinstance(a, Sparse) else a
            y = b.a if isinstance(b, Sparse) else b
            if op in ("add", "sub") and isinstance(a, Sparse) and isinstance(b, Sparse):
                return Sparse(M.arr_binop(op, x, y))
            if op in ("mul", "truediv") and not (isinstance(x, Arr) and isinstance(y, Arr)):
                return Sparse(M.arr_binop(op, x, y))
            return NotImplemented

    def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
        if not isinstance(offsets, (list, tuple)):
            offsets, diagonals = [offsets], [diagonals]
        if format not in (None, "csr", "csc", "coo", "dia", "lil", "dok", "bsr"):
            raise AbsRaise("ValueError", "Format %r is unknown." % (format,), it.where())
        ds = list(it.iterate(diagonals))
        os_ = [int(x) for x in it.iterate(offsets)]
        if len(ds) != len(os_):
            raise AbsRaise("ValueError", "Different number of diagonals and offsets.", it.where())
        if shape is None:
            d0 = A.as_arr(ds[0])
            n = d0.shape[0] + abs(os_[0])
            shape = (n, n)
        n0, n1 = E(shape[0]), E(shape[1])
        tot = ZERO
        i, j = idx(0), idx(1)
        for d, o in zip(ds, os_):
            on = cas.zero(j - i - o)
            if isinstance(d, (list, tuple)) and len(d) == 1:
                d = d[0]
            if isinstance(d, Arr) and d.nd == 0:
                d = it.scalar_of(d)
            if isinstance(d, Arr):
                if d.nd == 1 and d.shape[0] == ONE:
                    v = d.pieces()[0][1]
                    v = cas.subst(v, {cas.mk_atom("idx", (0,), True, True): ZERO})
                else:
                    ps = d.pieces()
                    if len(ps) != 1:
                        raise Unsupported("piecewise diagonal")
                    v = cas.subst(ps[0][1], {cas.mk_atom("idx", (0,), True, True): i if o >= 0 else j})
            elif isinstance(d, (list, tuple)):
                raise Unsupported("explicit diagonal list")
            else:
                v = E(d)
            tot = tot + v * on
        return Sparse(Arr.from_pieces((n0, n1), "float64", [(((ZERO, n0), (ZERO, n1)), tot, it.where())]))
    spm = ModelModule("scipy.sparse", {"diags": ModelFn("diags", diags),
                                       "eye": ModelFn("eye", lambda n, m=None, k=0, **kw: diags([1], [k], (n, m or n))),
                                       "identity": ModelFn("identity", lambda n, **kw: diags([1], [0], (n, n)))})
    M.mods["scipy.sparse"] = spm
    sl = ModelModule("scipy.linalg", {k: M.mods["numpy.linalg"].attrs[k] for k in ("inv", "eig", "eigh", "norm", "solve")})
    M.mods["scipy.linalg"] = sl
    M.mods["scipy"] = ModelModule("scipy", {"fft": sf, "sparse": spm, "linalg": sl})


def open_file(*a, **k):
    raise Unsupported("open")


def array2string(m, x, k):
    from . import models_h5
    return models_h5.array2string(m.it, x, k)


def setup_numba(M):
    """njit-compiled functions behave as the Python functions they are made from"""
    it = M.it

    def wrap(parallel):
        def deco(f):
            if not parallel:
                return f

            def call(it, *a, **k):
                it.parallel = getattr(it, "parallel", 0) + 1
                try:
                    return it.call(f, list(a), k)
                finally:
                    it.parallel -= 1
            return ModelFn("parallel " + getattr(f, "name", "function"), call, interp=True)
        return deco

    def njit(*a, **k):
        known = {"cache", "fastmath", "nopython", "parallel", "nogil", "inline", "boundscheck", "error_model",
                 "forceobj", "looplift", "locals", "debug", "no_cfunc_wrapper", "no_cpython_wrapper"}
        for x in k:
            if x not in known:
                raise Unsupported("numba option " + x)
        d = wrap(k.get("parallel") is True)
        if len(a) == 1 and not isinstance(a[0], (str, list, tuple)):
            return d(a[0])
        return ModelFn("njit decorator", d)

    def prange(*a):
        r = M.b_range(*a)
        if isinstance(r, SymRange):
            r.par = True
            return r
        if getattr(it, "parallel", 0) and len(list(r)) > 1:
            raise Unsupported("parallel loop over a concrete range")
        return r
    nb = ModelFn("njit", njit)
    M.mods["numba"] = ModelModule("numba", {"njit": nb, "jit": nb, "prange": ModelFn("prange", prange)})


def setup(M):
    setup_fft(M)
    setup_numba(M)
    from . import models_h5
    models_h5.setup(M)
