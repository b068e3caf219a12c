"""Saving and loading fields (HDF5) and their XDMF descriptions."""
import re
import xml.etree.ElementTree as ET
from fractions import Fraction

from .. import arrays as A
from .. import bounds, cas, models_h5
from ..arrays import AbsRaise, Arr, Base, Unsupported, getitem
from ..cas import E, ONE, ZERO, const, idx, ref
from ..core import AnchorLost, anchor, diff_pieces, isym, run_paths, show_diff, symarr
from ..interp import TOKENS
from ..models import DTypeObj
from . import spec
from .ibm import grid
from .run import F32, F64

MOD = "sopht.utils.IO"
T0, T1 = cas.sym("t_save"), cas.sym("t_save2")


def lag_n(k=0):
    return isym("n_lag%d" % k, 5)


def new_io(it, dim, real):
    return it.call(anchor(it, MOD, "IO"), [], dict(dim=dim, real_dtype=real))


def meth(it, io, n):
    try:
        return it.getattr(io, n)
    except AbsRaise:
        raise AnchorLost("IO.%s" % n)


def vec(vals, dtype):
    ps = [(((const(k), const(k + 1)),), E(v), "") for k, v in enumerate(vals)]
    return Arr.of(Base((const(len(vals)),), dtype, ps, "vec"))


def eul_grid(dim, sizes=None, origin=None, dx=None):
    """origin, spacing and size arrays (z-y-x)"""
    sizes = list(sizes or grid(dim))
    origin = origin or [ref("origin", [const(k)]) for k in range(dim)]
    dx = dx or [ref("spacing", [const(k)]) for k in range(dim)]
    return dict(origin=vec(origin, "float64"), dx=vec(dx, "float64"), grid_size=vec(sizes, "int64"))


def viewarr(name, shape, dtype):
    """an array of the given shape that is a strided view (column of an interleaved array)"""
    big = symarr("big_" + name, tuple(shape) + (2,), dtype)
    v = getitem(big, (Ellipsis, 0))
    fill_view(v, name)
    return v


def fill_view(v, name):
    v.write([(A.full_box(v.shape), ref(name, [idx(d) for d in range(v.nd)]), "")], "")


class Set:
    """arrays of one user: name -> Arr, under a content tag"""

    def __init__(self, tag, dim, real, parts, sizes=None, ns=None, views=False):
        self.dim, self.sizes = dim, sizes
        symarr = viewarr if views else globals()["symarr"]
        g = tuple(E(s) for s in (sizes or grid(dim)))
        self.eul, self.grids = {}, []
        if "es" in parts:
            self.eul["rho"] = symarr(tag + "rho", g, real.name)
        if "ev" in parts:
            self.eul["vel"] = symarr(tag + "vel", (dim,) + g, real.name)
        if "es2" in parts:
            self.eul["psi"] = symarr(tag + "psi", g, real.name)
        if "ev2" in parts:
            self.eul["omega"] = symarr(tag + "omega", (dim,) + g, real.name)
        names = {"l0": None, "l1": "body", "l2": None}
        for k, (p, gname) in enumerate(names.items()):
            if p not in parts:
                continue
            n = E(ns[k]) if ns else lag_n(k)
            pos = symarr("%spos%d" % (tag, k), (dim, n), real.name)
            fl = {}
            if "ls" in parts:
                fl["mass"] = symarr("%smass%d" % (tag, k), (n,), real.name)
            if "lv" in parts:
                fl["force"] = symarr("%sforce%d" % (tag, k), (dim, n), real.name)
            if "lv2" in parts:
                fl["speed"] = symarr("%sspeed%d" % (tag, k), (dim, n), real.name)
            self.grids.append((gname, k == 1, pos, fl))

    def all(self):
        out = {("eulerian", n): a for n, a in self.eul.items()}
        for k, (gn, _, pos, fl) in enumerate(self.grids):
            out[("grid", k)] = pos
            for n, a in fl.items():
                out[("lagrangian", k, n)] = a
        return out

    def register(self, it, io, g=None, order=1, split=False):
        if self.eul:
            it.call(meth(it, io, "define_eulerian_grid"), [], g or eul_grid(self.dim, self.sizes))
            items = list(self.eul.items())[::order]
            if split:
                for n, a in items:
                    it.call(meth(it, io, "add_as_eulerian_fields_for_io"), [], {n: a})
            else:
                it.call(meth(it, io, "add_as_eulerian_fields_for_io"), [], dict(items))
        for gn, con, pos, fl in self.grids:
            kw = dict(lagrangian_grid=pos)
            if gn:
                kw["lagrangian_grid_name"] = gn
            if con:
                kw["lagrangian_grid_connect"] = True
            items = list(fl.items())[::order]
            if split and gn:
                for n, a in items:
                    it.call(meth(it, io, "add_as_lagrangian_fields_for_io"), [], dict(kw, **{n: a}))
            else:
                it.call(meth(it, io, "add_as_lagrangian_fields_for_io"), [], dict(kw, **dict(items)))


def another_user(it, dim, real, save=None):
    """an unrelated IO object of other dimension and precision whose fields and grids carry the names `Set` uses,
    with the scalar and the vector roles exchanged and the other grid connected"""
    dim, real = 5 - dim, F32 if real.name == "float64" else F64
    o = Set("o_", dim, real, PARTS[8], (4, 5, 6)[:dim], (3, 4, 5))
    o.eul = dict(zip(("vel", "rho", "omega", "psi"), (o.eul["rho"], o.eul["vel"], o.eul["psi"], o.eul["omega"])))
    o.grids = [(gn, k == 0, pos, dict(force=fl["mass"], mass=fl["force"], speed=fl["mass"]))
               for k, (gn, _, pos, fl) in enumerate(o.grids)]
    io = new_io(it, dim, real)
    o.register(it, io, conc_grid(dim, sizes=(4, 5, 6)[:dim])[0])
    if save:
        it.call(meth(it, io, "save"), [], dict(h5_file_name=save, time=const(7)))
        it.call(meth(it, io, "load"), [], dict(h5_file_name=save))


def content(a):
    return Arr.from_pieces(a.shape, a.dtype, a.pieces(), "copy")


def refill(s, tag):
    for (k, a) in s.all().items():
        fill_view(a, tag + str(k))


def eq(rep, nm, rule, got, want, conds):
    if got.shape != want.shape:
        rep.fail(nm, rule, "", "shape %s instead of %s" % (got.shape, want.shape))
        return
    d = diff_pieces(got.pieces(), want.pieces(), conds)
    rep.check(not d, nm, rule, d[0][3] if d else "", show_diff(d))


PARTS = [("es",), ("ev",), ("es", "ev", "es2"), ("l0", "ls"), ("l0", "lv"), ("l1", "ls", "lv"),
         ("es", "ev", "l0", "l1", "l2", "ls", "lv"), ("l0", "l1", "l2", "ls"),
         ("es", "ev", "es2", "ev2", "l0", "l1", "ls", "lv"), ("es", "l0", "lv", "lv2", "ls")]


def begin(it):
    models_h5.reset()
    A.NARROW[0] = True


def guarded(f):
    def g(it):
        begin(it)
        try:
            return f(it)
        finally:
            A.NARROW[0] = False
    return g


def ok_run(rep, nm, rule, r):
    if isinstance(r, AbsRaise):
        rep.fail(nm, rule, r.where or "", str(r))
        return False
    return True


# ---------------------------------------------------------------- C21
@spec("C21", min_obl=200)
def c21(rep, tier):
    r_ok = "saving and loading registered fields succeeds"
    r_back = "every registered array holds after load exactly what the saved array held when it was saved"
    r_time = "load returns the time that was saved"
    r_keep = "saving leaves the user's arrays and their precision alone"
    r_hist = "each file keeps the state at the time of its own save"

    def jobs():
        for dim in (2, 3):
            for fr in (F64, F32):
                for real in (F64, F32):
                    for parts in PARTS:
                        for mode in ("plain", "reordered", "split adds", "strided views", "another user"):
                            if mode == "plain" or real is F64:
                                yield dim, fr, real, parts, mode, {}
            for parts in PARTS:
                yield dim, F32, DTypeObj("float32"), parts, "plain", {}
                # extents and node counts that coincide with the dimension or with one
                for n in (1, 2, 3, 4):
                    yield dim, F64, F64, parts, "nodes %d" % n, dict(ns=(n, n + 1, n))
                for sz in ((dim,) * dim, (1,) * dim, (2, 3, 1)[:dim], (1, 2, 3)[:dim], (5,) + (dim,) * (dim - 1)):
                    if "l0" not in parts and "l1" not in parts:
                        yield dim, F64, F64, parts, "extents %s" % (sz,), dict(sizes=sz)

    for dim, fr, real, parts, mode, kw in jobs():
        nm = "%dD %s[fields %s,io %s,%s]" % (dim, "+".join(parts), fr.name, "dtype " * isinstance(real, DTypeObj) + real.name, mode)

        def f(it):
            views = mode == "strided views"
            s, d = Set("s_", dim, fr, parts, views=views, **kw), Set("d_", dim, fr, parts, views=views, **kw)
            a, b = new_io(it, dim, real), new_io(it, dim, real)
            s.register(it, a, split=mode == "split adds")
            if mode == "another user":
                another_user(it, dim, fr)
            refill(s, "now_")      # fields evolve between registration and save
            before = {k: content(x) for k, x in s.all().items()}
            it.call(meth(it, a, "save"), [], dict(h5_file_name="out.h5", time=T0))
            after = {k: content(x) for k, x in s.all().items()}
            refill(s, "later_")
            it.call(meth(it, a, "save"), [], dict(h5_file_name="out2.h5", time=T1))
            later = {k: content(x) for k, x in s.all().items()}
            d.register(it, b, order=-1 if mode == "reordered" else 1)
            if mode == "another user":
                another_user(it, dim, fr, "decoy.h5")
            t = it.call(meth(it, b, "load"), [], dict(h5_file_name="out.h5"))
            got = {k: content(x) for k, x in d.all().items()}
            t2 = it.call(meth(it, b, "load"), [], dict(h5_file_name="out2.h5"))
            got2 = {k: content(x) for k, x in d.all().items()}
            return before, after, later, got, got2, t, t2, d
        for conds, it, r in run_paths(guarded(f)):
            rep.absorb(it)
            if not ok_run(rep, nm, r_ok, r):
                continue
            before, after, later, got, got2, t, t2, d = r
            for k in before:
                eq(rep, nm + "/saved array %s" % (k,), r_keep, after[k], before[k], conds)
                eq(rep, nm + "/loaded %s" % (k,), r_back, got[k], before[k], conds)
                eq(rep, nm + "/second file %s" % (k,), r_hist, got2[k], later[k], conds)
            rep.check(cas.equal(E(t), T0), nm + "/time", r_time, "", "time %s" % (t,))
            rep.check(cas.equal(E(t2), T1), nm + "/second time", r_time, "", "time %s" % (t2,))
    more_histories(rep)


def more_histories(rep):
    r_sub = "loading a subset of the saved fields restores those and touches nothing else"
    r_over = "saving again under the same name replaces the file"
    r_con = "the connection of a connected Lagrangian grid is stored as consecutive node numbers"
    for dim in (2, 3):
        nm = "%dD subset" % dim

        def f(it):
            s = Set("s_", dim, F64, ("es", "ev", "es2", "l0", "l1", "ls", "lv"))
            d = Set("d_", dim, F64, ("ev", "l0", "lv"))
            a, b = new_io(it, dim, F64), new_io(it, dim, F64)
            s.register(it, a)
            want = {k: content(x) for k, x in s.all().items()}
            it.call(meth(it, a, "save"), [], dict(h5_file_name="out.h5", time=T0))
            d.register(it, b)
            t = it.call(meth(it, b, "load"), [], dict(h5_file_name="out.h5"))
            f_ = models_h5.VFS["out.h5"]
            con = [n.arr for p, n in f_.walk() if p.endswith("/Connection")]
            return want, d, t, con
        for conds, it, r in run_paths(guarded(f)):
            rep.absorb(it)
            if not ok_run(rep, nm, r_sub, r):
                continue
            want, d, t, con = r
            for k, x in d.all().items():
                eq(rep, nm + "/%s" % (k,), r_sub, x, want[k], conds)
            rep.check(len(con) == 1, nm + "/connection stored", r_con, "", "%d connection arrays" % len(con))
            for c in con:
                rep.check(c.shape == (lag_n(1),) and not diff_pieces(c.pieces(), [(((ZERO, lag_n(1)),), idx(0), "")], conds),
                          nm + "/connection", r_con, "", "%s" % (c.pieces()[:1],))
        nm = "%dD overwrite" % dim

        def g(it):
            s = Set("s_", dim, F64, ("es", "ev", "l0", "ls"))
            d = Set("d_", dim, F64, ("es", "ev", "l0", "ls"))
            a, b = new_io(it, dim, F64), new_io(it, dim, F64)
            s.register(it, a)
            it.call(meth(it, a, "save"), [], dict(h5_file_name="out.h5"))
            refill(s, "later_")
            want = {k: content(x) for k, x in s.all().items()}
            it.call(meth(it, a, "save"), [], dict(h5_file_name="out.h5", time=T1))
            d.register(it, b)
            t = it.call(meth(it, b, "load"), [], dict(h5_file_name="out.h5"))
            # fields of the loaded user go straight into a third save
            it.call(meth(it, b, "save"), [], dict(h5_file_name="again.h5", time=t))
            e = Set("e_", dim, F64, ("es", "ev", "l0", "ls"))
            c = new_io(it, dim, F64)
            e.register(it, c)
            t2 = it.call(meth(it, c, "load"), [], dict(h5_file_name="again.h5"))
            return want, d, e, t, t2
        for conds, it, r in run_paths(guarded(g)):
            rep.absorb(it)
            if not ok_run(rep, nm, r_over, r):
                continue
            want, d, e, t, t2 = r
            for k, x in d.all().items():
                eq(rep, nm + "/%s" % (k,), r_over, x, want[k], conds)
            for k, x in e.all().items():
                eq(rep, nm + "/restart of restart %s" % (k,), r_over, x, want[k], conds)
            rep.check(cas.equal(E(t), T1) and cas.equal(E(t2), T1), nm + "/time", r_over, "", "%s %s" % (t, t2))
        for fname in ("run.1.h5", "out.h5d/snap.h5", "snap.hdf5", "snap"):
            nm = "%dD file name %s" % (dim, fname)

            def h(it):
                s = Set("s_", dim, F64, ("es", "l0", "ls"))
                d = Set("d_", dim, F64, ("es", "l0", "ls"))
                a, b = new_io(it, dim, F64), new_io(it, dim, F64)
                s.register(it, a)
                want = {k: content(x) for k, x in s.all().items()}
                it.call(meth(it, a, "save"), [], dict(h5_file_name=fname, time=T0))
                d.register(it, b)
                it.call(meth(it, b, "load"), [], dict(h5_file_name=fname))
                return want, d
            for conds, it, r in run_paths(guarded(h)):
                rep.absorb(it)
                rule = "the HDF5 file is readable under the name it was saved with, whatever that name"
                if not ok_run(rep, nm, rule, r):
                    continue
                want, d = r
                for k, x in d.all().items():
                    eq(rep, nm + "/%s" % (k,), rule, x, want[k], conds)


# ---------------------------------------------------------------- C22
SIZES = {2: (9, 11), 3: (7, 9, 11)}


def conc_grid(dim, **over):
    o = [Fraction(1 + k, 8) for k in range(dim)]
    d = [Fraction(1, 16 * (k + 1)) for k in range(dim)]
    return eul_grid(dim, over.get("sizes", SIZES[dim]), over.get("origin", o), over.get("dx", d)), o, d


@spec("C22", min_obl=60)
def c22(rep, tier):
    r_miss = "loading a registered field or grid the file does not hold raises"
    r_grid = "loading into a grid that differs from the saved one raises"
    r_shape = "registering an array that fits neither a scalar nor a vector field of its grid raises"
    r_good = "the same operation on matching data succeeds"

    def expect(nm, rule, f, good=False):
        for conds, it, r in run_paths(guarded(f)):
            rep.absorb(it)
            if good:
                rep.check(not isinstance(r, AbsRaise), nm, r_good, getattr(r, "where", "") or "", str(r))
            else:
                rep.check(isinstance(r, AbsRaise), nm, rule, "sopht/utils/IO.py", "accepted silently")

    def save_load(save_parts, load_parts, dim, tweak=None, gs=None, gd=None, ns=None, nd=None, sizes=True, dim2=None):
        def f(it):
            d2 = dim2 or dim
            s = Set("s_", dim, F64, save_parts, SIZES[dim], ns or (5, 6, 7))
            d = Set("d_", d2, F64, load_parts, SIZES[d2], nd or (5, 6, 7))
            a, b = new_io(it, dim, F64), new_io(it, d2, F64)
            s.register(it, a, gs or conc_grid(dim)[0])
            d.register(it, b, gd or conc_grid(d2)[0])
            try:
                it.call(meth(it, a, "save"), [], dict(h5_file_name="out.h5", time=T0))
            except AbsRaise as ex:
                raise Unsupported("save failed: %s" % ex)
            if tweak:
                tweak(models_h5.VFS["out.h5"])
            it.call(meth(it, b, "load"), [], dict(h5_file_name="out.h5"))
        return f

    def drop(suffix, kind=None):
        def t(root):
            root.open_, root.mode = True, "r+"
            hit = [p for p, n in root.walk() if p.endswith(suffix)]
            for p in hit:
                root.delitem(None, p)
            if not hit:
                raise Unsupported("no %s in the saved file" % suffix)
        return t
    ALL = ("es", "ev", "l0", "l1", "ls", "lv")
    for dim in (2, 3):
        D = "%dD " % dim
        expect(D + "load all", r_miss, save_load(ALL, ALL, dim), good=True)
        expect(D + "load subset", r_miss, save_load(ALL, ("es", "l0", "lv"), dim), good=True)
        expect(D + "missing file", r_miss, lambda it: it.call(meth(it, new_io(it, dim, F64), "load"), [], dict(h5_file_name="none.h5")))
        for miss, name in (("es", "Eulerian scalar"), ("ev", "Eulerian vector"), ("l1", "Lagrangian grid"), ("ls", "Lagrangian scalar"), ("lv", "Lagrangian vector")):
            expect(D + "file without " + name, r_miss, save_load(tuple(p for p in ALL if p != miss), ALL, dim))
        expect(D + "file without Eulerian data", r_miss, save_load(("l0", "ls"), ("es", "l0", "ls"), dim))
        expect(D + "file without Lagrangian data", r_miss, save_load(("es",), ("es", "l0", "ls"), dim))
        for k in range(dim):
            expect(D + "file without vector component %d" % k, r_miss, save_load(ALL, ALL, dim, drop("vel_%d" % k)))
        for k in (0, 1):
            for fld in ("mass", "force"):
                def one(root, k=k, fld=fld):
                    root.open_, root.mode = True, "r+"
                    hit = [p for p, n in root.walk() if p.endswith("/" + fld)]
                    gname = [p for p in hit if ("body" in p) == (k == 1)]
                    if not gname:
                        raise Unsupported("no %s in the saved file" % fld)
                    for p in gname:
                        root.delitem(None, p)
                expect(D + "file without %s on Lagrangian grid %d" % (fld, k), r_miss, save_load(ALL, ALL, dim, one))

        def ngrid(root):
            root.open_, root.mode = True, "r+"
            for p, n in list(root.walk()):
                if p.endswith("body/Grid"):
                    root.delitem(None, p)
        expect(D + "file without grid positions", r_miss, save_load(ALL, ALL, dim, ngrid))
        g0, o, dx = conc_grid(dim)
        # values that agree in some aggregate (same set, sum, norm) but not component by component
        h = Fraction(1, 32)
        for t, o2 in (("reversed", o[::-1]), ("rotated", o[1:] + o[:1]), ("shifted against each other", [o[0] + h, o[1] - h] + o[2:]), ("negated", [-x for x in o]),
                      ("all shifted", [x + h for x in o])):
            expect(D + "origin " + t, r_grid, save_load(("es", "ev"), ("es", "ev"), dim, gd=conc_grid(dim, origin=o2)[0]))
        h = Fraction(1, 64)
        for t, d2 in (("reversed", dx[::-1]), ("rotated", dx[1:] + dx[:1]), ("shifted against each other", [dx[0] - h, dx[1] + h] + dx[2:]),
                      ("all scaled", [x * 2 for x in dx]), ("scaled against each other", [dx[0] * 2, dx[1] / 2] + dx[2:])):
            expect(D + "spacing " + t, r_grid, save_load(("es", "ev"), ("es", "ev"), dim, gd=conc_grid(dim, dx=d2)[0]))
        for k in range(dim):
            for fac, t in ((Fraction(1001, 1000), "+0.1%"), (Fraction(1, 2), "halved"), (Fraction(-1), "sign")):
                o2, d2 = list(o), list(dx)
                o2[k], d2[k] = o2[k] * fac, d2[k] * fac
                expect(D + "origin[%d] %s" % (k, t), r_grid, save_load(("es", "ev"), ("es", "ev"), dim, gd=conc_grid(dim, origin=o2)[0]))
                expect(D + "spacing[%d] %s" % (k, t), r_grid, save_load(("es", "ev"), ("es", "ev"), dim, gd=conc_grid(dim, dx=d2)[0]))
                expect(D + "spacing[%d] %s, scalar only" % (k, t), r_grid, save_load(("es",), ("es",), dim, gd=conc_grid(dim, dx=d2)[0]))
            # a one-cell extent would broadcast into the larger field
            sz = list(SIZES[dim])
            sz[k] = 1

            def bc(it, sz=sz):
                a, b = new_io(it, dim, F64), new_io(it, dim, F64)
                s, d = Set("s_", dim, F64, ("es",), sz), Set("d_", dim, F64, ("es",), SIZES[dim])
                s.register(it, a, conc_grid(dim, sizes=sz)[0])
                d.register(it, b, g0)
                it.call(meth(it, a, "save"), [], dict(h5_file_name="out.h5"))
                it.call(meth(it, b, "load"), [], dict(h5_file_name="out.h5"))
            expect(D + "one cell along axis %d" % k, r_grid, bc)
        for p in (("l0", "ls"), ("l0", "lv"), ("l1", "ls", "lv")):
            for n in (1, 4, 7):
                expect(D + "%s nodes %d instead of %s" % ("+".join(p), n, "5/6"), r_grid, save_load(p, p, dim, ns=(n, n, n), nd=(5, 6, 8)))
        # registration
        g = SIZES[dim]

        def reg_e(shape, define=True):
            def f(it):
                io = new_io(it, dim, F64)
                if define:
                    it.call(meth(it, io, "define_eulerian_grid"), [], conc_grid(dim)[0])
                it.call(meth(it, io, "add_as_eulerian_fields_for_io"), [], {"q": symarr("q", shape, "float64")})
            return f
        for sh in (g, (dim,) + g):
            expect(D + "Eulerian field %s" % (sh,), r_shape, reg_e(sh), good=True)
            expect(D + "Eulerian field %s without grid" % (sh,), "Eulerian fields can only be registered on a defined grid", reg_e(sh, False))
        for sh in (g[::-1], (dim + 1,) + g, (dim - 1,) + g, (1,) + g, g + (dim,), g[1:], (g[0] + 1,) + g[1:], (dim,) + g[::-1], (dim, dim) + g, g[:-1] + (g[-1] - 1,)):
            expect(D + "Eulerian field %s" % (sh,), r_shape, reg_e(sh))

        def reg_l(gs, shape):
            def f(it):
                io = new_io(it, dim, F64)
                it.call(meth(it, io, "add_as_lagrangian_fields_for_io"), [], dict(lagrangian_grid=symarr("p", gs, "float64"), q=symarr("q", shape, "float64")))
            return f
        N = 5
        for sh in ((N,), (dim, N)):
            expect(D + "Lagrangian field %s" % (sh,), r_shape, reg_l((dim, N), sh), good=True)
        for sh in ((N + 1,), (N - 1,), (dim, N + 1), (dim + 1, N), (N, dim), (N, N), (1, N), (dim, dim, N), (N, 1), (dim,)):
            expect(D + "Lagrangian field %s" % (sh,), r_shape, reg_l((dim, N), sh))
        for gs in ((N,), (5 - dim, N), (N, dim), (1, N), (dim, N, 1), (dim + 2, N)):
            expect(D + "Lagrangian grid %s" % (gs,), r_shape, reg_l(gs, (N,)))
        # a refused field leaves no trace: the other fields are still saved and restored
        for what, gs, sh in (("Eulerian", None, g[::-1]), ("Lagrangian", (dim, N), (N, dim)), ("replacing Eulerian", None, g[::-1]), ("replacing Lagrangian", (dim, N), (N + 1,))):
            nm = D + "after refusing a%s field" % ((" " if what[0] != "E" else "n ") + what)

            def f(it):
                s = Set("s_", dim, F64, ALL, g, (N, N, N))
                d = Set("d_", dim, F64, ALL, g, (N, N, N))
                a, b = new_io(it, dim, F64), new_io(it, dim, F64)
                s.register(it, a, conc_grid(dim)[0])
                d.register(it, b, conc_grid(dim)[0])
                want = {k: content(x) for k, x in s.all().items()}
                rep_ = what.startswith("replacing")
                try:
                    if gs is None:
                        it.call(meth(it, a, "add_as_eulerian_fields_for_io"), [], {"rho" if rep_ else "q": symarr("q", sh, "float64")})
                    else:
                        kw = dict(lagrangian_grid=s.grids[1][2], lagrangian_grid_name="body") if rep_ else dict(lagrangian_grid=symarr("p", gs, "float64"), lagrangian_grid_name="other")
                        it.call(meth(it, a, "add_as_lagrangian_fields_for_io"), [], dict(kw, **{"mass" if rep_ else "q": symarr("q", sh, "float64")}))
                except AbsRaise:
                    pass
                it.call(meth(it, a, "save"), [], dict(h5_file_name="out.h5", time=T0))
                it.call(meth(it, b, "load"), [], dict(h5_file_name="out.h5"))
                names = [p for p, n in models_h5.VFS["out.h5"].walk() if p.rpartition("/")[2] in ("q", "q_0")]
                return want, d, names
            for conds, it, r in run_paths(guarded(f)):
                rep.absorb(it)
                rule = "a refused field is not registered: the other fields are saved and restored as if it had not been offered"
                if not ok_run(rep, nm, rule, r):
                    continue
                want, d, names = r
                rep.check(not names, nm + "/file", rule, "sopht/utils/IO.py", "the file holds %s" % names)
                for k, x in d.all().items():
                    eq(rep, nm + "/%s" % (k,), rule, x, want[k], conds)
    for bad in (0, 1, 4):
        expect("IO(dim=%d)" % bad, "only two and three dimensions are accepted", lambda it: new_io(it, bad, F64))


# ---------------------------------------------------------------- C23
TOK = re.compile("\u27e6[0-9]+\u27e7")


def nums(text):
    """numbers of a whitespace/comma separated text; symbolic ones from their tokens"""
    out = []
    for w in re.split(r"[\s,]+", text.strip()):
        if not w:
            continue
        if w in TOKENS:
            out.append(TOKENS[w])
        else:
            try:
                out.append(E(Fraction(w)))
            except ValueError:
                return None
    return out


def undigits(e):
    """(expression, digits printed or None)"""
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and str(m[0][0].args[0]).startswith("digits:"):
            return m[0][0].args[1], int(m[0][0].args[0].split(":")[1])
    return e, None


def tag(x):
    return x.tag.split("}")[-1]


@spec("C23", min_obl=150)
def c23(rep, tier):
    r_xml = "one well-formed XDMF file per non-empty Eulerian/Lagrangian grid, named after the HDF5 file"
    r_ref = "every HDF data item names an existing dataset of the saved file with exactly its dimensions"
    r_prec = "the precision of every HDF float item is the byte size of the dataset"
    r_all = "every saved field is described exactly once (vector components of Eulerian fields as scalars)"
    r_time = "the XDMF time is the saved time"
    r_geo = "topology and geometry give the saved grid: extents, origin and spacing in z-y-x order, or node coordinates"
    itemsize = A.ITEMSIZE

    def run(dim, real, parts, fname="dir/out.h5", earlier=None):
        nm = "%dD %s[%s,%s%s]" % (dim, "+".join(parts), "dtype " * isinstance(real, DTypeObj) + real.name, fname, ",after %s" % earlier if earlier else "")

        def f(it):
            s = Set("s_", dim, real, parts)
            a = new_io(it, dim, real)
            if earlier == "another IO":
                # another user with another grid, other fields and the other precision
                o = Set("o_", dim, F32 if real.name == "float64" else F64, PARTS[6], (4, 5, 6)[:dim], (3, 4, 5))
                b = new_io(it, dim, F32 if real.name == "float64" else F64)
                o.register(it, b, conc_grid(dim, sizes=(4, 5, 6)[:dim])[0])
                it.call(meth(it, b, "save"), [], dict(h5_file_name="first.h5", time=T1))
            elif earlier == "another grid":
                o = Set("o_", dim, real, [p for p in parts if p[0] == "e"], (4, 5, 6)[:dim])
                o.register(it, a, conc_grid(dim, sizes=(4, 5, 6)[:dim])[0])
                it.call(meth(it, a, "save"), [], dict(h5_file_name="first.h5", time=T1))
            elif earlier == "a save of the same fields":
                s.register(it, a)
                it.call(meth(it, a, "save"), [], dict(h5_file_name="first.h5", time=T1))
            if earlier != "a save of the same fields":
                s.register(it, a)
            if earlier == "another user":
                another_user(it, dim, real, "first.h5")
            it.call(meth(it, a, "save"), [], dict(h5_file_name=fname, time=T0))
            return s, {n: f for n, f in models_h5.VFS.items() if not n.startswith("first")}
        for conds, it, r in run_paths(guarded(f)):
            rep.absorb(it)
            if not ok_run(rep, nm, "saving succeeds", r):
                continue
            s, files = r
            judge(nm, dim, real, s, files, fname, conds)

    def judge(nm, dim, real, s, files, fname, conds):
        stem = fname[:-3]
        root = files[fname]
        data = {p: n for p, n in root.walk() if isinstance(n, models_h5.H5Dataset)}
        lag = [p.split("/")[1] for p in data if p.startswith("Lagrangian/") and p.endswith("/Grid")]
        want = []
        if s.eul:
            want.append(stem + "_eulerian.xmf")
        if any(fl for _, _, _, fl in s.grids):
            want += ["%s_%s.xmf" % (stem, g) for g in lag]
        have = sorted(n for n in files if n != fname)
        rep.check(have == sorted(want), nm + "/files", r_xml, "sopht/utils/IO.py", "files %s, expected %s" % (have, sorted(want)))
        for fn_ in have:
            text = files[fn_]
            try:
                x = ET.fromstring(text)
            except Exception as ex:
                rep.fail(nm + "/" + fn_, r_xml, "sopht/utils/IO.py", "not well-formed: %s" % ex)
                continue
            eul = fn_.endswith("_eulerian.xmf")
            gname = None if eul else fn_[len(stem) + 1:-4]
            one(nm + "/" + fn_.rpartition("/")[2], dim, real, s, x, data, fname, eul, gname, conds)

    def dims(el):
        return nums(el.get("Dimensions") or "")

    def lead(d):
        while len(d) > 1 and d[0] == ONE:
            d = d[1:]
        return d

    def item(nm, el, data, fname, prec=True):
        """the dataset an HDF data item refers to (None and a failure when there is none)"""
        t = (el.text or "").strip()
        f, sep, p = t.partition(":")
        if not sep or p.lstrip("/") not in data or f not in (fname, fname.rpartition("/")[2]):
            rep.fail(nm + "/reference", r_ref, "sopht/utils/IO.py", "%r is not a dataset of %s" % (t, fname))
            return None
        rep.ok(nm + "/reference", r_ref)
        ds = data[p.lstrip("/")]
        dm = dims(el)
        shape = [E(v) for v in ds.arr.shape]
        # readers take the elements in order: extents of one at the front carry no meaning
        ok = dm is not None and lead(dm) == lead(shape)
        rep.check(ok, nm + "/dimensions", r_ref, "sopht/utils/IO.py", "Dimensions %s, dataset %s has shape %s" % (dm, p, shape))
        if prec:
            pr = el.get("Precision")
            rep.check(pr == str(itemsize[ds.arr.dtype]), nm + "/precision", r_prec, "sopht/utils/IO.py", "Precision %s, dataset %s is %s" % (pr, p, ds.arr.dtype))
        nt = el.get("NumberType") or el.get("DataType")
        rep.check((nt == "Float") == ds.arr.dtype.startswith("float"), nm + "/number type", r_prec, "sopht/utils/IO.py", "NumberType %s" % nt)
        return p.lstrip("/")

    def one(nm, dim, real, s, x, data, fname, eul, gname, conds):
        els = list(x.iter())
        tm = [e for e in els if tag(e) == "Time"]
        tv = nums(tm[0].get("Value") or "") if len(tm) == 1 else None
        rep.check(tv is not None and len(tv) == 1 and cas.equal(tv[0], T0), nm + "/time", r_time, "sopht/utils/IO.py", "Time %s" % (tv,))
        top = [e for e in els if tag(e) == "Topology"]
        geo = [e for e in els if tag(e) == "Geometry"]
        if not rep.check(len(top) == 1 and len(geo) == 1, nm + "/structure", r_geo, "sopht/utils/IO.py", "%d topologies, %d geometries" % (len(top), len(geo))):
            return
        top, geo = top[0], geo[0]
        seen = {}
        for at in [e for e in els if tag(e) == "Attribute"]:
            an, ty = at.get("Name"), at.get("AttributeType")
            di = [e for e in at if tag(e) == "DataItem"]
            if not rep.check(len(di) == 1, "%s/attribute %s" % (nm, an), r_ref, "sopht/utils/IO.py", "%d data items" % len(di)):
                continue
            p = item("%s/attribute %s" % (nm, an), di[0], data, fname)
            if p is None:
                continue
            rep.check(p.rpartition("/")[2] == an, "%s/name of %s" % (nm, an), r_all, "sopht/utils/IO.py", "attribute %s shows dataset %s" % (an, p))
            nd = data[p].arr.nd
            isvec = (not eul) and nd == 2
            rep.check(ty == ("Vector" if isvec else "Scalar"), "%s/type of %s" % (nm, an), r_ref, "sopht/utils/IO.py", "AttributeType %s for a dataset of rank %d" % (ty, nd))
            rep.check(at.get("Center") == "Node", "%s/centre of %s" % (nm, an), r_ref, "sopht/utils/IO.py", "Center %s" % at.get("Center"))
            seen[p] = seen.get(p, 0) + 1
        pre = "Eulerian/" if eul else "Lagrangian/%s/" % gname
        mine = sorted(p for p in data if p.startswith(pre) and p.rpartition("/")[2] not in ("Grid", "Connection"))
        rep.check(sorted(seen) == mine and all(v == 1 for v in seen.values()), nm + "/fields", r_all, "sopht/utils/IO.py",
                  "described %s, saved %s" % (sorted(seen), mine))
        if eul:
            g = [ONE] * (3 - dim) + list(grid(dim))
            td = dims(top)
            rep.check(td == g, nm + "/topology", r_geo, "sopht/utils/IO.py", "Dimensions %s, grid %s" % (td, g))
            rep.check((top.get("TopologyType"), geo.get("GeometryType")) == ("3DCORECTMesh", "ORIGIN_DXDYDZ"), nm + "/mesh type", r_geo, "sopht/utils/IO.py", "%s %s" % (top.get("TopologyType"), geo.get("GeometryType")))
            di = [e for e in geo if tag(e) == "DataItem"]
            if not rep.check(len(di) == 2, nm + "/geometry", r_geo, "sopht/utils/IO.py", "%d items" % len(di)):
                return
            for el, sy, what in ((di[0], "origin", "origin"), (di[1], "spacing", "spacing")):
                vs = nums(el.text or "")
                ok = vs is not None and len(vs) == 3 and dims(el) == [const(3)]
                if ok:
                    for k in range(3):
                        e, dg = undigits(vs[k])
                        j = k - (3 - dim)
                        if j < 0:
                            ok = ok and e.is_const and (what == "spacing" or not e.t)
                        else:
                            ok = ok and cas.equal(e, ref(sy, [const(j)])) and (dg is None or dg >= (15 if real.name == "float64" else 7))
                rep.check(ok, nm + "/" + what, r_geo, "sopht/utils/IO.py", "%s: %s (Dimensions %s)" % (what, vs, el.get("Dimensions")))
        else:
            di = [e for e in geo if tag(e) == "DataItem"]
            if not rep.check(len(di) == 1, nm + "/geometry", r_geo, "sopht/utils/IO.py", "%d items" % len(di)):
                return
            p = item(nm + "/geometry", di[0], data, fname)
            rep.check(p == pre + "Grid", nm + "/coordinates", r_geo, "sopht/utils/IO.py", "geometry reads %s" % p)
            rep.check(geo.get("GeometryType") == ("XYZ" if dim == 3 else "XY"), nm + "/geometry type", r_geo, "sopht/utils/IO.py", "%s" % geo.get("GeometryType"))
            n = data[pre + "Grid"].arr.shape[0]
            if pre + "Connection" in data:
                di = [e for e in top if tag(e) == "DataItem"]
                ok = len(di) == 1 and top.get("TopologyType") == "Polyline"
                rep.check(ok, nm + "/topology", r_geo, "sopht/utils/IO.py", "connected grid shown as %s" % top.get("TopologyType"))
                if ok:
                    p = item(nm + "/connection", di[0], data, fname)
                    rep.check(p == pre + "Connection", nm + "/connection data", r_geo, "sopht/utils/IO.py", "topology reads %s" % p)
            else:
                ne = nums(top.get("NumberOfElements") or "")
                rep.check(top.get("TopologyType") == "Polyvertex" and ne is not None and len(ne) == 1 and cas.equal(ne[0], n), nm + "/topology", r_geo,
                          "sopht/utils/IO.py", "%s with %s elements" % (top.get("TopologyType"), ne))
    for dim in (2, 3):
        for real in (F64, F32):
            for parts in PARTS:
                run(dim, real, parts)
        run(dim, F64, PARTS[6], "out.h5")
        run(dim, F64, PARTS[6], "a.h5.d/run.2.h5")
        for parts in PARTS:
            run(dim, DTypeObj("float32"), parts)
            for h in ("another IO", "another grid", "a save of the same fields", "another user"):
                run(dim, F32, parts, "out.h5", h)
