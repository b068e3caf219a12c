"""Models of sympy (as used to build stencils) and pystencils 1.1."""
import re
from fractions import Fraction

from . import arrays as A
from . import cas
from .arrays import AbsRaise, Arr, Ctx, SliceV, Unsupported, box_empty, box_inter
from .bounds import Undecidable, bmax, le, lt, try_le
from .cas import E, Expr, ONE, ZERO, PI, const, fn, idx, mk_atom, subst
from .interp import Cls, DT, Func, GenList, ModelFn, ModelModule, Obj, OpaqueModule, PyType, TOKENS, _int
from .models import IndexMaker, Rec, TypingObj, dtype_name, is_num, scal

FIELDS = {}


class FieldObj(Obj):
    tname = "pystencils.Field"

    def __init__(self, name, dtype, nd, shape, index_shape=()):
        self.name, self.dtype, self.nd, self.shape, self.index_shape = name, dtype, nd, shape, index_shape
        key = (name, dtype, nd, shape, index_shape)
        if key in FIELDS:
            self.uid = FIELDS[key].uid
        else:
            self.uid = "@F%d:%s" % (len(FIELDS), name)
            FIELDS[key] = self
            FIELDS[self.uid] = self

    def access(self, offs, index=()):
        if len(offs) != self.nd:
            raise AbsRaise("ValueError", "Wrong number of spatial indices for field %s: %d given, %d expected"
                           % (self.name, len(offs), self.nd), Ctx.where())
        o = []
        for x in offs:
            x = E(x)
            if not x.is_const or x.value.denominator != 1:
                raise Unsupported("non-constant stencil offset")
            o.append(x)
        return cas.ref(self.uid, tuple(o) + tuple(E(i) for i in index))

    def getitem(self, it, i):
        if isinstance(i, str):
            raise Unsupported("direction string offsets")
        if not isinstance(i, tuple):
            i = (i,)
        if self.index_shape:
            return IndexedAccess(self, i)
        return self.access(i)

    def getattr(self, it, n):
        if n == "center":
            if self.index_shape:
                return IndexedAccess(self, (0,) * self.nd)
            return CenterExpr(self.access((0,) * self.nd)) if False else self.access((0,) * self.nd)
        if n == "neighbor":
            def nb(axis, off):
                o = [0] * self.nd
                o[_int(axis)] = off
                return self.access(o)
            return ModelFn(n, nb)
        if n == "absolute_access":
            raise Unsupported("absolute access")
        if n == "name":
            return self.name
        if n in ("spatial_dimensions", "ndim"):
            return self.nd
        if n == "spatial_shape" or n == "shape":
            return self.shape
        if n == "dtype":
            return DT(self.dtype)
        if n == "center_vector":
            return [self.access((0,) * self.nd)]
        raise KeyError(n)

    def call(self, it, *index):
        return self.access((0,) * self.nd, index)

    def eq(self, it, a, b):
        return isinstance(a, FieldObj) and isinstance(b, FieldObj) and a.uid == b.uid


class IndexedAccess(Obj):
    tname = "Field.Access"

    def __init__(self, f, offs):
        self.f, self.offs = f, offs

    def call(self, it, *index):
        return self.f.access(self.offs, index)


class AssignObj(Obj):
    tname = "Assignment"

    def __init__(self, lhs, rhs, where):
        self.lhs, self.rhs, self.where = lhs, rhs, where

    def getattr(self, it, n):
        if n in ("lhs", "rhs"):
            return getattr(self, n)
        raise KeyError(n)

    def iter(self, it):
        return [self.lhs, self.rhs]


class ConfigObj(Obj):
    tname = "CreateKernelConfig"

    def __init__(self, **kw):
        self.kw = {"data_type": "float64", "default_number_float": None, "cpu_openmp": False, "iteration_slice": None,
                   "ghost_layers": None, "function_name": "kernel", "target": None}
        known = set(self.kw) | {"backend", "default_number_int", "skip_independence_check", "allow_double_writes",
                                "use_auto_for_assignments", "cpu_vectorize_info", "cpu_blocking", "omp_single_loop",
                                "cpu_prepend_optimizations", "default_assignment_simplifications", "index_fields"}
        for k in kw:
            if k not in known:
                raise AbsRaise("TypeError", "__init__() got an unexpected keyword argument %r" % k, Ctx.where())
        self.kw.update(kw)

    def getattr(self, it, n):
        return self.kw[n]

    def setattr(self, it, n, v):
        self.kw[n] = v


class KernelAst(Obj):
    tname = "KernelFunction"

    def __init__(self, assigns, config, name):
        self.assigns, self.config, self.kname = assigns, config, name
        self.kernel = KernelObj(assigns, config, name)

    def getattr(self, it, n):
        if n == "compile":
            return ModelFn("compile", lambda: self.kernel)
        if n == "function_name":
            return self.kname
        if n == "assignments":
            return self.assigns
        raise KeyError(n)


class KList(list):
    kname = None


def access_atoms(e):
    return [a for a in e.all_atoms() if a.kind == "ref" and str(a.args[0]).startswith("@F")]


def local_syms(e):
    return [a for a in e.all_atoms() if a.kind == "sym" and str(a.args[0]).startswith("$")]


class KernelObj(Obj):
    tname = "compiled kernel"

    def __init__(self, assigns, config, name):
        self.assigns = assigns
        self.config = config
        self.kname = name
        self.where_created = Ctx.where()
        self.analyse()

    def analyse(self):
        """creation-time checks of pystencils (SSA form, independence)"""
        w = Ctx.where()
        self.fields = {}
        written = {}
        self.params = []
        defined = set()
        read_syms = set()
        maxoff = 0
        for a in self.assigns:
            for x in access_atoms(a.rhs):
                f = FIELDS[x.args[0]]
                self.fields[f.uid] = f
                offs = tuple(int(o.value) for o in x.args[1][:f.nd])
                maxoff = max([maxoff] + [abs(o) for o in offs])
                wo = written.get((f.uid, x.args[1][f.nd:]))
                if wo is not None and wo != offs:
                    raise AbsRaise("ValueError", "Violation of loop independence condition. Field %s is read at %s and "
                                   "written at %s" % (f.name, offs, wo), a.where)
            for s in local_syms(a.rhs):
                if s not in defined:
                    read_syms.add(s)
                    if s not in self.params:
                        self.params.append(s)
            la = _single_atom(a.lhs)
            if la is None:
                raise AbsRaise("ValueError", "assignment target is not a field access or symbol", a.where)
            if la.kind == "ref":
                f = FIELDS[la.args[0]]
                self.fields[f.uid] = f
                offs = tuple(int(o.value) for o in la.args[1][:f.nd])
                maxoff = max([maxoff] + [abs(o) for o in offs])
                k = (f.uid, la.args[1][f.nd:])
                if k in written:
                    raise AbsRaise("ValueError", "Field %s is written twice" % f.name, a.where)
                written[k] = offs
            else:
                if la in defined or la in read_syms:
                    raise AbsRaise("ValueError", "Assignments not in SSA form: %s" % la, a.where)
                defined.add(la)
        # reads occurring before the write at another offset
        for a in self.assigns:
            for x in access_atoms(a.rhs):
                f = FIELDS[x.args[0]]
                wo = written.get((f.uid, x.args[1][f.nd:]))
                if wo is not None:
                    offs = tuple(int(o.value) for o in x.args[1][:f.nd])
                    if wo != offs:
                        self.late_dep = (f.name, offs, wo, a.where)
        if not self.fields:
            raise AbsRaise("ValueError", "kernel without fields", w)
        shapes = {f.shape for f in self.fields.values()}
        nds = {f.nd for f in self.fields.values()}
        if len(nds) > 1:
            raise AbsRaise("ValueError", "fields of different spatial dimensions in one kernel", w)
        fixed = [s for s in shapes if s is not None]
        if fixed and None in shapes:
            raise AbsRaise("ValueError", "Mixing fixed-shaped and variable-shape fields in a single kernel is not possible", w)
        if len(set(fixed)) > 1:
            raise AbsRaise("ValueError", "Differently sized field accesses in loop body", w)
        self.nd = nds.pop()
        self.ghost = maxoff
        self.written = written
        self.defined = defined

    def getattr(self, it, n):
        if n == "__name__":
            return self.kname
        if n == "num_regs":
            return None
        raise KeyError(n)

    def call(self, it, *args, **kwargs):
        if args:
            raise AbsRaise("TypeError", "kernel takes keyword arguments only", it.where())
        it.events.append(("kernel", self, dict(kwargs), it.where()))
        views = {}
        for uid, f in self.fields.items():
            if f.name not in kwargs:
                raise AbsRaise("KeyError", "Keyword argument '%s' missing for kernel %s" % (f.name, self.kname), it.where())
            v = kwargs[f.name]
            if not isinstance(v, Arr):
                raise AbsRaise("TypeError", "kernel argument %s is not an array" % f.name, it.where())
            if v.dtype != f.dtype:
                raise AbsRaise("ValueError", "kernel %s argument %s: wrong data type %s, expected %s"
                               % (self.kname, f.name, v.dtype, f.dtype), it.where())
            if v.nd != f.nd:
                raise AbsRaise("ValueError", "kernel %s argument %s: wrong number of dimensions" % (self.kname, f.name), it.where())
            if f.shape is not None:
                for a, b in zip(v.shape, f.shape):
                    if a != E(b):
                        raise AbsRaise("ValueError", "kernel %s argument %s: wrong shape %s expected %s" % (
                            self.kname, f.name, list(map(str, v.shape)), list(map(str, f.shape))), it.where())
            views[uid] = v
        shp = None
        for uid, v in views.items():
            if shp is None:
                shp = v.shape
            elif v.shape != shp:
                raise AbsRaise("ValueError", "kernel %s: all fields must have the same shape (%s vs %s)" % (
                    self.kname, list(map(str, shp)), list(map(str, v.shape))), it.where())
        env = {}
        for s in self.params:
            nm = s.args[0][1:]
            if nm not in kwargs:
                raise AbsRaise("KeyError", "Keyword argument '%s' missing for kernel %s" % (nm, self.kname), it.where())
            v = kwargs[nm]
            if isinstance(v, Arr):
                if v.nd != 0:
                    raise AbsRaise("TypeError", "kernel scalar argument %s is an array" % nm, it.where())
                v = it.scalar_of(v)
            if isinstance(v, bool):
                v = int(v)
            if not is_num(v):
                raise AbsRaise("TypeError", "kernel scalar argument %s is not a number" % nm, it.where())
            env[s] = E(v)
        box = self.domain(it, shp)
        if box_empty(box):
            return
        self.check_bounds(it, views, shp, box)
        self.hazards(it, views, box)
        local = {}
        pend = {}
        w = it.where()
        for a in self.assigns:
            rhs = a.rhs
            acc = access_atoms(rhs)
            loc = [s for s in local_syms(rhs) if s in local]
            lists = [[(box, ZERO, "")]]
            for x in acc:
                f = FIELDS[x.args[0]]
                p = pend.get((f.uid, x.args[1]))
                if p is None:
                    p = self.read(views[f.uid], [int(o.value) for o in x.args[1][:f.nd]], box)
                lists.append(p)
            for s in loc:
                lists.append(local[s])
            res = []
            prov = "%s kernel %s, called at %s" % (a.where, self.kname, w)
            for b, es, _ in A.refine(lists):
                mp = dict(env)
                for x, e in zip(acc, es[1:1 + len(acc)]):
                    mp[x] = e
                for s, e in zip(loc, es[1 + len(acc):]):
                    mp[s] = e
                res.append((b, subst(rhs, mp), prov))
            la = _single_atom(a.lhs)
            if la.kind == "ref":
                pend[(la.args[0], la.args[1])] = res
            else:
                local[la] = res
        for (uid, offs), res in pend.items():
            f = FIELDS[uid]
            v = views[uid]
            o = [int(x.value) for x in offs[:f.nd]]
            if any(o):
                mp = {mk_atom("idx", (d,), True, True): idx(d) - o[d] for d in range(f.nd)}
                res = [(tuple((l + o[d], h + o[d]) for d, (l, h) in enumerate(b)), subst(e, mp), p) for b, e, p in res]
            for b, e, p in res:
                v.write([(b, e, p)], p)

    def domain(self, it, shp):
        sl = self.config.kw.get("iteration_slice")
        if sl is None:
            g = self.config.kw.get("ghost_layers")
            if g is None:
                g = self.ghost
            if isinstance(g, (list, tuple)):
                return tuple((E(l), n - E(h)) for (l, h), n in zip([tuple(x) for x in g], shp))
            if isinstance(g, bool):
                g = self.ghost if g else 0
            return tuple((E(g), n - E(g)) for n in shp)
        if not isinstance(sl, (tuple, list)):
            sl = (sl,)
        if len(sl) != len(shp):
            raise AbsRaise("ValueError", "Slice dimension does not match sizes", it.where())
        out = []
        for s, n in zip(sl, shp):
            if isinstance(s, SliceV):
                if s.step not in (None, 1):
                    raise Unsupported("strided iteration slice")

                def nb(x, dflt):
                    if x is None:
                        return dflt
                    if isinstance(x, Fraction):
                        raise Unsupported("relative slice")
                    x = E(x)
                    if x.is_const:
                        return x + n if x.value < 0 else x
                    if any(a.kind == "sym" and str(a.args[0]).startswith("$") for a in x.all_atoms()):
                        return x
                    return x if le(ZERO, x) else x + n
                out.append((nb(s.start, ZERO), nb(s.stop, n)))
            else:
                x = E(s)
                if x.is_const and x.value < 0:
                    x = x + n
                elif not x.is_const and not le(ZERO, x):
                    x = x + n
                out.append((x, x + 1))
        return tuple(out)

    def check_bounds(self, it, views, shp, box):
        for a in self.assigns:
            ats = access_atoms(a.rhs) + [x for x in [_single_atom(a.lhs)] if x.kind == "ref"]
            for x in ats:
                f = FIELDS[x.args[0]]
                for d in range(f.nd):
                    o = x.args[1][d]
                    lo, hi = box[d]
                    ok = try_le(ZERO, lo + o) and try_le(hi + o, shp[d])
                    if not ok:
                        it.events.append(("oob", "kernel %s accesses %s at offset %s outside [0,%s) along axis %d (iterating [%s,%s))" % (
                            self.kname, f.name, o, shp[d], d, lo, hi), it.where()))
                        raise AbsRaise("IndexError", "kernel %s: out-of-bounds access of field %s (offset %s on axis %d)" % (
                            self.kname, f.name, o, d), it.where())

    def hazards(self, it, views, box):
        """aliasing between a written field and another access of the same
        allocation at a different cell: order dependent result"""
        acc = []
        for k, a in enumerate(self.assigns):
            for x in access_atoms(a.rhs):
                acc.append((k, "r", x, a.where))
            la = _single_atom(a.lhs)
            if la.kind == "ref":
                acc.append((k, "w", la, a.where))
        for k, kind, x, w in acc:
            if kind != "w":
                continue
            for k2, kind2, y, w2 in acc:
                if y is x:
                    continue
                fx, fy = FIELDS[x.args[0]], FIELDS[y.args[0]]
                if fx.uid == fy.uid and x.args[1] == y.args[1]:
                    continue
                vx, vy = views[fx.uid], views[fy.uid]
                if vx.base is not vy.base:
                    continue
                rel = alias(vx, [int(o.value) for o in x.args[1][:fx.nd]], vy, [int(o.value) for o in y.args[1][:fy.nd]], box)
                if rel == "disjoint":
                    continue
                if rel == "same":
                    if kind2 == "r" and k2 <= k:
                        continue
                    if kind2 == "r":
                        what = "reads %s after writing it under the restrict-qualified alias %s" % (fy.name, fx.name)
                    else:
                        what = "writes the same cell through %s and %s" % (fx.name, fy.name)
                else:
                    what = "%s %s at another cell of the array it writes through %s" % (
                        "reads" if kind2 == "r" else "writes", fy.name, fx.name)
                it.events.append(("hazard", "kernel %s %s" % (self.kname, what), it.where()))

    def read(self, v, offs, box):
        n = len(offs)
        bb = tuple((l + o, h + o) for (l, h), o in zip(box, offs)) + ((((ZERO, const(2)),)) if v.cplx else ())
        out = []
        mp = {mk_atom("idx", (d,), True, True): idx(d) + o for d, o in enumerate(offs) if o}
        for b, e, p in v.pieces():
            i = box_inter(b, bb)
            if box_empty(i):
                continue
            nb = tuple((l - o, h - o) for (l, h), o in zip(i, offs))
            out.append((nb, subst(e, mp) if mp else e, p))
        return out


def alias(vx, ox, vy, oy, box):
    same = True
    for (jx, cx, fx), (jy, cy, fy) in zip(vx.map, vy.map):
        if jx == "part" or jy == "part":
            continue
        if jx is None and jy is None:
            d = fx - fy
            if not d.t:
                continue
            if d.is_const:
                return "disjoint"
            if try_le(fx + 1, fy) or try_le(fy + 1, fx):
                return "disjoint"
            same = False
            continue
        # intervals of base indices touched along this axis
        def rng(j, c, f, o):
            if j is None:
                return f, f + 1
            lo, hi = box[j]
            lo, hi = lo + o[j], hi + o[j]
            if c == 1:
                return lo + f, hi + f
            if c == -1:
                return f - hi + 1, f - lo + 1
            return None
        rx, ry = rng(jx, cx, fx, ox), rng(jy, cy, fy, oy)
        if rx and ry and (try_le(rx[1], ry[0]) or try_le(ry[1], rx[0])):
            return "disjoint"
        if jx == jy and cx == cy:
            d = (fx + ox[jx] * cx) - (fy + oy[jy] * cy)
            if d.t:
                same = False
        else:
            same = False
    return "same" if same else "overlap"


def _single_atom(e):
    if isinstance(e, Expr) and len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("ref", "sym"):
            return m[0][0]
    return None


# ------------------------------------------------------------------ fields("...")
_F = re.compile(r"^\s*([A-Za-z_]\w*)\s*(\(([^)]*)\))?\s*$")


def parse_fields(spec, layout=None):
    if not isinstance(spec, str):
        raise Unsupported("ps.fields argument")
    if ":" in spec:
        names, d = spec.split(":", 1)
    else:
        names, d = spec, "double[2D]"
        raise AbsRaise("ValueError", "Could not parse field description", Ctx.where())
    m = re.match(r"^\s*([\w]*)\s*\[([^\]]*)\]\s*$", d)
    if not m:
        raise AbsRaise("ValueError", "Could not parse field description %r" % spec, Ctx.where())
    dt = m.group(1) or "float64"
    dt = {"double": "float64", "float": "float32"}.get(dt, dt)
    if dt not in ("float32", "float64", "int32", "int64"):
        raise AbsRaise("ValueError", "unknown data type %r" % dt, Ctx.where())
    dims = m.group(2).strip()
    md = re.match(r"^(\d+)\s*[dD]$", dims)
    if md:
        nd, shape = int(md.group(1)), None
    else:
        shape = []
        for s in dims.split(","):
            s = s.strip()
            if s in TOKENS:
                shape.append(TOKENS[s])
            elif re.match(r"^\d+$", s):
                shape.append(const(int(s)))
            else:
                raise AbsRaise("ValueError", "Could not parse field shape %r" % dims, Ctx.where())
        nd, shape = len(shape), tuple(E(s) for s in shape)
    out = []
    # split names on commas outside parentheses
    for nm in re.findall(r"[A-Za-z_]\w*\s*(?:\([^)]*\))?", names):
        mm = _F.match(nm)
        if not mm:
            raise AbsRaise("ValueError", "Could not parse field name %r" % nm, Ctx.where())
        ish = tuple(int(x) for x in mm.group(3).split(",") if x.strip()) if mm.group(3) else ()
        if ish:
            raise Unsupported("fields with index dimensions")
        out.append(FieldObj(mm.group(1), dt, nd, shape, ish))
    return out


def setup(M):
    it = M.it

    # ------------------------------------------------------------ sympy
    S = {}
    sp = ModelModule("sympy", S)
    M.mods["sympy"] = sp

    def symbols(names, **kw):
        if isinstance(names, (list, tuple)):
            return [symbols(n) for n in names]
        parts = [p for p in re.split(r"[,\s]+", names.strip()) if p]
        out = []
        for p in parts:
            m = re.match(r"^(.*?)(\d*):(\d+)$", p)
            if m:
                out += ["%s%d" % (m.group(1), k) for k in range(int(m.group(2) or 0), int(m.group(3)))]
            else:
                out.append(p)
        r = tuple(cas.sym("$" + p) for p in out)
        return r[0] if len(r) == 1 and "," not in names and ":" not in names else r

    def f1(name, f):
        def g(x, **kw):
            if isinstance(x, (int, Fraction)):
                return f(E(x))
            if not is_num(x):
                raise AbsRaise("TypeError", "sympy function of a non-expression", it.where())
            return f(E(x))
        S[name] = ModelFn(name, g)
    h = Fraction(1, 2)
    for n in ("sin", "cos", "exp", "log"):
        f1(n, (lambda nn: lambda x: fn(nn, x))(n))
    f1("tan", lambda x: fn("sin", x) / fn("cos", x))
    f1("sqrt", lambda x: cas.power(x, h))
    f1("Abs", cas.absval)
    f1("sign", lambda x: cas.pos(x) - cas.pos(-x))
    f1("floor", lambda x: fn("floor", x))
    f1("simplify", lambda x: x)
    f1("expand", lambda x: x)
    f1("factor", lambda x: x)
    f1("sympify", lambda x: x)
    f1("nsimplify", lambda x: x)
    f1("Integer", lambda x: x)
    S["Float"] = ModelFn("Float", lambda x, *a: x)
    S["S"] = SympyS()
    S["Rational"] = ModelFn("Rational", lambda a, b=1: Fraction(a) / Fraction(b))
    S["pi"] = PI
    S["E"] = fn("exp", const(1))
    S["symbols"] = ModelFn("symbols", symbols)
    S["Symbol"] = ModelFn("Symbol", lambda n, **k: cas.sym("$" + n))
    S["true"], S["false"] = True, False

    def red(f):
        def g(*a):
            r = E(a[0])
            for x in a[1:]:
                r = f(r, E(x))
            return r
        return g
    S["Max"] = ModelFn("Max", red(cas.maximum))
    S["Min"] = ModelFn("Min", red(cas.minimum))
    S["Add"] = ModelFn("Add", red(lambda a, b: a + b))
    S["Mul"] = ModelFn("Mul", red(lambda a, b: a * b))
    S["Pow"] = ModelFn("Pow", lambda a, b: scal("pow", a, b))

    def piecewise(*args):
        r = None
        tot = ZERO
        rest = ONE
        for a in args:
            e, c = a
            if isinstance(c, bool):
                c = ONE if c else ZERO
            if not isinstance(c, Expr):
                raise AbsRaise("TypeError", "invalid Piecewise condition", it.where())
            tot = tot + rest * c * E(e)
            rest = rest * (ONE - c)
        if rest.t:
            # undefined elsewhere: sympy yields nan
            tot = tot + rest * cas.sym("nan")
        return tot
    S["Piecewise"] = ModelFn("Piecewise", piecewise)

    def b01(x):
        return (ONE if x else ZERO) if isinstance(x, bool) else x

    def and_(*a):
        r = ONE
        for x in a:
            r = r * b01(x)
        return r

    def or_(*a):
        r = ONE
        for x in a:
            r = r * (ONE - b01(x))
        return ONE - r
    S["And"] = ModelFn("And", and_)
    S["Or"] = ModelFn("Or", or_)
    S["Not"] = ModelFn("Not", lambda x: ONE - b01(x))
    for n, f in [("Gt", lambda a, b: cas.pos(E(a) - E(b))), ("Lt", lambda a, b: cas.pos(E(b) - E(a))),
                 ("Ge", lambda a, b: ONE - cas.pos(E(b) - E(a))), ("Le", lambda a, b: ONE - cas.pos(E(a) - E(b))),
                 ("Eq", lambda a, b: cas.zero(E(a) - E(b))), ("Ne", lambda a, b: ONE - cas.zero(E(a) - E(b))),
                 ("Heaviside", lambda x, y=h: cas.pos(E(x)) + cas.zero(E(x)) * E(y))]:
        S[n] = ModelFn(n, f)
    for a, b in (("GreaterThan", "Ge"), ("LessThan", "Le"), ("StrictGreaterThan", "Gt"), ("StrictLessThan", "Lt"), ("Equality", "Eq")):
        S[a] = S[b]

    # ------------------------------------------------------------ pystencils
    P = {}
    ps = ModelModule("pystencils", P)
    M.mods["pystencils"] = ps

    def fields(spec=None, *a, layout=None, **kw):
        if spec is None and kw:
            out = []
            for n, v in kw.items():
                if not isinstance(v, Arr):
                    raise Unsupported("ps.fields keyword")
                out.append(FieldObj(n, v.dtype, v.nd, v.shape))
            return out[0] if len(out) == 1 else tuple(out)
        fs = parse_fields(spec)
        if kw:
            raise Unsupported("ps.fields keywords")
        return fs[0] if len(fs) == 1 else tuple(fs)

    def kernel(f, **kw):
        if not isinstance(f, Func):
            raise Unsupported("ps.kernel of a non-function")
        sink = []
        args = {}
        names = [x.arg for x in f.node.args.args]
        if "s" in names and "s" not in kw:
            kw["s"] = SymCreator()
        it.call_func(f, [], kw, sink=sink)
        out = KList()
        out.kname = f.name
        for l, r, w in sink:
            out.append(AssignObj(lhs_of(l), rhs_of(r, w), w))
        if not out:
            pass
        it.events.append(("stencil", f.where))
        return out

    def lhs_of(l):
        if not isinstance(l, Expr):
            raise AbsRaise("TypeError", "invalid kernel assignment target", it.where())
        return l

    def rhs_of(r, w):
        if isinstance(r, bool):
            r = int(r)
        if not is_num(r):
            raise AbsRaise("TypeError", "invalid kernel right-hand side", w)
        return E(r)

    def assignment(l, r):
        w = it.where()
        return AssignObj(lhs_of(l), rhs_of(r, w), w)

    def create_kernel(assigns, config=None, **kw):
        if config is None:
            config = ConfigObj(**kw)
        elif kw:
            c = ConfigObj(**{k: v for k, v in config.kw.items() if k in ConfigObj().kw})
            c.kw.update(kw)
            config = c
        if isinstance(assigns, AssignObj):
            assigns = [assigns]
        if isinstance(assigns, AssignColl):
            assigns = assigns.all
        assigns = it.iterate(assigns) if not isinstance(assigns, list) else assigns
        al = []
        for a in assigns:
            if isinstance(a, tuple) and len(a) == 2:
                a = assignment(*a)
            if not isinstance(a, AssignObj):
                raise Unsupported("kernel assignment %r" % (a,))
            al.append(a)
        if not al:
            raise AbsRaise("AssertionError", "Assignments must not be empty!", it.where())
        name = getattr(assigns, "kname", None) or "kernel"
        return KernelAst(al, config, name)

    P.update({
        "fields": ModelFn("fields", fields), "kernel": ModelFn("kernel", kernel),
        "create_kernel": ModelFn("create_kernel", create_kernel), "Assignment": ModelFn("Assignment", assignment),
        "CreateKernelConfig": ModelFn("CreateKernelConfig", lambda **k: ConfigObj(**k)),
        "make_slice": IndexMaker(), "TypedSymbol": ModelFn("TypedSymbol", lambda n, *a, **k: cas.sym("$" + n)),
        "Target": OpaqueEnum("Target"), "Backend": OpaqueEnum("Backend"),
        "AssignmentCollection": ModelFn("AssignmentCollection", lambda main, sub=(), **k: AssignColl(main, sub)),
        "kernel_config": ModelFn("kernel_config", lambda c, **k: ModelFn("kernel_config", lambda f: {"assignments": kernel(f, **k), "config": c})),
    })

    def create_generic(name, spatial_dimensions, dtype=None, index_dimensions=0, **kw):
        if index_dimensions:
            raise Unsupported("index dimensions")
        return FieldObj(name, dtype_name(dtype), _int(spatial_dimensions), None)

    def create_fixed_size(name, shape, index_dimensions=0, dtype=None, **kw):
        return FieldObj(name, dtype_name(dtype), len(shape), tuple(E(s) for s in shape))
    P["Field"] = Rec("Field", {"create_generic": ModelFn("create_generic", create_generic),
                               "create_fixed_size": ModelFn("create_fixed_size", create_fixed_size)})


class SymCreator(Obj):
    tname = "SymbolCreator"

    def getattr(self, it, n):
        return cas.sym("$" + n)


class SympyS(Obj):
    tname = "sympy.S"

    def getattr(self, it, n):
        return {"Half": Fraction(1, 2), "One": 1, "Zero": 0, "Pi": PI, "true": True, "false": False}[n]

    def call(self, it, x):
        return x


class OpaqueEnum(Obj):
    def __init__(self, n):
        self.n = n
        self.tname = n

    def getattr(self, it, n):
        return self.n + "." + n


class AssignColl(Obj):
    tname = "AssignmentCollection"

    def __init__(self, main, sub):
        g = lambda x: [AssignObj(k, E(v), "") for k, v in x.items()] if isinstance(x, dict) else list(x)
        self.all = g(sub) + g(main)
