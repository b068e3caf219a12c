"""Models of builtins, math, numpy, sympy: abstract semantics of the calls the
analysed sources make."""
import ast
import inspect
from fractions import Fraction

from . import arrays as A
from . import cas
from . import models_np
from .arrays import (AbsRaise, Arr, Base, CVal, Ctx, SliceV, Unsupported, as_arr, assign, broadcast_to,
                     copy, ewise, getitem, join_parts, part, promote, COMPLEX, TO_COMPLEX, is_complex,
                     moveaxis, transpose, reshape, reduce_sum, from_list)
from .bounds import Undecidable, le, lt, try_le
from .cas import E, Expr, ONE, ZERO, PI, const, idx, fn, subst, atom_expr, mk_atom
from .interp import (Bound, Cls, DT, EXC, ExcType, ExcVal, Func, GenList, Inst, ModelFn, ModelModule, Obj,
                     OpaqueModule, Prop, PyType, SymRange, _int, Module, token, TOKENS)

IDX = lambda d: mk_atom("idx", (d,), True, True)

F32, F64 = DT("float32"), DT("float64")
I32, I64, BOOL = DT("int32"), DT("int64"), DT("bool")
I8, I16 = DT("int8"), DT("int16")
C64, C128 = DT("complex64"), DT("complex128")
DTS = {"float32": F32, "float64": F64, "int32": I32, "int64": I64, "bool": BOOL, "int8": I8, "int16": I16, "complex64": C64,
       "complex128": C128}


class SpecialFloat(Obj):
    tname = "float"

    def __init__(self, v):
        self.v = v


def dtype_name(d):
    if d is None:
        return "float64"
    if isinstance(d, DT):
        return d.name
    if isinstance(d, str):
        n = {"double": "float64", "single": "float32", "float": "float64", "int": "int64", "complex": "complex128",
             "f4": "float32", "f8": "float64", "<f4": "float32", "<f8": "float64", "d": "float64", "f": "float32"}.get(d, d)
        if n in DTS:
            return n
        raise Unsupported("dtype %r" % d)
    if isinstance(d, PyType):
        n = {"float": "float64", "int": "int64", "complex": "complex128", "bool": "bool"}.get(d.name)
        if n:
            return n
    if isinstance(d, DTypeObj):
        return d.name
    if isinstance(d, (bool, int, Fraction)):
        raise AbsRaise("TypeError", "Cannot interpret %r as a data type" % (d,), Ctx.where())
    raise Unsupported("dtype %r" % (d,))


class DTypeObj(DT):
    """array.dtype: compares equal to the scalar type; `is` comparison differs"""
    inst = True


def shape_tuple(s):
    if isinstance(s, (int, Expr)):
        return (E(s),)
    if isinstance(s, Fraction):
        if s.denominator == 1:
            raise AbsRaise("TypeError", "'float' object cannot be interpreted as an integer", Ctx.where())
        raise AbsRaise("TypeError", "float shape", Ctx.where())
    if isinstance(s, (list, tuple)):
        out = []
        for x in s:
            if isinstance(x, Fraction):
                raise AbsRaise("TypeError", "'float' object cannot be interpreted as an integer", Ctx.where())
            out.append(E(x))
        return tuple(out)
    if isinstance(s, Arr) and s.nd == 1 and s.shape[0].is_const:
        return tuple(E(elem(s, k)) for k in range(int(s.shape[0].value)))
    raise Unsupported("shape %r" % (s,))


def elem(a, *ix):
    g = getitem(a, tuple(ix))
    ps = g.pieces()
    if len(ps) != 1:
        raise Unsupported("element of piecewise array")
    return ps[0][1]


def pyint(e):
    """native int when constant"""
    if isinstance(e, Expr) and e.is_const and e.value.denominator == 1:
        return int(e.value)
    return e


def filled(shape, dtype, e, name=""):
    return Arr.of(Base.make(shape_tuple(shape), dtype, e, name))


def uninit(shape, dtype):
    sh = shape_tuple(shape)
    nm = Ctx.fresh("uninit@" + Ctx.where().split(" ")[0])
    n = len(sh) + (1 if is_complex(dtype) else 0)
    b = Base.make(sh, dtype, cas.ref(nm, [idx(i) for i in range(n)]), nm)
    return Arr.of(b)


# attributes of Python / numpy scalars that the domain does not track (a plain number has no dtype here)
NUM_ATTRS = set("""T all any argmax argmin argsort as_integer_ratio astype base bit_length byteswap choose clip compress
conj conjugate copy cumprod cumsum data denominator diagonal dtype dump dumps fill flags flat flatten fromhex getfield hex imag
is_integer item itemset itemsize max mean min nbytes ndim newbyteorder nonzero numerator prod ptp put ravel real repeat reshape
resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_bytes tobytes tofile tolist
tostring trace transpose var view""".split())


def arr_like(x):
    return x if isinstance(x, Arr) else as_arr(x)


REAL_RES = {"int8", "int16", "int32", "int64", "bool"}


def num_dtype(x):
    if isinstance(x, Arr):
        return x.dtype
    return None


def result_dtype(a, b, op=None):
    da, db = num_dtype(a), num_dtype(b)
    if da and db:
        # 0-d arrays behave as scalars
        if a.nd == 0 and b.nd > 0:
            da = None
        elif b.nd == 0 and a.nd > 0:
            db = None
    if da and db:
        d = promote(da, db)
    else:
        d = da or db
        other = b if da else a
        if isinstance(other, CVal) and not is_complex(d):
            d = TO_COMPLEX.get(d, "complex128")
        if d in REAL_RES and isinstance(other, (Fraction, Expr)) and not (
                isinstance(other, Expr) and cas.is_integer(other)):
            d = "float64"
        if d == "bool" and isinstance(other, (int, Expr)) and not isinstance(other, bool):
            d = "int64"
        if isinstance(other, Arr) and is_complex(other.dtype) and not is_complex(d):
            d = TO_COMPLEX.get(d, "complex128")
    if op == "truediv" and d in REAL_RES:
        d = "float64"
    return d


def scal(op, a, b):
    """scalar arithmetic on native / Expr"""
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    native = isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction))
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "truediv":
        if native:
            if b == 0:
                raise AbsRaise("ZeroDivisionError", "division by zero", Ctx.where())
            return Fraction(a) / Fraction(b)
        return E(a) / E(b)
    if op == "floordiv":
        if native:
            if b == 0:
                raise AbsRaise("ZeroDivisionError", "division by zero", Ctx.where())
            r = a // b
            return r if isinstance(a, int) and isinstance(b, int) else Fraction(r)
        q = E(a) / E(b)
        if cas.is_integer(q):
            return q
        if cas.is_integer(E(a)) and isinstance(b, int) and b > 0:
            # split into divisible and constant part
            e = E(a)
            div = Expr({m: c for m, c in e.t.items() if m and c % b == 0})
            rest = e - div
            if rest.is_const:
                return div * Fraction(1, b) + (rest.value // b)
        return fn("floor", q)
    if op == "mod":
        if native:
            if b == 0:
                raise AbsRaise("ZeroDivisionError", "modulo by zero", Ctx.where())
            return a % b
        return E(a) - E(scal("floordiv", a, b)) * E(b)
    if op == "pow":
        if native:
            if isinstance(b, int) and b >= 0:
                return a ** b
            if isinstance(b, int) or b.denominator == 1:
                if a == 0:
                    raise AbsRaise("ZeroDivisionError", "0 ** negative", Ctx.where()) if b < 0 else None
                return Fraction(a) ** int(b)
            r = cas.power(const(a), b)
            return r.value if r.is_const else r
        return cas.power(E(a), b)
    if native and isinstance(a, int) and isinstance(b, int):
        return {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "lshift": lambda: a << b,
                "rshift": lambda: a >> b}[op]()
    if op in ("and", "or", "xor"):
        x, y = E(a), E(b)
        return x * y if op == "and" else (x + y - x * y if op == "or" else x + y - 2 * x * y)
    raise Unsupported("scalar op " + op)


def is_num(x):
    return isinstance(x, (int, Fraction, Expr)) and not isinstance(x, str)


def cparts(x):
    if isinstance(x, CVal):
        return x.re, x.im
    return x, 0


def cdiv(a, b):
    ar, ai = cparts(a)
    br, bi = cparts(b)
    if not isinstance(b, CVal):
        return CVal(scal("truediv", ar, br), scal("truediv", ai, br))
    d = E(br) * br + E(bi) * bi
    return CVal((E(ar) * br + E(ai) * bi) / d, (E(ai) * br - E(ar) * bi) / d)


class Models:
    def __init__(self, it):
        self.it = it
        self.mods = {}
        self.builtins = {}
        self.setup_builtins()
        self.setup_numpy()
        self.setup_misc()
        from . import models_pyst, models_ext
        models_pyst.setup(self)
        models_ext.setup(self)

    def module(self, name):
        return self.mods.get(name)

    # ------------------------------------------------------------- operators
    def binop(self, op, a, b):
        it = self.it
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op == "matmul":
                return self.matmul(a, b)
            if isinstance(a, (str,)) or isinstance(b, str) or a is None or b is None:
                raise AbsRaise("TypeError", "unsupported operand", it.where())
            return self.arr_binop(op, a, b)
        if is_num(a) and is_num(b):
            return scal(op, a, b)
        if isinstance(a, CVal) or isinstance(b, CVal):
            ar, ai = cparts(a)
            br, bi = cparts(b)
            if op == "add":
                return CVal(E(ar) + br, E(ai) + bi)
            if op == "sub":
                return CVal(E(ar) - br, E(ai) - bi)
            if op == "mul":
                return CVal(E(ar) * br - E(ai) * bi, E(ar) * bi + E(ai) * br)
            if op == "truediv":
                return cdiv(a, b)
            raise Unsupported("complex op")
        if op == "add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, list) and isinstance(b, list):
                return a + b
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (str, list, tuple)) and isinstance(y, (int, Expr)):
                    return x * _int(y)
        if op == "mod" and isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            args = tuple(x if isinstance(x, int) else it.str_(x) for x in args)
            try:
                return a % args
            except TypeError:
                return a.replace("%d", "%s").replace("%g", "%s").replace("%f", "%s") % args
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"and": lambda: a & b, "or": lambda: a | b, "sub": lambda: a - b, "xor": lambda: a ^ b}[op]()
        if isinstance(a, dict) and isinstance(b, dict) and op == "or":
            return {**a, **b}
        if isinstance(a, Inst) or isinstance(b, Inst):
            nm = {"truediv": "truediv", "and": "and", "or": "or"}.get(op, op)
            if isinstance(a, Inst):
                r = a.cls.mro_get("__%s__" % nm)
                if r:
                    return it.call(Bound(r[0], a), [b], {})
            if isinstance(b, Inst):
                r = b.cls.mro_get("__r%s__" % nm)
                if r:
                    return it.call(Bound(r[0], b), [a], {})
        for x in (a, b):
            if isinstance(x, Obj) and hasattr(x, "binop"):
                r = x.binop(it, op, a, b)
                if r is not NotImplemented:
                    return r
        if isinstance(a, (OpaqueModule, SpecialFloat)) or isinstance(b, (OpaqueModule, SpecialFloat)):
            raise Unsupported("operation on unmodelled value")
        raise AbsRaise("TypeError", "unsupported operand type(s) for %s: %s and %s" % (
            op, type(a).__name__, type(b).__name__), it.where())

    def arr_binop(self, op, a, b):
        dt = result_dtype(a, b, op)
        x, y = arr_like_d(a), arr_like_d(b)
        if not is_complex(dt):
            return ewise(SCAL[op], [x, y], dt)
        rd = COMPLEX[dt]
        xr, xi = A.parts(x)
        yr, yi = A.parts(y)
        if op in ("add", "sub"):
            f = SCAL[op]
            zero = filled((), rd, 0)
            return join_parts(ewise(f, [xr, yr], rd), ewise(f, [xi or zero, yi or zero], rd), dt)
        if op == "mul":
            if xi is None or yi is None:
                if xi is None:
                    return join_parts(ewise(SCAL["mul"], [xr, yr], rd), ewise(SCAL["mul"], [xr, yi], rd), dt)
                return join_parts(ewise(SCAL["mul"], [xr, yr], rd), ewise(SCAL["mul"], [xi, yr], rd), dt)
            re = ewise(lambda p, q, r, s: p * r - q * s, [xr, xi, yr, yi], rd)
            im = ewise(lambda p, q, r, s: p * s + q * r, [xr, xi, yr, yi], rd)
            return join_parts(re, im, dt)
        if op == "truediv" and yi is None:
            return join_parts(ewise(SCAL[op], [xr, yr], rd), ewise(SCAL[op], [xi, yr], rd), dt)
        raise Unsupported("complex array op " + op)

    def compare(self, op, a, b):
        it = self.it
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return not self.is_(a, b)
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return (not r) if t is ast.NotIn else r
        if isinstance(a, Arr) or isinstance(b, Arr):
            if (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
                return t is ast.NotEq
            f = {ast.Gt: lambda x, y: cmp_gt(x, y), ast.Lt: lambda x, y: cmp_gt(y, x),
                 ast.GtE: lambda x, y: ONE - cmp_gt(y, x), ast.LtE: lambda x, y: ONE - cmp_gt(x, y),
                 ast.Eq: lambda x, y: cas.zero(x - y), ast.NotEq: lambda x, y: ONE - cas.zero(x - y)}[t]
            r = ewise(f, [arr_like_d(a), arr_like_d(b)], "bool")
            return r if r.mask is not None else A.split_corner(r)
        if isinstance(a, Expr) or isinstance(b, Expr):
            if is_num(a) and is_num(b):
                return self.cmp_expr(t, E(a), E(b))
            if t is ast.Eq:
                return False
            if t is ast.NotEq:
                return True
            raise AbsRaise("TypeError", "unorderable types", it.where())
        if isinstance(a, SpecialFloat) or isinstance(b, SpecialFloat):
            raise Unsupported("comparison with inf/nan")
        if t in (ast.Eq, ast.NotEq):
            r = self.eq(a, b)
            if isinstance(r, Expr):
                return r if t is ast.Eq else ONE - r
            return r if t is ast.Eq else not r
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                    ast.GtE: lambda: a >= b}[t]()
        except TypeError:
            raise AbsRaise("TypeError", "unorderable types", it.where())

    def cmp_expr(self, t, a, b):
        d = a - b
        if d.is_const:
            v = d.value
            return {ast.Lt: v < 0, ast.LtE: v <= 0, ast.Gt: v > 0, ast.GtE: v >= 0, ast.Eq: v == 0,
                    ast.NotEq: v != 0}[t]
        ints = cas.is_integer(d)
        if t in (ast.Eq, ast.NotEq):
            if ints:
                for x, y in ((a, b), (b, a)):
                    if try_le(x + 1, y):
                        return t is ast.NotEq
            elif cas.equal(a, b):
                return t is ast.Eq
            r = cas.zero(d)
            r = ind(r)
            if isinstance(r, bool):
                return r if t is ast.Eq else not r
            return r if t is ast.Eq else ONE - r
        if ints:
            x, y, strict = {ast.Lt: (a, b, 1), ast.LtE: (a, b, 0), ast.Gt: (b, a, 1), ast.GtE: (b, a, 0)}[t]
            r = try_le(x + strict, y)
            if r is not None:
                return r
        r = {ast.Gt: lambda: cas.pos(d), ast.Lt: lambda: cas.pos(-d), ast.GtE: lambda: ONE - cas.pos(-d),
             ast.LtE: lambda: ONE - cas.pos(d)}[t]()
        return ind(r)

    def eq(self, a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b) or (
                isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and isinstance(a, list) == isinstance(b, list)):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.it.truth(self.compare(ast.Eq(), x, y)):
                    return False
            return True
        if isinstance(a, DT) or isinstance(b, DT):
            try:
                return dtype_name(a) == dtype_name(b) if a is not None and b is not None else False
            except Unsupported:
                return False
        if isinstance(a, Inst):
            r = a.cls.mro_get("__eq__")
            if r:
                return self.it.call(Bound(r[0], a), [b], {})
            return a is b
        if isinstance(a, str) and isinstance(b, str) and ("\u27e6" in a or "\u27e6" in b) and a != b:
            return False
        for x in (a, b):
            if isinstance(x, Obj) and hasattr(x, "eq"):
                return x.eq(self.it, a, b)
        try:
            return a == b
        except Exception:
            return a is b

    def is_(self, a, b):
        if isinstance(a, DT) and isinstance(b, DT):
            if getattr(a, "inst", False) or getattr(b, "inst", False):
                return a is b
            return a.name == b.name
        if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
            return type(a) is type(b) and a == b
        if isinstance(a, PyType) and isinstance(b, PyType):
            return a.name == b.name
        return a is b

    def contains(self, c, x):
        it = self.it
        if isinstance(c, (list, tuple, GenList)):
            for y in c:
                if x is y:
                    return True
                if it.truth(self.compare(ast.Eq(), x, y)):
                    return True
            return False
        if isinstance(c, (dict, set, frozenset)):
            if isinstance(x, (list, dict)):
                raise AbsRaise("TypeError", "unhashable type", it.where())
            if isinstance(x, Expr) and not x.is_const:
                for y in c:
                    if isinstance(y, (int, Expr)) and it.truth(self.compare(ast.Eq(), x, y)):
                        return True
                return False
            try:
                return x in c
            except TypeError:
                raise AbsRaise("TypeError", "unhashable type", it.where())
        if isinstance(c, str):
            return x in c
        if isinstance(c, range):
            return x in c
        if isinstance(c, Obj) and hasattr(c, "contains"):
            return c.contains(it, x)
        if isinstance(c, Inst):
            r = c.cls.mro_get("__contains__")
            if r:
                return it.truth(it.call(Bound(r[0], c), [x], {}))
        if isinstance(c, Arr):
            return self.contains(it.iterate(c), x)
        raise Unsupported("in %r" % (c,))

    def select(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(c, Expr) and c.is_const:
            return a if c.value else b
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if is_num(a) and is_num(b):
            return E(b) + c * (E(a) - E(b))
        raise Unsupported("conditional of non-numeric values")

    # ------------------------------------------------------------- builtins
    def setup_builtins(self):
        B = self.builtins
        it = self.it

        def reg(name, f):
            B[name] = ModelFn(name, f)
        for t in ("int", "float", "str", "bool", "list", "tuple", "dict", "set", "frozenset", "complex", "type",
                  "object", "super", "bytes"):
            B[t] = PyType(t)
        B["property"] = ModelFn("property", lambda f: Prop(f))
        B["staticmethod"] = ModelFn("staticmethod", self._static)
        B["classmethod"] = ModelFn("classmethod", self._classm)
        B["Ellipsis"] = Ellipsis
        B["NotImplemented"] = NotImplemented
        B["__name__"] = "module"
        def b_print(*a, sep=" ", end="\n", file=None, flush=False):
            if file is not None:
                it.call(self.b_getattr(file, "write"), [(" " if sep is None else sep).join(it.str_(x) for x in a) + ("\n" if end is None else end)], {})
        reg("print", b_print)
        reg("locals", lambda: {})
        reg("len", self.b_len)
        reg("range", self.b_range)
        reg("enumerate", lambda x, start=0: GenList([(k + start, v) for k, v in enumerate(it.iterate(x))]))
        reg("zip", self.b_zip)
        reg("map", lambda f, *xs: GenList([it.call(f, list(t), {}) for t in zip(*[it.iterate(x) for x in xs])]))
        reg("filter", lambda f, x: GenList([v for v in it.iterate(x) if it.truth(v if f is None else it.call(f, [v], {}))]))
        reg("reversed", lambda x: GenList(list(it.iterate(x))[::-1]))
        reg("sorted", self.b_sorted)
        reg("sum", self.b_sum)
        reg("min", lambda *a, **k: self.b_minmax("min", a, k))
        reg("max", lambda *a, **k: self.b_minmax("max", a, k))
        reg("abs", self.np_abs)
        reg("all", lambda x: self.b_all(x, True))
        reg("any", lambda x: self.b_all(x, False))
        reg("isinstance", self.b_isinstance)
        reg("issubclass", lambda a, b: self.b_issub(a, b))
        reg("hasattr", self.b_hasattr)
        reg("getattr", self.b_getattr)
        reg("setattr", lambda o, n, v: it.setattr(o, n, v))
        reg("callable", lambda f: isinstance(f, (Func, Bound, ModelFn, Cls, PyType, DT)) or (isinstance(f, Obj) and hasattr(f, "call"))
            or (isinstance(f, Inst) and f.cls.mro_get("__call__") is not None))
        reg("round", self.b_round)
        reg("repr", lambda x: it.repr_(x))
        reg("id", lambda x: id(x))
        reg("iter", lambda x: GenList(it.iterate(x)))
        reg("next", self.b_next)
        reg("slice", lambda *a: SliceV(*([None, a[0], None] if len(a) == 1 else list(a) + [None] * (3 - len(a)))))
        reg("pow", lambda a, b: self.binop("pow", a, b))
        reg("divmod", lambda a, b: (self.binop("floordiv", a, b), self.binop("mod", a, b)))
        reg("hash", lambda x: hash(x))
        reg("vars", lambda o: o.attrs)
        reg("format", lambda x, s="": it.format_(x, s))
        reg("chr", lambda x: chr(x))
        reg("ord", lambda x: ord(x))
        from . import models_ext
        B["open"] = ModelFn("open", models_ext.open_file)
        reg("input", lambda *a: "")
        reg("__import__", lambda n, *a: it.import_module(n))

    def _static(self, f):
        if isinstance(f, Func):
            f.static = True
        return f

    def _classm(self, f):
        if isinstance(f, Func):
            f.classm = True
        return f

    def b_next(self, x, *d):
        if isinstance(x, list):
            if x:
                return x.pop(0)
            if d:
                return d[0]
            raise AbsRaise("StopIteration", "", self.it.where())
        if isinstance(x, Obj) and hasattr(x, "next"):
            return x.next()
        raise Unsupported("next()")

    def b_len(self, x):
        if isinstance(x, (list, tuple, dict, str, set, frozenset, range)):
            return len(x)
        if isinstance(x, Arr):
            if x.nd == 0:
                raise AbsRaise("TypeError", "len() of unsized object", self.it.where())
            return pyint(x.shape[0])
        if isinstance(x, Obj) and hasattr(x, "len"):
            return x.len(self.it)
        if isinstance(x, Inst):
            r = x.cls.mro_get("__len__")
            if r:
                return self.it.call(Bound(r[0], x), [], {})
        if isinstance(x, SymRange):
            return pyint(x.hi - x.lo)
        raise AbsRaise("TypeError", "object has no len()", self.it.where())

    def b_range(self, *a):
        vals = []
        for v in a:
            if isinstance(v, Fraction):
                raise AbsRaise("TypeError", "'float' object cannot be interpreted as an integer", self.it.where())
            if isinstance(v, Arr):
                v = self.it.scalar_of(v)
            vals.append(pyint(v))
        if all(isinstance(v, int) for v in vals):
            return range(*vals)
        if len(vals) == 1:
            return SymRange(0, vals[0])
        if len(vals) == 2 or vals[2] == 1:
            n = pyint(E(vals[1]) - E(vals[0]))
            if isinstance(n, int) and n >= 0 and n <= 64:
                return [E(vals[0]) + k for k in range(n)]
            return SymRange(vals[0], vals[1])
        raise Unsupported("symbolic range with step")

    def b_zip(self, *xs, strict=False):
        return GenList([tuple(t) for t in zip(*[self.it.iterate(x) for x in xs])])

    def b_sorted(self, x, key=None, reverse=False):
        v = list(self.it.iterate(x))
        kk = [self.it.call(key, [i], {}) for i in v] if key is not None else v
        try:
            order = sorted(range(len(v)), key=lambda i: kk[i], reverse=bool(reverse))
        except TypeError:
            raise Unsupported("sorted of symbolic values")
        return [v[i] for i in order]

    def b_sum(self, x, start=0):
        t = start
        if isinstance(x, Arr) and not (x.shape and x.shape[0].is_const):
            return self.np_sum(x, axis=0)
        for v in self.it.iterate(x):
            t = self.binop("add", t, v)
        return t

    def b_minmax(self, k, a, kw):
        key = kw.get("key")
        vals = list(a) if len(a) > 1 else list(self.it.iterate(a[0]))
        if key is not None:
            raise Unsupported("min/max key")
        if not vals:
            if "default" in kw:
                return kw["default"]
            raise AbsRaise("ValueError", "empty sequence", self.it.where())
        r = vals[0]
        for v in vals[1:]:
            r = self.s_minmax(k, r, v)
        return r

    def s_minmax(self, k, r, v):
        if isinstance(r, (int, Fraction, str)) and isinstance(v, (int, Fraction, str)):
            return min(r, v) if k == "min" else max(r, v)
        if is_num(r) and is_num(v):
            d = E(r) - E(v)
            if cas.is_integer(d):
                x = try_le(r, v)
                if x is not None:
                    return (r if x else v) if k == "min" else (v if x else r)
            return (cas.minimum if k == "min" else cas.maximum)(r, v)
        raise Unsupported("min/max of non-numbers")

    def b_all(self, x, want):
        for v in self.it.iterate(x):
            if self.it.truth(v) != want:
                return not want
        return want

    def b_isinstance(self, x, t):
        if isinstance(t, (tuple, list)):
            return any(self.b_isinstance(x, y) for y in t)
        if isinstance(t, PyType):
            n = t.name
            if n == "int":
                return isinstance(x, int) or (isinstance(x, Expr) and cas.is_integer(x))
            if n == "float":
                return isinstance(x, (Fraction, SpecialFloat)) or (isinstance(x, Expr) and not cas.is_integer(x))
            if n == "bool":
                return isinstance(x, bool)
            if n == "type":
                return isinstance(x, (PyType, DT, Cls))
            if n == "object":
                return True
            if n == "str":
                return isinstance(x, str)
            if n == "complex":
                return isinstance(x, CVal)
            return isinstance(x, {"list": list, "tuple": tuple, "dict": dict, "set": set, "frozenset": frozenset,
                                  "bytes": bytes}[n])
        if isinstance(t, Cls):
            return isinstance(x, Inst) and x.cls.is_sub(t)
        if isinstance(t, ExcType):
            return isinstance(x, ExcVal) and isinstance(x.typ, ExcType) and x.typ.is_sub(t)
        if isinstance(t, DT):
            if isinstance(x, Expr):
                return t.name == "float64" and not cas.is_integer(x)
            return False
        if isinstance(t, ModelFn):
            if t.name == "numpy.ndarray":
                return isinstance(x, Arr)
            if t.name == "numpy.integer" or t.name == "Integral":
                return isinstance(x, int) or (isinstance(x, Expr) and cas.is_integer(x))
            if t.name in ("numpy.floating",):
                return isinstance(x, (Fraction, Expr)) and not (isinstance(x, Expr) and cas.is_integer(x))
            if t.name in ("Number", "Real"):
                return is_num(x)
        if isinstance(t, TypingObj):
            return True if t.n in ("Any",) else self.b_isinstance_typing(x, t)
        raise Unsupported("isinstance with %r" % (t,))

    def b_isinstance_typing(self, x, t):
        n = t.n
        if n in ("Sequence",):
            return isinstance(x, (list, tuple, str))
        if n in ("Callable",):
            return isinstance(x, (Func, Bound, ModelFn))
        if n in ("Mapping", "Dict"):
            return isinstance(x, dict)
        if n in ("Iterable",):
            return isinstance(x, (list, tuple, str, dict, set, Arr))
        if n in ("List",):
            return isinstance(x, list)
        if n in ("Tuple",):
            return isinstance(x, tuple)
        raise Unsupported("isinstance typing " + n)

    def b_issub(self, a, b):
        if isinstance(a, Cls) and isinstance(b, Cls):
            return a.is_sub(b)
        if isinstance(a, DT) and isinstance(b, ModelFn):
            return (b.name == "numpy.floating" and a.name.startswith("float")) or (
                b.name == "numpy.integer" and a.name.startswith("int"))
        raise Unsupported("issubclass")

    def b_hasattr(self, o, n):
        try:
            self.it.getattr(o, n)
            return True
        except AbsRaise:
            return False

    def b_getattr(self, o, n, *d):
        try:
            return self.it.getattr(o, n)
        except AbsRaise:
            if d:
                return d[0]
            raise

    def b_round(self, x, n=None):
        if isinstance(x, (int, Fraction)):
            if n is None:
                return round(x)
            return round(x, n)
        return fn("round", E(x)) if n is None else fn("round", E(x), const(n))

    def py_type_call(self, t, args, kwargs):
        n = t.name
        it = self.it
        if n == "int":
            if not args:
                return 0
            x = args[0]
            if isinstance(x, Arr):
                x = it.scalar_of(x)
            if isinstance(x, bool):
                return int(x)
            if isinstance(x, int):
                return x
            if isinstance(x, Fraction):
                return int(x)
            if isinstance(x, str):
                if x in TOKENS:
                    return TOKENS[x]
                try:
                    return int(x)
                except ValueError:
                    raise AbsRaise("ValueError", "invalid literal for int()", it.where())
            if isinstance(x, Expr):
                if cas.is_integer(x):
                    return pyint(x)
                return fn("trunc", x)
        if n == "float":
            if not args:
                return Fraction(0)
            x = args[0]
            if isinstance(x, Arr):
                x = it.scalar_of(x)
            if isinstance(x, (int, Fraction)):
                return Fraction(x)
            if isinstance(x, Expr):
                return x
            if isinstance(x, str):
                if x in ("inf", "-inf", "nan"):
                    return SpecialFloat(x)
                return cas.snap(float(x))
        if n == "bool":
            return it.truth(args[0]) if args else False
        if n == "str":
            return it.str_(args[0]) if args else ""
        if n == "list":
            return list(it.iterate(args[0])) if args else []
        if n == "tuple":
            return tuple(it.iterate(args[0])) if args else ()
        if n in ("set", "frozenset"):
            return set(it.iterate(args[0])) if args else set()
        if n == "dict":
            d = {}
            if args:
                if isinstance(args[0], dict):
                    d.update(args[0])
                else:
                    for kv in it.iterate(args[0]):
                        k, v = it.iterate(kv)
                        d[k] = v
            d.update(kwargs)
            return d
        if n == "complex":
            return CVal(args[0] if args else 0, args[1] if len(args) > 1 else 0)
        if n == "type":
            x = args[0]
            if isinstance(x, Inst):
                return x.cls
            if isinstance(x, bool):
                return self.builtins["bool"]
            if isinstance(x, int):
                return self.builtins["int"]
            if isinstance(x, (Fraction,)):
                return self.builtins["float"]
            if isinstance(x, Expr):
                return self.builtins["int" if cas.is_integer(x) else "float"]
            for nm, ty in (("str", str), ("list", list), ("tuple", tuple), ("dict", dict)):
                if isinstance(x, ty):
                    return self.builtins[nm]
        if n == "object":
            return Inst(Cls("object", [], {}, None))
        raise Unsupported("call of type %s" % n)

    # ------------------------------------------------------------- attributes
    def value_attr(self, o, n):
        it = self.it
        if isinstance(o, Arr):
            return self.arr_attr(o, n)
        if isinstance(o, CVal):
            if n == "real":
                return o.re
            if n == "imag":
                return o.im
            if n == "conjugate":
                return ModelFn("conjugate", lambda: CVal(o.re, -o.im))
        if isinstance(o, str):
            return self.str_attr(o, n)
        if isinstance(o, list):
            return self.list_attr(o, n)
        if isinstance(o, dict):
            return self.dict_attr(o, n)
        if isinstance(o, (set, frozenset)):
            return self.set_attr(o, n)
        if isinstance(o, tuple):
            if n == "index":
                return ModelFn(n, lambda x: self._index(o, x))
            if n == "count":
                return ModelFn(n, lambda x: sum(1 for y in o if self.it.truth(self.compare(ast.Eq(), x, y))))
            nt = getattr(o, "_nt", None)
        if isinstance(o, SliceV):
            if n in ("start", "stop", "step"):
                return getattr(o, n)
        if isinstance(o, DT):
            if n in ("name", "__name__"):
                return o.name
            if n == "itemsize":
                return A.ITEMSIZE[o.name]
            if n == "type":
                return DTS[o.name]
            if n == "kind":
                return {"f": "f", "i": "i", "c": "c", "b": "b"}[o.name[0]]
        if isinstance(o, (int, Fraction, Expr)):
            if n == "real":
                return o
            if n == "imag":
                return 0
            if n == "dtype":
                return DTypeObj("float64")
            if n == "shape":
                return ()
            if n == "ndim":
                return 0
            if n in ("item", "tolist", "conj", "conjugate", "squeeze", "max", "min", "sum", "mean"):
                return ModelFn(n, lambda: o)
            if n == "astype":
                return ModelFn("astype", lambda d, **k: self.cast_scalar(DT(dtype_name(d)), o))
            if n == "copy":
                return ModelFn("copy", lambda: o)
            if n == "is_integer":
                return ModelFn(n, lambda: cas.is_integer(E(o)))
            if n == "free_symbols":
                return set()
            if n == "subs":
                raise Unsupported("sympy subs")
            if n == "size":
                return 1
        if isinstance(o, PyType):
            if n == "__name__":
                return o.name
            if o.name == "dict" and n == "fromkeys":
                return ModelFn(n, lambda ks, v=None: {k: v for k in it.iterate(ks)})
            if o.name == "str" and n == "join":
                return ModelFn(n, lambda s, xs: s.join(it.iterate(xs)))
            if o.name == "object" and n == "__init__":
                return ModelFn(n, lambda *a, **k: None)
        if isinstance(o, Bound):
            if n == "__name__":
                return o.f.name
            if n == "__self__":
                return o.self_
            if n == "__func__":
                return o.f
        if isinstance(o, ModelFn):
            at = getattr(o, "attrs", {})
            if n in at:
                return at[n]
            if n == "__name__":
                return o.name
            raise Unsupported("attribute %s of %s" % (n, o.name))
        if isinstance(o, ExcVal):
            if n == "args":
                return tuple(o.args)
        if hasattr(type(o), n) if not isinstance(o, (int, Fraction)) else n in NUM_ATTRS:
            raise Unsupported("%s.%s" % (type(o).__name__, n))
        if isinstance(o, (list, tuple, dict, str)) or o is None or isinstance(o, (int, Fraction)):
            raise AbsRaise("AttributeError", "%s object has no attribute %r" % (type(o).__name__, n), it.where())
        raise Unsupported("attribute %s of %r" % (n, o))

    def _index(self, seq, x):
        for k, y in enumerate(seq):
            if self.it.truth(self.compare(ast.Eq(), x, y)):
                return k
        raise AbsRaise("ValueError", "not in list", self.it.where())

    def str_attr(self, o, n):
        it = self.it
        if n == "format":
            def fmt(*a, **k):
                import string
                out = []
                auto = 0
                for lit, name, spec, conv in string.Formatter().parse(o):
                    out.append(lit)
                    if name is None:
                        continue
                    if name == "":
                        v = a[auto]
                        auto += 1
                    elif name.isdigit():
                        v = a[int(name)]
                    else:
                        v = k.get(name.split(".")[0].split("[")[0])
                        if "." in name or "[" in name:
                            raise Unsupported("format field " + name)
                    out.append(it.format_(v, spec or ""))
                return "".join(out)
            return ModelFn("format", fmt)
        if n == "join":
            def join(xs):
                vs = it.iterate(xs)
                for v in vs:
                    if not isinstance(v, str):
                        raise AbsRaise("TypeError", "sequence item: expected str instance", it.where())
                return o.join(vs)
            return ModelFn("join", join)
        if n in ("upper", "lower", "strip", "lstrip", "rstrip", "split", "replace", "startswith", "endswith",
                 "splitlines", "find", "count", "title", "zfill", "isdigit", "index", "rsplit", "partition",
                 "rpartition", "capitalize", "ljust", "rjust", "center", "removeprefix", "removesuffix",
                 "isidentifier", "isalpha", "rfind", "encode", "isalnum", "casefold", "swapcase", "expandtabs"):
            f = getattr(o, n)

            def strm(*a, **k):
                try:
                    return f(*a, **k)
                except ValueError as e:
                    raise AbsRaise("ValueError", str(e), it.where())
            return ModelFn(n, strm)
        if hasattr(str, n):
            raise Unsupported("str." + n)
        raise AbsRaise("AttributeError", "str has no attribute %r" % n, it.where())

    def list_attr(self, o, n):
        it = self.it

        def pop(k=-1):
            try:
                return o.pop(_int(k))
            except IndexError:
                raise AbsRaise("IndexError", "pop", it.where())

        def remove(x):
            del o[self._index(o, x)]
        m = {"append": lambda x: o.append(x), "extend": lambda x: o.extend(it.iterate(x)),
             "insert": lambda k, x: o.insert(_int(k), x), "pop": pop, "index": lambda x: self._index(o, x),
             "copy": lambda: list(o), "clear": lambda: o.clear(), "reverse": lambda: o.reverse(),
             "remove": remove, "count": lambda x: sum(1 for y in o if it.truth(self.compare(ast.Eq(), x, y))),
             "sort": lambda key=None, reverse=False: o.__setitem__(slice(None), self.b_sorted(o, key, reverse))}
        if n in m:
            return ModelFn(n, m[n])
        if n == "send" or n == "close":
            return ModelFn(n, lambda *a: None)
        if hasattr(list, n):
            raise Unsupported("list." + n)
        raise AbsRaise("AttributeError", "list has no attribute %r" % n, it.where())

    def dict_attr(self, o, n):
        it = self.it

        def pop(k, *d):
            if k in o:
                return o.pop(k)
            if d:
                return d[0]
            raise AbsRaise("KeyError", str(k), it.where())

        def setdefault(k, d=None):
            return o.setdefault(k, d)

        def update(x=None, **kw):
            if isinstance(x, dict):
                o.update(x)
            elif x is not None:
                for kv in it.iterate(x):
                    o[kv[0]] = kv[1]
            o.update(kw)
        m = {"keys": lambda: GenList(o.keys()), "values": lambda: GenList(o.values()),
             "items": lambda: GenList([(k, v) for k, v in o.items()]),
             "get": lambda k, d=None: o.get(k, d), "pop": pop, "setdefault": setdefault, "update": update,
             "copy": lambda: type(o)(o) if type(o) is dict else dict(o), "clear": lambda: o.clear(),
             "popitem": lambda: o.popitem()}
        if n in m:
            return ModelFn(n, m[n])
        if hasattr(dict, n):
            raise Unsupported("dict." + n)
        raise AbsRaise("AttributeError", "dict has no attribute %r" % n, it.where())

    def set_attr(self, o, n):
        it = self.it
        m = {"add": lambda x: o.add(x), "discard": lambda x: o.discard(x), "remove": lambda x: o.remove(x),
             "update": lambda *x: [o.update(it.iterate(y)) for y in x] and None,
             "union": lambda *x: o.union(*[it.iterate(y) for y in x]),
             "intersection": lambda *x: o.intersection(*[it.iterate(y) for y in x]),
             "difference": lambda *x: o.difference(*[it.iterate(y) for y in x]),
             "issubset": lambda x: o.issubset(it.iterate(x)), "issuperset": lambda x: o.issuperset(it.iterate(x)),
             "copy": lambda: set(o), "isdisjoint": lambda x: o.isdisjoint(it.iterate(x))}
        if n in m:
            return ModelFn(n, m[n])
        raise AbsRaise("AttributeError", "set has no attribute %r" % n, it.where())

    def special_float(self, v):
        return SpecialFloat(v)

    def cast_scalar(self, dt, *args):
        if not args:
            return filled((), dtype_name(dt), 0)
        if not args:
            return Fraction(0)
        x = args[0]
        if isinstance(x, Arr):
            if x.nd == 0:
                return self.it.scalar_of(x)
            return copy(x, dt.name)
        if isinstance(x, (list, tuple)):
            return as_arr(x, dt.name)
        if isinstance(x, bool):
            x = int(x)
        if dt.name.startswith("float"):
            if isinstance(x, int):
                return Fraction(x)
            if isinstance(x, str):
                return cas.snap(float(x))
            if A.NARROW[0] and dt.name in ("float32", "float16") and isinstance(x, (Fraction, Expr)):
                y = A.single(E(x))
                return x if y.is_const else y
            return x
        if dt.name.startswith("int"):
            if isinstance(x, Fraction):
                return int(x)
            if isinstance(x, Expr) and not cas.is_integer(x):
                x = fn("trunc", x)
            if dt.name in A.NARROW_INTS and isinstance(x, (int, Expr)):
                x = A.wrap_int(E(x), dt.name)
                return int(x.value) if x.is_const else x
            return x
        if dt.name.startswith("complex"):
            return x if isinstance(x, CVal) else CVal(x, 0)
        if dt.name == "bool":
            return self.it.truth(x)
        return x

    # ------------------------------------------------------------- arrays
    def arr_attr(self, o, n):
        it = self.it
        if o.mask is not None and n not in ("dtype", "copy", "real"):
            raise Unsupported("use of a masked selection")
        if n == "shape":
            return tuple(pyint(s) for s in o.shape)
        if n == "ndim":
            return o.nd
        if n == "dtype":
            return DTypeObj(o.dtype)
        if n == "size":
            t = 1
            for s in o.shape:
                t = t * s
            return pyint(E(t))
        if n == "T":
            return transpose(o)
        if n == "real":
            return part(o, 0) if o.cplx else o
        if n == "imag":
            return part(o, 1) if o.cplx else filled(o.shape, o.dtype, 0)
        if n == "flat":
            return o if o.nd == 1 else reshape(o, (const(-1),))
        if n == "itemsize":
            return DTS[o.dtype] and A.ITEMSIZE[o.dtype]
        if n == "nbytes":
            return fn("nbytes", const(o.base.uid))
        if n == "base":
            return None
        if n == "flags":
            return Flags(o)

        def fill(v):
            assign(o, v)

        def meth(f):
            return ModelFn(n, f)
        if n == "copy":
            return meth(lambda *a, **k: copy(o))
        if n == "fill":
            return meth(fill)
        if n == "astype":
            return meth(kwguard("ndarray.astype", lambda d, order="K", casting="unsafe", subok=True, copy=True: o if copy is False and dtype_name(d) == o.dtype and order in ("K", "A") else self.astype(o, d)))
        if n == "reshape":
            return meth(kwguard("ndarray.reshape", lambda *s, **k: reshape(o, shape_tuple(s[0] if len(s) == 1 else s))))
        if n in ("ravel", "flatten"):
            def flat(order="C"):
                if order not in ("C", "K", "A"):
                    raise Unsupported("order %s" % (order,))
                r = reshape(o, (const(-1),))
                return r if n == "ravel" else copy(r)
            return meth(flat)
        if n == "transpose":
            return meth(lambda *ax: transpose(o, ax[0] if len(ax) == 1 and isinstance(ax[0], (tuple, list)) else (ax or None)))
        if n == "swapaxes":
            def sw(i, j):
                ax = list(range(o.nd))
                ax[i], ax[j] = ax[j], ax[i]
                return transpose(o, ax)
            return meth(sw)
        if n == "dot":
            return meth(lambda b: self.dot(o, b))
        if n in ("sum", "mean", "max", "min", "prod", "all", "any", "argsort", "squeeze", "conj", "conjugate",
                 "round", "clip", "std", "cumsum", "argmax", "argmin", "repeat", "diagonal"):
            g = self.np.attrs.get(n)
            if g is None:
                raise Unsupported("ndarray." + n)
            return meth(lambda *a, **k: it.call(g, [o] + list(a), k))
        if n == "item":
            return meth(lambda *a: it.scalar_of(o) if not a else it.subscript(o, tuple(a)))
        if n == "tolist":
            return meth(lambda: [it.subscript(o, k) if o.nd == 1 else self.arr_attr(it.subscript(o, k), "tolist").f()
                                 for k in range(_int(o.shape[0]))])
        if n == "view":
            def view(d=None):
                if d is None or dtype_name(d) == o.dtype:
                    return o
                if o.cplx and dtype_name(d) == COMPLEX[o.dtype]:
                    raise Unsupported("complex view reinterpretation")
                raise Unsupported("ndarray.view")
            return meth(view)
        if n == "__len__":
            return meth(lambda: self.b_len(o))
        if n == "__array_interface__" or n == "strides":
            raise Unsupported("ndarray." + n)
        if n == "tofile":
            return meth(lambda *a, **k: None)
        if n in ("take", "trace"):
            g = self.np.attrs[n]
            return meth(lambda *a, **k: it.call(g, [o] + list(a), k))
        if n in models_np.ARRAY_ATTRS or n.startswith("__"):
            raise Unsupported("ndarray." + n)
        raise AbsRaise("AttributeError", "ndarray has no attribute %r" % n, it.where())

    def arr_setattr(self, o, n, v):
        if n == "flat":
            if isinstance(v, Arr) and v.nd == o.nd and v.nd == 1 or not isinstance(v, Arr):
                assign(o, v)
            else:
                assign(o, reshape(arr_like(v), o.shape))
            return
        if n == "real":
            assign(part(o, 0) if o.cplx else o, v)
            return
        if n == "imag" and o.cplx:
            assign(part(o, 1), v)
            return
        raise Unsupported("set ndarray." + n)

    def astype(self, o, d):
        dn = dtype_name(d)
        if dn.startswith("int") and o.dtype.startswith("float"):
            return ewise(trunc_expr, [o], dn)
        return copy(o, dn)

    # ------------------------------------------------------------- numpy
    def ufunc1(self, name, f, out_dt=None):
        def g(x, *rest, out=None, dtype=None, where=None, **kw):
            if where is not None and where is not True:
                raise Unsupported("ufunc where")
            if rest:
                out = rest[0]
            if isinstance(out, tuple):
                out = out[0]
            if isinstance(x, (list, tuple)):
                x = as_arr(x)
            if isinstance(x, Arr):
                if x.cplx:
                    raise Unsupported("complex " + name)
                d = out_dt or (x.dtype if x.dtype.startswith("float") else "float64")
                if name in ("abs", "square", "sign", "negative", "rint", "floor", "ceil") and not out_dt:
                    d = x.dtype
                r = ewise(f, [x], d)
            else:
                r = f(E(x)) if is_num(x) else None
                if r is None:
                    raise AbsRaise("TypeError", name, self.it.where())
                if r.is_const and isinstance(x, (int, Fraction)):
                    r = r.value
                    if isinstance(x, int) and r.denominator == 1 and name in ("abs", "square", "sign", "negative"):
                        r = int(r)
            if dtype is not None and (not isinstance(r, Arr) or r.dtype != dtype_name(dtype)):
                raise Unsupported("dtype of ufunc " + name)
            if out is not None:
                assign(out, r)
                return out
            return r
        return ModelFn(name, g)

    def ufunc2(self, name, f=None, op=None):
        def g(x, y, *rest, out=None, dtype=None, where=None, **kw):
            if rest:
                out = rest[0]
            if isinstance(out, tuple):
                out = out[0]
            if isinstance(x, (list, tuple)):
                x = as_arr(x)
            if isinstance(y, (list, tuple)):
                y = as_arr(y)
            if op is not None:
                r = self.binop(op, x, y)
            elif isinstance(x, Arr) or isinstance(y, Arr):
                r = ewise(f, [arr_like_d(x), arr_like_d(y)], result_dtype(x, y))
            else:
                r = f(E(x), E(y))
                if r.is_const:
                    r = r.value
            if dtype is not None and (not isinstance(r, Arr) or r.dtype != dtype_name(dtype)):
                raise Unsupported("dtype of ufunc " + name)
            if where is not None and where is not True:
                if out is None:
                    raise Unsupported("ufunc where without out")
                r = ewise(lambda k, v, o: o + k * (v - o), [arr_like_d(where), arr_like_d(r), out], out.dtype)
            if out is not None:
                assign(out, r)
                return out
            return r

        def outer(x, y):
            x, y = arr_like(x), arr_like(y)
            return self.it.call(m, [getitem(x, (Ellipsis,) + (None,) * y.nd), y], {})

        def reduce_(x, axis=0, **kw):
            if name == "add":
                return self.np_sum(x, axis=axis)
            xs = self.it.iterate(x)
            r = xs[0]
            for v in xs[1:]:
                r = g(r, v)
            return r

        def at(a, ix, v):
            if name not in ("add", "subtract"):
                raise Unsupported("ufunc.at")
            ix = tuple(as_arr(i) if isinstance(i, list) else i for i in ix) if isinstance(ix, tuple) else as_arr(ix) if isinstance(ix, list) else ix
            A.scatter_add(a, ix, v, 1 if name == "add" else -1)
        m = ModelFn(name, g)
        m.attrs = {"outer": ModelFn("outer", outer), "reduce": ModelFn("reduce", reduce_), "at": ModelFn("at", at)}
        return m

    def np_abs(self, x, out=None):
        if isinstance(x, Arr):
            if x.cplx:
                re, im = part(x, 0), part(x, 1)
                r = ewise(lambda p, q: cas.power(p * p + q * q, Fraction(1, 2)), [re, im], COMPLEX[x.dtype])
            else:
                r = ewise(cas.absval, [x], x.dtype)
            if out is not None:
                assign(out, r)
                return out
            return r
        if isinstance(x, (list, tuple)):
            return self.np_abs(as_arr(x))
        if isinstance(x, (int, Fraction)):
            return abs(x)
        if isinstance(x, CVal):
            return cas.power(x.re * x.re + x.im * x.im, Fraction(1, 2))
        if isinstance(x, Expr):
            return cas.absval(x)
        raise AbsRaise("TypeError", "bad operand for abs()", self.it.where())

    def np_sum(self, x, axis=None, keepdims=False, dtype=None, out=None):
        x = arr_like(x) if not isinstance(x, GenList) else arr_like(list(x))
        if x.dtype == "bool":
            x = copy(x, "int64")
        if axis is None:
            axes = list(range(x.nd))
        elif isinstance(axis, (tuple, list)):
            axes = [_int(a) % x.nd for a in axis]
        else:
            axes = [_int(axis)]
            if axes[0] >= x.nd or axes[0] < -x.nd:
                raise AbsRaise("AxisError", "axis out of bounds", self.it.where())
            axes = [axes[0] % x.nd]
        if x.cplx:
            r = join_parts(self.np_sum(part(x, 0), tuple(axes)) if x.nd else x, self.np_sum(part(x, 1), tuple(axes)), x.dtype)
            return r
        r = x
        for a in sorted(axes, reverse=True):
            r = reduce_sum(r, a)
        if keepdims:
            for a in sorted(axes):
                r = getitem(r, (SliceV(None, None, None),) * a + (None,))
        if out is not None:
            assign(out, r)
            return out
        if r.nd == 0 and not keepdims:
            return self.it.scalar_of(r)
        return r

    def contract(self, a, b, axa, axb):
        """sum over paired axes; result axes = rest of a then rest of b"""
        a, b = arr_like(a), arr_like(b)
        axa = [x % a.nd for x in axa]
        axb = [x % b.nd for x in axb]
        for x, y in zip(axa, axb):
            if a.shape[x] != b.shape[y]:
                raise AbsRaise("ValueError", "shape-mismatch for sum (%s vs %s)" % (a.shape[x], b.shape[y]), self.it.where())
        ra = [x for x in range(a.nd) if x not in axa]
        rb = [x for x in range(b.nd) if x not in axb]
        n = len(ra) + len(rb)
        k = len(axa)
        # expand: axes order = ra, rb, contracted
        av = getitem(transpose(a, ra + axa), tuple([SliceV(None, None, None)] * len(ra) + [None] * len(rb) + [Ellipsis]))
        bv_ = getitem(transpose(b, rb + axb), tuple([None] * len(ra) + [Ellipsis]))
        p = self.arr_binop("mul", av, bv_)
        for j in range(k):
            if p.cplx:
                p = join_parts(reduce_sum(part(p, 0), n + k - 1 - j), reduce_sum(part(p, 1), n + k - 1 - j), p.dtype)
            else:
                p = reduce_sum(p, n + k - 1 - j)
        if p.nd == 0 and not p.cplx:
            return self.it.scalar_of(p)
        return p

    def tensordot(self, a, b, axes=2):
        a, b = arr_like(a), arr_like(b)
        if isinstance(axes, int):
            return self.contract(a, b, list(range(a.nd - axes, a.nd)), list(range(axes)))
        x, y = axes
        x = [x] if isinstance(x, int) else list(x)
        y = [y] if isinstance(y, int) else list(y)
        return self.contract(a, b, x, y)

    def dot(self, a, b, out=None):
        if not isinstance(a, (Arr, list, tuple)) or not isinstance(b, (Arr, list, tuple)):
            r = self.binop("mul", a, b)
        else:
            a, b = arr_like(a), arr_like(b)
            if a.nd == 0 or b.nd == 0:
                r = self.arr_binop("mul", a, b)
            else:
                r = self.contract(a, b, [a.nd - 1], [max(b.nd - 2, 0)])
        if out is not None:
            assign(out, r)
            return out
        return r

    def matmul(self, a, b, out=None):
        a, b = arr_like(a), arr_like(b)
        if a.nd <= 2 and b.nd <= 2:
            r = self.contract(a, b, [a.nd - 1], [max(b.nd - 2, 0)])
        else:
            # batched: (..., n, k) @ (..., k, m)
            av = getitem(a, (Ellipsis, None))
            bvw = getitem(b, (Ellipsis, None, SliceV(None, None, None), SliceV(None, None, None)))
            if a.shape[-1] != b.shape[-2]:
                raise AbsRaise("ValueError", "matmul: mismatch", self.it.where())
            p = self.arr_binop("mul", av, bvw)
            r = reduce_sum(p, p.nd - 2)
        if out is not None:
            assign(out, r)
            return out
        return r

    def einsum(self, spec, *ops, out=None, optimize=False, **kw):
        dst = out
        ops = [arr_like(o) for o in ops]
        spec = spec.replace(" ", "")
        if "..." in spec:
            raise Unsupported("einsum ellipsis")
        if "->" in spec:
            ins, out = spec.split("->")
        else:
            ins = spec
            s = ins.replace(",", "")
            out = "".join(sorted(c for c in set(s) if s.count(c) == 1))
        ins = ins.split(",")
        letters = list(out) + [c for c in dict.fromkeys("".join(ins)) if c not in out]
        views = []
        for s, o in zip(ins, ops):
            if len(set(s)) != len(s):
                raise Unsupported("einsum diagonal")
            t = transpose(o, sorted(range(len(s)), key=lambda k: letters.index(s[k]))) if o.nd else o
            ss = sorted(s, key=letters.index)
            ixs = tuple(SliceV(None, None, None) if c in ss else None for c in letters)
            views.append(getitem(t, ixs))
        p = views[0]
        for v in views[1:]:
            p = self.arr_binop("mul", p, v)
        for k in range(len(letters) - 1, len(out) - 1, -1):
            p = reduce_sum(p, k)
        if dst is not None:
            assign(dst, p)
            return dst
        if p.nd == 0:
            return self.it.scalar_of(p)
        return p

    def np_where(self, c, *ab):
        if len(ab) != 2:
            raise Unsupported("np.where with one argument")
        a, b = ab
        if isinstance(c, bool) and not isinstance(a, Arr) and not isinstance(b, Arr):
            return a if c else b
        if not any(isinstance(x, Arr) for x in (c, a, b)):
            return self.select(c, a, b)
        if isinstance(a, Arr) and a.cplx or isinstance(b, Arr) and b.cplx:
            raise Unsupported("np.where complex")
        dt = result_dtype(a, b) or "float64"
        return ewise(lambda k, x, y: y + k * (x - y), [arr_like_d(c), arr_like_d(a), arr_like_d(b)], dt)

    def meshgrid(self, *xs, indexing="xy", sparse=False, copy=True):
        xs = [arr_like(x) for x in xs]
        n = len(xs)
        order = list(range(n))
        if indexing == "xy" and n >= 2:
            order[0], order[1] = 1, 0
        # output axis of input k
        axis_of = {k: order.index(k) for k in range(n)}
        sh = [None] * n
        for k, x in enumerate(xs):
            sh[axis_of[k]] = x.shape[0]
        out = []
        for k, x in enumerate(xs):
            ix = [None] * n
            ix[axis_of[k]] = SliceV(None, None, None)
            v = getitem(x, tuple(ix))
            out.append(v if sparse else A.copy(broadcast_to(v, sh)))
        return out

    def arange(self, *a, dtype=None):
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        else:
            lo, hi, st = a[0], a[1], a[2]
        dt = dtype_name(dtype) if dtype is not None else (
            "int64" if all(cas.is_integer(E(x)) for x in (lo, hi, st)) and not any(isinstance(x, Fraction) for x in (lo, hi, st)) else "float64")
        n = (E(hi) - E(lo)) / E(st)
        if n.is_const:
            v = n.value
            n = const(-(-v.numerator // v.denominator))
        elif not cas.is_integer(n):
            n = fn("ceil", n)
        ps = [(((ZERO, n),), E(lo) + idx(0) * E(st), self.it.where())]
        if dt in A.NARROW_INTS:
            m = 1 << (8 * A.ITEMSIZE[dt] - 1)
            if not all(E(x).is_const and -m <= E(x).value < m for x in (lo, hi)):
                ps = A.cast_pieces(ps, "int64", dt)
        return Arr.from_pieces((n,), dt, ps)

    def linspace(self, a, b, num=50, endpoint=True, dtype=None, retstep=False):
        n = E(num)
        step = (E(b) - E(a)) / (n - 1 if endpoint else n)
        r = Arr.from_pieces((n,), dtype_name(dtype) if dtype else "float64",
                            [(((ZERO, n),), E(a) + idx(0) * step, self.it.where())])
        return (r, step) if retstep else r

    def concatenate(self, xs, axis=0):
        xs = [arr_like_d(x) for x in self.it.iterate(xs)]
        if not xs:
            raise AbsRaise("ValueError", "need at least one array to concatenate", self.it.where())
        if any(x.nd == 0 for x in xs):
            raise AbsRaise("ValueError", "zero-dimensional arrays cannot be concatenated", self.it.where())
        if axis is None:
            xs = [x if x.nd == 1 else self.it.call(self.b_getattr(x, "ravel"), [], {}) for x in xs]
            axis = 0
        if any(x.nd != xs[0].nd for x in xs):
            raise AbsRaise("ValueError", "all the input array dimensions must match", self.it.where())
        ax = axis % xs[0].nd
        tot = ZERO
        out = []
        dt = xs[0].dtype
        for x in xs[1:]:
            dt = promote(dt, x.dtype)
        for x in xs:
            for b, e, p in x.pieces():
                nb = list(b)
                nb[ax] = (b[ax][0] + tot, b[ax][1] + tot)
                out.append((tuple(nb), subst(e, {IDX(ax): idx(ax) - tot}) if tot.t else e, p))
            tot = tot + x.shape[ax]
        sh = list(xs[0].shape)
        sh[ax] = tot
        return Arr.from_pieces(sh, dt, out)

    def allclose(self, a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8), equal_nan=False, **kw):
        rt, at = E(rtol), E(atol)
        if not (rt.is_const and at.is_const):
            raise Unsupported("symbolic tolerance")
        rt, at = rt.value, at.value
        if is_num(a) and is_num(b):
            px, py = [((), E(a), "")], [((), E(b), "")]
            d = [] if cas.equal(px[0][1], py[0][1]) else [((), E(a), E(b), "")]
        else:
            x, y = arr_like(a), arr_like(b)
            sh = A.bshape([x.shape, y.shape])
            px, py = broadcast_to(x, sh).pieces(), broadcast_to(y, sh).pieces()
            d = A.compare(px, py, None)
        if not d:
            return True
        if all(g.is_const and w.is_const for _, g, w, _ in d):
            return not any(abs(g.value - w.value) > at + rt * abs(w.value) for _, g, w, _ in d)
        key = tuple((A.box_str(bx), repr(g), repr(w)) for bx, g, w, _ in d)
        return cas.sym("?close%s" % (key,), nonneg=True)

    def array_equal(self, a, b, **kw):
        x, y = arr_like(a), arr_like(b)
        if x.nd != y.nd or x.shape != y.shape:
            return False
        return self.allclose(x, y, 0, 0)

    def array(self, x, dtype=None, copy=True, **kw):
        dn = dtype_name(dtype) if dtype is not None else None
        if isinstance(x, Arr):
            if copy is False and dn in (None, x.dtype):
                return x
            return A.copy(x, dn)
        if isinstance(x, (list, tuple, GenList)):
            if dn is None:
                dn = list_dtype(x)
            return A.copy(as_arr(list(x), dn), dn)
        if is_num(x):
            dn = dn or ("int64" if isinstance(x, int) else "float64")
            return Arr.from_pieces((), dn, [((), E(x), "")])
        if isinstance(x, CVal):
            return as_arr(x)
        if isinstance(x, str):
            return StrArr([x])
        if isinstance(x, Obj) and hasattr(x, "as_array"):
            return A.copy(x.as_array(), dn)
        raise Unsupported("np.array(%r)" % (x,))

    def asarray(self, x, dtype=None, order=None, **kw):
        if isinstance(x, Arr) and (dtype is None or dtype_name(dtype) == x.dtype):
            return x if order in (None, "K", "A") or order == "C" and A.contiguous(x) else copy(x)
        return self.array(x, dtype)

    def ascontiguous(self, x, dtype=None, **kw):
        r = self.asarray(x, dtype, "C")
        return reshape(r, (const(1),)) if r.nd == 0 else r

    def np_require(self, x, dtype=None, requirements=(), **kw):
        rs = [requirements] if isinstance(requirements, str) else list(requirements or ())
        return self.asarray(x, dtype, "C" if any(r.upper() in ("C", "C_CONTIGUOUS", "CONTIGUOUS") for r in rs) else None)

    def copyto(self, dst, src, casting="same_kind", where=True):
        if where is True:
            assign(dst, src)
        elif isinstance(where, Arr):
            assign(dst, ewise(lambda m, v, o: o + m * (v - o), [where, broadcast_to(arr_like_d(src), dst.shape), dst], dst.dtype))
        else:
            raise Unsupported("copyto where")

    def setup_numpy(self):
        it = self.it
        M = {}
        self.np = ModelModule("numpy", M)
        self.mods["numpy"] = self.np

        def reg(n, f):
            M[n] = ModelFn("numpy." + n, kwguard("numpy." + n, f))
        M.update({"float32": F32, "float64": F64, "int32": I32, "int64": I64, "int8": I8, "int16": I16, "short": I16, "bool_": BOOL, "complex64": C64,
                  "complex128": C128, "single": F32, "double": F64, "intp": I64, "int_": I64, "float_": F64,
                  "pi": PI, "newaxis": None, "e": fn("exp", const(1)), "cdouble": C128, "csingle": C64,
                  "float": F64})
        M["inf"] = SpecialFloat("inf")
        M["nan"] = SpecialFloat("nan")
        M["ndarray"] = ModelFn("numpy.ndarray", lambda shape, dtype=None, **k: uninit(shape, dtype_name(dtype)))
        M["integer"] = ModelFn("numpy.integer", None)
        M["floating"] = ModelFn("numpy.floating", None)
        M["number"] = ModelFn("Number", None)
        reg("dtype", lambda d: DTypeObj(dtype_name(d)))
        order = {"order": None}

        reg("zeros", lambda s, dtype=None, **k: filled(s, dtype_name(dtype), 0))
        reg("ones", lambda s, dtype=None, **k: filled(s, dtype_name(dtype), 1))
        reg("empty", lambda s, dtype=None, **k: uninit(s, dtype_name(dtype)))
        reg("full", lambda s, v, dtype=None, **k: self.full(s, v, dtype))
        reg("zeros_like", lambda a, dtype=None, **k: filled(k.get("shape", None) or arr_like(a).shape, dtype_name(dtype) if dtype else arr_like(a).dtype, 0))
        reg("ones_like", lambda a, dtype=None, **k: filled(arr_like(a).shape, dtype_name(dtype) if dtype else arr_like(a).dtype, 1))
        reg("empty_like", lambda a, dtype=None, **k: uninit(arr_like(a).shape, dtype_name(dtype) if dtype else arr_like(a).dtype))
        reg("full_like", lambda a, v, dtype=None, **k: self.full(arr_like(a).shape, v, dtype or DT(arr_like(a).dtype)))
        reg("array", self.array)
        reg("asarray", self.asarray)
        reg("ascontiguousarray", self.ascontiguous)
        reg("asanyarray", self.asarray)
        reg("require", self.np_require)
        reg("copy", lambda a, **k: copy(arr_like(a)))
        reg("arange", self.arange)
        reg("linspace", self.linspace)
        reg("meshgrid", self.meshgrid)
        h = Fraction(1, 2)
        for n, f in [("sqrt", lambda x: cas.power(x, h)), ("sin", lambda x: fn("sin", x)),
                     ("cos", lambda x: fn("cos", x)), ("tan", lambda x: fn("sin", x) / fn("cos", x)),
                     ("exp", lambda x: fn("exp", x)), ("log", lambda x: fn("log", x)),
                     ("log10", lambda x: fn("log", x) / fn("log", const(10))),
                     ("log2", lambda x: fn("log", x) / fn("log", const(2))),
                     ("tanh", lambda x: fn("tanh", x)), ("square", lambda x: x * x), ("negative", lambda x: -x),
                     ("sign", lambda x: cas.pos(x) - cas.pos(-x)), ("floor", lambda x: fn("floor", x)),
                     ("ceil", lambda x: -fn("floor", -x)), ("rint", lambda x: fn("rint", x)),
                     ("trunc", trunc_expr), ("arctan", lambda x: fn("atan", x)),
                     ("reciprocal", lambda x: cas.power(x, -1)), ("degrees", lambda x: x * 180 / PI),
                     ("radians", lambda x: x * PI / 180), ("deg2rad", lambda x: x * PI / 180),
                     ("positive", lambda x: x), ("arccos", lambda x: fn("acos", x)), ("arcsin", lambda x: fn("asin", x)),
                     ("sinh", lambda x: fn("sinh", x)), ("cosh", lambda x: fn("cosh", x))]:
            M[n] = self.ufunc1(n, f)
        M["isnan"] = ModelFn("isnan", lambda x: filled(x.shape, "bool", 0) if isinstance(x, Arr) else False)
        M["isfinite"] = ModelFn("isfinite", lambda x: filled(x.shape, "bool", 1) if isinstance(x, Arr) else True)
        reg("abs", self.np_abs)
        reg("absolute", self.np_abs)
        reg("fabs", self.np_abs)
        for n, op in [("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("divide", "truediv"),
                      ("true_divide", "truediv"), ("floor_divide", "floordiv"), ("power", "pow"), ("mod", "mod"),
                      ("remainder", "mod"), ("logical_and", "and"), ("logical_or", "or"), ("bitwise_and", "and"),
                      ("bitwise_or", "or"), ("float_power", "pow")]:
            M[n] = self.ufunc2(n, op=op)
        M["logical_not"] = ModelFn("logical_not", lambda x: ewise(lambda v: ONE - v, [arr_like(x)], "bool"))
        M["minimum"] = self.ufunc2("minimum", f=cas.minimum)
        M["fmin"] = M["minimum"]
        M["maximum"] = self.ufunc2("maximum", f=cas.maximum)
        M["fmax"] = M["maximum"]
        M["hypot"] = self.ufunc2("hypot", f=lambda x, y: cas.power(x * x + y * y, h))
        for n, t in [("greater", ast.Gt), ("less", ast.Lt), ("greater_equal", ast.GtE), ("less_equal", ast.LtE),
                     ("equal", ast.Eq), ("not_equal", ast.NotEq)]:
            reg(n, (lambda t: lambda a, b: self.compare(t(), a, b))(t))
        reg("clip", lambda x, a, b, out=None: it.call(M["minimum"], [it.call(M["maximum"], [x, a], {}), b], {"out": out} if out is not None else {}))
        reg("where", self.np_where)
        reg("sum", self.np_sum)
        reg("mean", lambda x, axis=None, **k: self.binop("truediv", self.np_sum(x, axis), self.count(x, axis)))
        reg("prod", self.np_prod)
        reg("dot", self.dot)
        reg("vdot", self.dot)
        reg("inner", lambda a, b: self.contract(a, b, [arr_like(a).nd - 1], [arr_like(b).nd - 1]))
        reg("matmul", self.matmul)
        reg("tensordot", self.tensordot)
        reg("einsum", self.einsum)
        reg("outer", lambda a, b: self.arr_binop("mul", getitem(arr_like(a), (SliceV(None, None, None), None)), arr_like(b)))
        reg("cross", self.cross)
        reg("stack", lambda xs, axis=0, **k: A.stack([arr_like(x) for x in it.iterate(xs)], None, axis))
        reg("concatenate", self.concatenate)
        reg("hstack", lambda xs: (lambda l: self.concatenate(l, 0 if l[0].nd == 1 else 1))([x if x.nd else getitem(x, (None,)) for x in map(arr_like_d, it.iterate(xs))]))
        reg("vstack", lambda xs: self.concatenate([x if arr_like(x).nd > 1 else getitem(arr_like(x), (None,)) for x in it.iterate(xs)], 0))
        reg("moveaxis", lambda a, s, d: moveaxis(a, s, d))
        reg("transpose", lambda a, axes=None: transpose(arr_like(a), axes))
        reg("swapaxes", lambda a, i, j: self.arr_attr(a, "swapaxes").f(i, j))
        reg("reshape", lambda a, s, **k: reshape(arr_like(a), shape_tuple(s)))
        reg("ravel", lambda a, **k: reshape(arr_like(a), (const(-1),)))
        reg("expand_dims", lambda a, ax: self.expand_dims(a, ax))
        reg("squeeze", self.squeeze)
        reg("flip", self.flip)
        reg("flipud", lambda a: self.flip(a, 0))
        reg("fliplr", lambda a: self.flip(a, 1))
        reg("roll", self.roll)
        reg("broadcast_to", lambda a, s, **k: broadcast_to(arr_like(a), shape_tuple(s)))
        reg("eye", lambda N, M=None, k=0, dtype=None: self.eye(N, dtype, M, k))
        reg("identity", lambda n, dtype=None: self.eye(n, dtype))
        reg("diag", self.diag)
        reg("allclose", self.allclose)
        reg("isclose", self.allclose)
        reg("array_equal", self.array_equal)
        reg("all", lambda x, axis=None, **k: self.np_all(x, True))
        reg("any", lambda x, axis=None, **k: self.np_all(x, False))
        reg("amax", lambda x, axis=None, **k: self.np_extreme("max", x, axis))
        reg("amin", lambda x, axis=None, **k: self.np_extreme("min", x, axis))
        M["max"], M["min"] = M["amax"], M["amin"]
        reg("argsort", self.argsort)
        reg("sort", lambda a, axis=-1, **k: self.opaque1("sort", a))
        reg("finfo", lambda d: self.finfo(d))
        reg("iinfo", lambda d: OpaqueModule("iinfo"))
        reg("copyto", self.copyto)
        reg("ndindex", self.ndindex)
        reg("real", lambda x: self.arr_attr(x, "real") if isinstance(x, Arr) else cparts(x)[0])
        reg("imag", lambda x: self.arr_attr(x, "imag") if isinstance(x, Arr) else cparts(x)[1])
        reg("conj", self.conj)
        reg("conjugate", self.conj)
        reg("round", self.np_round)
        reg("around", self.np_round)
        reg("atleast_1d", lambda x: arr_like(x) if arr_like(x).nd else reshape(arr_like(x), (ONE,)))
        reg("iscomplexobj", lambda x: isinstance(x, CVal) or (isinstance(x, Arr) and x.cplx))
        reg("issubdtype", lambda a, b: self.issubdtype(a, b))
        reg("result_type", lambda *a: DTypeObj("float64"))
        reg("insert", self.np_insert)
        reg("array2string", lambda x, **k: models_ext_array2string(self, x, k))
        reg("set_printoptions", lambda *a, **k: None)
        reg("seterr", lambda *a, **k: {})
        reg("errstate", lambda **k: NullCtx())
        reg("ndim", lambda x: arr_like(x).nd)
        reg("shape", lambda x: self.arr_attr(arr_like(x), "shape"))
        reg("size", lambda x: self.arr_attr(arr_like(x), "size"))
        reg("isscalar", lambda x: is_num(x))
        reg("nonzero", lambda x: (_ for _ in ()).throw(Unsupported("nonzero")))
        reg("tile", self.tile)
        reg("repeat", self.np_repeat)
        reg("pad", self.pad)
        reg("diff", lambda a, **k: self.diff(a))
        reg("indices", self.indices)
        reg("cumsum", lambda *a, **k: (_ for _ in ()).throw(Unsupported("cumsum")))
        reg("float_", lambda x: x)
        reg("nditer", lambda *a, **k: (_ for _ in ()).throw(Unsupported("nditer")))
        reg("get_include", lambda: "")
        M["s_"] = IndexMaker()
        M["index_exp"] = IndexMaker(True)
        M["mgrid"] = MGrid(self, False)
        M["ogrid"] = MGrid(self, True)
        M["__version__"] = "1.26"
        L = {}
        models_np.register(self, M, reg)
        lin = ModelModule("numpy.linalg", L)
        M["linalg"] = lin
        self.mods["numpy.linalg"] = lin
        L["multi_dot"] = ModelFn("multi_dot", self.multi_dot)
        L["norm"] = ModelFn("norm", self.norm)
        L["eig"] = ModelFn("eig", lambda a: self.eig(a, "eig"))
        L["eigh"] = ModelFn("eigh", lambda a, **k: self.eig(a, "eigh"))
        L["inv"] = ModelFn("inv", lambda a: self.opaque1("inv", a))
        L["solve"] = ModelFn("solve", lambda a, b: self.dot(self.opaque1("inv", a), b))
        L["LinAlgError"] = EXC["LinAlgError"]
        R = ModelModule("numpy.random", {})
        M["random"] = R
        self.mods["numpy.random"] = R
        R.attrs["rand"] = ModelFn("rand", lambda *s: uninit(s, "float64"))
        R.attrs["seed"] = ModelFn("seed", lambda *s: None)
        T = ModelModule("numpy.testing", {})
        M["testing"] = T
        self.mods["numpy.testing"] = T
        T.attrs["assert_allclose"] = ModelFn("assert_allclose", self.assert_allclose)
        T.attrs["assert_array_almost_equal"] = T.attrs["assert_almost_equal"] = ModelFn("assert_array_almost_equal", self.assert_almost)
        T.attrs["assert_array_equal"] = T.attrs["assert_equal"] = ModelFn("assert_array_equal", self.assert_equal)
        ty = ModelModule("numpy.typing", {"ArrayLike": TypingObj("ArrayLike"), "NDArray": TypingObj("NDArray"), "DTypeLike": TypingObj("DTypeLike")})
        M["typing"] = ty
        self.mods["numpy.typing"] = ty

    def assert_allclose(self, a, b, rtol=Fraction(1, 10 ** 7), atol=0, *r, **k):
        x, y = arr_like(a), arr_like(b)
        if x.nd and y.nd and x.shape != y.shape:
            raise AbsRaise("AssertionError", "shapes %s and %s mismatch" % (list(map(str, x.shape)), list(map(str, y.shape))), self.it.where())
        if not self.it.truth(self.allclose(x, y, rtol, atol)):
            raise AbsRaise("AssertionError", "not close", self.it.where())

    def assert_equal(self, a, b, *r, **k):
        if isinstance(a, (str, bool)) or isinstance(b, (str, bool)) or a is None or b is None:
            if a != b:
                raise AbsRaise("AssertionError", "items are not equal", self.it.where())
            return
        self.assert_allclose(a, b, 0, 0)

    def assert_almost(self, a, b, decimal=6, *r, **k):
        self.assert_allclose(a, b, 0, Fraction(15, 10) / 10 ** _int(decimal))

    def full(self, s, v, dtype):
        dn = dtype_name(dtype) if dtype is not None else ("int64" if isinstance(v, int) else "float64")
        a = filled(s, dn, 0)
        assign(a, v)
        return a

    def count(self, x, axis):
        x = arr_like(x)
        t = ONE
        axes = range(x.nd) if axis is None else ([axis] if isinstance(axis, int) else axis)
        for k in axes:
            t = t * x.shape[k % x.nd]
        return t

    def np_prod(self, x, axis=None, keepdims=False, dtype=None, out=None, initial=None, **kw):
        if kw:
            raise Unsupported("np.prod options")
        if isinstance(x, (list, tuple)) and x and all(isinstance(v, ArrV) for v in x):
            x = A.stack(list(x))
        elif isinstance(x, (list, tuple)) and axis is None and out is None:
            t = 1 if initial is None else initial
            for v in x:
                t = self.binop("mul", t, v)
            return t
        x = arr_like(x)
        if x.nd > 1:
            axes = list(range(x.nd)) if axis is None else ([_int(a) % x.nd for a in axis] if isinstance(axis, (tuple, list)) else [_int(axis) % x.nd])
            r = x
            for a in sorted(axes, reverse=True):
                n_ = r.shape[a]
                if not n_.is_const:
                    raise Unsupported("np.prod along an axis of symbolic extent")
                sl = (SliceV(None, None, None),) * a
                t = None
                for k in range(int(n_.value)):
                    v = getitem(r, sl + (k,))
                    t = v if t is None else self.binop("mul", t, v)
                r = t if t is not None else getitem(r, sl + (0,))
            if initial is not None:
                r = self.binop("mul", r, initial)
            if keepdims and isinstance(r, ArrV):
                for a in sorted(axes):
                    r = getitem(r, (SliceV(None, None, None),) * a + (None,))
            if out is not None:
                assign(out, r)
                return out
            return r
        if x.nd == 1:
            t = 1
            for v in self.it.iterate(x):
                t = self.binop("mul", t, v)
            return t
        raise Unsupported("np.prod")

    def cross(self, a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
        a, b = arr_like(a), arr_like(b)
        if axis is not None:
            axisa = axisb = axisc = axis
        a, b = moveaxis(a, axisa, 0), moveaxis(b, axisb, 0)
        g = lambda x, k: getitem(x, k)
        mul = lambda i, j: self.arr_binop("mul", g(a, i), g(b, j))
        if a.shape[0] == const(2) and b.shape[0] == const(2):
            return self.arr_binop("sub", mul(0, 1), mul(1, 0))
        c = [self.arr_binop("sub", mul(i, j), mul(j, i)) for i, j in ((1, 2), (2, 0), (0, 1))]
        r = A.stack(c)
        return moveaxis(r, 0, axisc)

    def expand_dims(self, a, ax):
        a = arr_like(a)
        axs = [ax] if isinstance(ax, int) else list(ax)
        n = a.nd + len(axs)
        axs = [x % n for x in axs]
        return getitem(a, tuple(None if k in axs else SliceV(None, None, None) for k in range(n)))

    def squeeze(self, a, axis=None):
        ax = [k for k, s in enumerate(a.shape) if s == ONE] if axis is None else ([axis % a.nd] if isinstance(axis, int) else [x % a.nd for x in axis])
        return getitem(a, tuple(0 if k in ax else SliceV(None, None, None) for k in range(a.nd)))

    def np_insert(self, a, where, values, axis=None):
        a = arr_like_d(a)
        if a.nd != 1 or not isinstance(where, int):
            raise Unsupported("np.insert")
        n = self.b_len(a)
        k = where + n if where < 0 else where
        sl = lambda x, y: getitem(a, SliceV(x, y, None))
        v = A.copy(self.array([values] if not isinstance(values, (list, tuple, Arr)) else values), a.dtype)
        return self.concatenate([sl(None, k), v, sl(k, None)], 0)

    def flip(self, a, axis=None):
        axs = range(a.nd) if axis is None else ([axis % a.nd] if isinstance(axis, int) else [x % a.nd for x in axis])
        return getitem(a, tuple(SliceV(None, None, -1) if k in axs else SliceV(None, None, None) for k in range(a.nd)))

    def roll(self, a, shift, axis=None):
        if axis is None or isinstance(axis, (tuple, list)):
            if isinstance(axis, (tuple, list)):
                for s, x in zip(shift, axis):
                    a = self.roll(a, s, x)
                return a
            raise Unsupported("roll without axis")
        ax = axis % a.nd
        n = a.shape[ax]
        s = E(shift)
        if s.is_const and s.value == 0:
            return copy(a)
        sl = lambda x, y: tuple(SliceV(x, y, None) if k == ax else SliceV(None, None, None) for k in range(a.nd))
        return self.concatenate([getitem(a, sl(-s, None)), getitem(a, sl(None, -s))], ax)

    def eye(self, n, dtype, m=None, k=0):
        sh = (E(n), E(n if m is None else m))
        return Arr.from_pieces(sh, dtype_name(dtype), [(A.full_box(sh), kron(idx(0) + E(k) - idx(1)), "")])

    def diag(self, v, k=0):
        v = arr_like(v)
        if v.nd == 2:
            if k:
                raise Unsupported("diag offset")
            return Arr(v.base, (v.shape[0],), [(0 if j in (0, 1) else j, c, o) for j, c, o in v.map], v.dtype)
        if k:
            raise Unsupported("diag offset")
        p = v.pieces()
        if len(p) != 1:
            raise Unsupported("diag of piecewise vector")
        n = v.shape[0]
        return Arr.from_pieces((n, n), v.dtype, [(((ZERO, n), (ZERO, n)), p[0][1] * kron(idx(0) - idx(1)), "")])

    def np_all(self, x, want):
        if isinstance(x, (bool, Expr, int)):
            return x
        if isinstance(x, (list, tuple, GenList)):
            return self.b_all(x, want)
        ps = x.pieces()
        es = [A.simp_in_box(e, b) for b, e, _ in ps]
        if want:
            if all(e == ONE for e in es):
                return True
            if any(not e.t for e in es):
                return False
        else:
            if all(not e.t for e in es):
                return False
            if any(e == ONE for e in es):
                return True
        return cas.sym("?%s(%s)" % ("all" if want else "any", sorted(map(repr, es))), nonneg=True)

    def np_extreme(self, k, x, axis=None):
        if isinstance(x, (list, tuple)):
            return self.b_minmax(k, (x,), {})
        if x.nd == 1 and x.shape[0].is_const and x.shape[0].value <= 16 and axis in (None, 0, -1):
            return self.b_minmax(k, (self.it.iterate(x),), {})
        if axis is None:
            nm = A.op_name("amax" if k == "max" else "amin", [x])
            return cas.sym(nm)
        raise Unsupported("np.max over axis")

    def argsort(self, a, axis=-1, **kw):
        a = arr_like(a)
        if a.nd != 1:
            raise Unsupported("argsort nd")
        # the decreasing order is the increasing order of the negated values, backwards
        sp = self.sorted_by(a)
        if sp is not None:
            # already in order, or in the opposite order
            return Arr.from_pieces(a.shape, "int64", [(A.full_box(a.shape), sp, "")])
        nm = A.op_find("argsort", [a])
        rev = False
        if nm is None:
            nm = A.op_find("argsort", [self.arr_binop("mul", a, -1)])
            rev = nm is not None
        if nm is None:
            nm = A.op_name("argsort", [a])
        if rev:
            return Arr.from_pieces(a.shape, "int64", [(A.full_box(a.shape), cas.atom_expr(mk_atom("ref", (nm, (a.shape[0] - 1 - idx(0),)), True, True)), "")])
        return Arr.from_pieces(a.shape, "int64", [(A.full_box(a.shape), cas.atom_expr(mk_atom("ref", (nm, (idx(0),)), True, True)), "")])

    def sorted_by(self, a):
        """i0 (n-1-i0) when the content is w[argsort(w)] (w[argsort(w)[::-1]])"""
        ps = a.pieces()
        if len(ps) != 1:
            return None
        at = single_ref(ps[0][1])
        if at is None or len(at.args[1]) != 1:
            return None
        inner = single_ref(at.args[1][0])
        if inner is None:
            return None
        lk = A.op_lookup(inner.args[0])
        if not lk or lk[0] != "argsort" or len(lk[2][0]) != 1:
            return None
        w = single_ref(lk[2][0][0][1])
        if w is None or w.args[0] != at.args[0] or w.args[1] != (idx(0),):
            return None
        k = inner.args[1][0]
        return k if k == idx(0) or k == a.shape[0] - 1 - idx(0) else None

    def orthogonal(self, a):
        """are the columns the eigenvectors of a symmetric matrix with simple eigenvalues (in some order)?"""
        ps = a.pieces()
        if len(ps) != 1 or a.nd != 2:
            return False
        at = single_ref(ps[0][1])
        if at is None or len(at.args[1]) != 2 or at.args[1][0] != idx(0):
            return False
        lk = A.op_lookup(at.args[0])
        if not lk or lk[0] != "eigvecs":
            return False
        c = at.args[1][1]
        if c != idx(1):
            q = single_ref(c)
            o = q and A.op_lookup(q.args[0])
            if not o or o[0] != "argsort" or len(q.args[1]) != 1 or q.args[1][0] not in (idx(1), a.shape[1] - 1 - idx(1)):
                return False
        T = Arr.from_pieces(a.shape, a.dtype, lk[2][0])
        return not A.compare(lk[2][0], transpose(T).pieces(), None)

    def opaque1(self, op, a):
        a = arr_like(a)
        if op == "inv" and self.orthogonal(a):
            # normalised eigenvectors of an (unreduced tridiagonal) symmetric matrix: the inverse is the transpose
            return copy(transpose(a))
        nm = A.op_name(op, [a])
        n = a.nd + (1 if a.cplx else 0)
        return Arr.from_pieces(a.shape, a.dtype, [(A.full_box(a.full_vshape()), cas.ref(nm, [idx(i) for i in range(n)]), "")])

    def eig(self, a, op):
        a = arr_like(a)
        n1 = A.op_name("eigvals", [a])
        n2 = A.op_name("eigvecs", [a])
        w = Arr.from_pieces((a.shape[0],), a.dtype, [(A.full_box((a.shape[0],)), cas.ref(n1, [idx(0)]), "")])
        v = Arr.from_pieces(a.shape, a.dtype, [(A.full_box(a.shape), cas.ref(n2, [idx(0), idx(1)]), "")])
        if op == "eigh":
            p = self.argsort(w)
            return (copy(getitem(w, p)), copy(getitem(v, (SliceV(None, None, None), p))))
        return (w, v)

    def finfo(self, d):
        n = dtype_name(d)
        v = {"float32": Fraction(1, 2 ** 23), "float64": Fraction(1, 2 ** 52)}[n]
        return Rec("finfo", {"eps": v, "bits": 32 if n == "float32" else 64, "dtype": DTypeObj(n),
                             "max": cas.sym("fmax_" + n, nonneg=True), "min": -cas.sym("fmax_" + n, nonneg=True),
                             "tiny": cas.sym("tiny_" + n, nonneg=True), "resolution": Fraction(1, 10 ** (6 if n == "float32" else 15)),
                             "precision": 6 if n == "float32" else 15})

    def ndindex(self, *s):
        import itertools
        sh = shape_tuple(s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)
        return GenList(itertools.product(*[range(_int(x)) for x in sh]))

    def conj(self, x):
        if isinstance(x, Arr):
            if not x.cplx:
                return x
            return join_parts(part(x, 0), ewise(lambda v: -v, [part(x, 1)], COMPLEX[x.dtype]), x.dtype)
        if isinstance(x, CVal):
            return CVal(x.re, -x.im)
        return x

    def np_round(self, x, decimals=0, out=None):
        f = (lambda v: fn("rint", v)) if decimals == 0 else (lambda v: fn("round", v, const(decimals)))
        if isinstance(x, Arr):
            r = ewise(f, [x], x.dtype)
            if out is not None:
                assign(out, r)
                return out
            return r
        return f(E(x))

    def issubdtype(self, a, b):
        n = dtype_name(a)
        if isinstance(b, ModelFn):
            return {"numpy.floating": n.startswith("float"), "numpy.integer": n.startswith("int")}.get(b.name, False)
        return n == dtype_name(b)

    def tile(self, a, reps):
        a = arr_like(a)
        reps = (reps,) if isinstance(reps, (int, Expr)) else tuple(reps)
        while a.nd < len(reps):
            a = getitem(a, (None,))
        reps = (1,) * (a.nd - len(reps)) + reps
        sh = list(a.shape)
        for k, r in enumerate(reps):
            if E(r) == ONE:
                continue
            if a.shape[k] != ONE:
                a = self.concatenate([a] * _int(r), k)
            else:
                s2 = list(a.shape)
                s2[k] = E(r)
                a = broadcast_to(a, s2)
        return copy(a)

    def np_repeat(self, a, n, axis=None):
        a = arr_like(a)
        if axis is not None and a.shape[axis % a.nd] == ONE:
            s = list(a.shape)
            s[axis % a.nd] = E(n)
            return copy(broadcast_to(a, s))
        if a.nd == 0 or (a.nd == 1 and a.shape[0] == ONE):
            return copy(broadcast_to(a, (E(n),)))
        raise Unsupported("np.repeat")

    def pad(self, a, pw, mode="constant", constant_values=0, **kw):
        if mode != "constant":
            raise Unsupported("np.pad mode")
        if isinstance(pw, int):
            pw = [(pw, pw)] * a.nd
        elif len(pw) == 2 and all(isinstance(x, (int, Expr)) for x in pw):
            pw = [tuple(pw)] * a.nd
        pw = [(p, p) if isinstance(p, (int, Expr)) else tuple(p) for p in pw]
        sh = [s + E(p) + E(q) for s, (p, q) in zip(a.shape, pw)]
        r = filled(sh, a.dtype, constant_values)
        v = getitem(r, tuple(SliceV(p, E(p) + s, None) for s, (p, q) in zip(a.shape, pw)))
        assign(v, a)
        return r

    def diff(self, a):
        a = arr_like(a)
        return self.arr_binop("sub", getitem(a, (Ellipsis, SliceV(1, None, None))), getitem(a, (Ellipsis, SliceV(None, -1, None))))

    def indices(self, dims, dtype=None, sparse=False):
        sh = shape_tuple(dims)
        out = [Arr.from_pieces(sh, "int64", [(A.full_box(sh), idx(k), "")]) for k in range(len(sh))]
        return A.stack(out)

    def multi_dot(self, arrs, out=None):
        arrs = [arr_like(a) for a in self.it.iterate(arrs)]
        r = arrs[0]
        for a in arrs[1:]:
            r = self.dot(r, a)
        if out is not None:
            assign(out, r)
            return out
        return r

    def norm(self, x, ord=None, axis=None, keepdims=False):
        x = arr_like(x)
        if ord not in (None, 2) or (ord == 2 and x.nd != 1 and axis is None):
            raise Unsupported("norm ord")
        s = self.np_sum(self.arr_binop("mul", x, x), axis=axis, keepdims=keepdims)
        return self.it.call(self.np.attrs["sqrt"], [s], {})

    def squeeze_(self, a):
        return a

    # ------------------------------------------------------------- misc modules
    def setup_misc(self):
        it = self.it
        m = {"pi": PI, "sqrt": self.np.attrs["sqrt"], "sin": self.np.attrs["sin"], "cos": self.np.attrs["cos"],
             "exp": self.np.attrs["exp"], "floor": ModelFn("floor", lambda x: self._mfloor(x)),
             "ceil": ModelFn("ceil", lambda x: self._mceil(x)), "log": self.np.attrs["log"],
             "fabs": ModelFn("fabs", self.np_abs), "prod": ModelFn("prod", lambda xs: self.np_prod(list(it.iterate(xs)))),
             "tan": self.np.attrs["tan"], "pow": ModelFn("pow", lambda a, b: scal("pow", a, b)),
             "isclose": ModelFn("isclose", self.allclose), "hypot": self.np.attrs["hypot"],
             "inf": SpecialFloat("inf"), "nan": SpecialFloat("nan"), "trunc": ModelFn("trunc", lambda x: trunc_expr(E(x))),
             "fsum": ModelFn("fsum", self.b_sum)}
        self.mods["math"] = ModelModule("math", m)
        ty = {n: TypingObj(n) for n in ("Any", "Type", "Union", "Optional", "Tuple", "List", "Dict", "Callable", "Sequence",
                                        "Iterable", "Mapping", "NamedTuple", "Literal", "TypeVar", "Generic", "Set",
                                        "Protocol", "Final", "ClassVar", "Iterator", "overload", "cast", "no_type_check",
                                        "TYPE_CHECKING", "Annotated", "Generator", "Hashable", "TypedDict", "NoReturn")}
        ty["TYPE_CHECKING"] = False
        ty["cast"] = ModelFn("cast", lambda t, v: v)
        ty["TypeVar"] = ModelFn("TypeVar", lambda *a, **k: TypingObj("Any"))
        self.mods["typing"] = ModelModule("typing", ty)
        self.mods["typing_extensions"] = self.mods["typing"]
        self.mods["collections.abc"] = ModelModule("collections.abc", ty)
        ft = {"partial": ModelFn("partial", self.partial), "wraps": ModelFn("wraps", lambda f, **k: ModelFn("wraps", lambda g: g)),
              "reduce": ModelFn("reduce", self.reduce), "lru_cache": ModelFn("lru_cache", self.lru_cache),
              "cache": ModelFn("cache", lambda f: Memo(it, f)), "cached_property": ModelFn("cached_property", lambda f: Prop(f)),
              "singledispatch": ModelFn("singledispatch", lambda f: f)}
        self.mods["functools"] = ModelModule("functools", ft)
        import itertools
        its = {"product": ModelFn("product", lambda *a, repeat=1: GenList(itertools.product(*[it.iterate(x) for x in a], repeat=repeat))),
               "permutations": ModelFn("permutations", lambda x, r=None: GenList(itertools.permutations(it.iterate(x), r))),
               "combinations": ModelFn("combinations", lambda x, r: GenList(itertools.combinations(it.iterate(x), r))),
               "chain": ModelFn("chain", lambda *a: GenList([v for x in a for v in it.iterate(x)])),
               "repeat": ModelFn("repeat", lambda x, n: GenList([x] * n)),
               "zip_longest": ModelFn("zip_longest", lambda *a, **k: GenList(itertools.zip_longest(*[it.iterate(x) for x in a], **k))),
               "count": ModelFn("count", lambda s=0, st=1: GenList(range(s, s + 1000, st))),
               "islice": ModelFn("islice", lambda x, *a: GenList(list(it.iterate(x))[slice(*a)])),
               "accumulate": ModelFn("accumulate", self.accumulate_),
               "starmap": ModelFn("starmap", lambda f, x: GenList([it.call(f, list(t), {}) for t in it.iterate(x)])),
               "cycle": ModelFn("cycle", lambda x: GenList(list(it.iterate(x)) * 100))}
        its["chain"].attrs = {"from_iterable": ModelFn("from_iterable", lambda x: GenList([v for y in it.iterate(x) for v in it.iterate(y)]))}
        self.mods["itertools"] = ModelModule("itertools", its)
        op = {n: ModelFn(n, (lambda o: lambda a, b: self.binop(o, a, b))(o)) for n, o in
              [("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "truediv"), ("floordiv", "floordiv"),
               ("mod", "mod"), ("pow", "pow"), ("iadd", "add"), ("and_", "and"), ("or_", "or"), ("matmul", "matmul")]}
        op["neg"] = ModelFn("neg", lambda a: it.neg(a))
        op["itemgetter"] = ModelFn("itemgetter", lambda *ks: ModelFn("itemgetter", lambda o: it.subscript(o, ks[0]) if len(ks) == 1 else tuple(it.subscript(o, k) for k in ks)))
        op["attrgetter"] = ModelFn("attrgetter", lambda k: ModelFn("attrgetter", lambda o: it.getattr(o, k)))
        for n, t in [("eq", ast.Eq), ("ne", ast.NotEq), ("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE)]:
            op[n] = ModelFn(n, (lambda t: lambda a, b: self.compare(t(), a, b))(t))
        op["contains"] = ModelFn("contains", lambda a, b: self.contains(a, b))
        op["getitem"] = ModelFn("getitem", lambda a, b: it.subscript(a, b))
        op["setitem"] = ModelFn("setitem", lambda a, b, c: it.set_subscript(a, b, c))
        self.mods["operator"] = ModelModule("operator", op)
        dc = {"dataclass": ModelFn("dataclass", self.dataclass), "field": ModelFn("field", self.dc_field)}
        self.mods["dataclasses"] = ModelModule("dataclasses", dc)

        self.mods["collections"] = ModelModule("collections", {
            "OrderedDict": PyType("dict"), "defaultdict": ModelFn("defaultdict", self.defaultdict),
            "namedtuple": ModelFn("namedtuple", self.namedtuple), "abc": self.mods["collections.abc"],
            "deque": PyType("list"), "Counter": PyType("dict")})
        warn = ModelModule("warnings", {"warn": ModelFn("warn", lambda *a, **k: None),
                                        "filterwarnings": ModelFn("filterwarnings", lambda *a, **k: None),
                                        "simplefilter": ModelFn("simplefilter", lambda *a, **k: None),
                                        "catch_warnings": ModelFn("catch_warnings", lambda **k: NullCtx())})
        self.mods["warnings"] = warn
        log = NullLogger()
        self.mods["logging"] = ModelModule("logging", {"getLogger": ModelFn("getLogger", lambda *a: log), **{
            k: ModelFn(k, lambda *a, **kw: None) for k in ("debug", "info", "warning", "error", "basicConfig", "critical")},
            "DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "NullHandler": ModelFn("NullHandler", lambda: None)})
        self.mods["time"] = ModelModule("time", {k: ModelFn(k, lambda *a: cas.sym("?time")) for k in ("time", "perf_counter", "process_time", "monotonic", "sleep")})
        self.mods["abc"] = ModelModule("abc", {"ABC": Cls("ABC", [], {}, None), "abstractmethod": ModelFn("abstractmethod", lambda f: f),
                                               "ABCMeta": PyType("type")})
        self.mods["numbers"] = ModelModule("numbers", {"Number": ModelFn("Number", None), "Real": ModelFn("Real", None),
                                                       "Integral": ModelFn("Integral", None)})
        self.mods["copy"] = ModelModule("copy", {"copy": ModelFn("copy", self.copy_copy), "deepcopy": ModelFn("deepcopy", self.deepcopy)})
        self.mods["enum"] = ModelModule("enum", {"Enum": Cls("Enum", [], {}, None), "IntEnum": Cls("IntEnum", [], {}, None),
                                                 "auto": ModelFn("auto", lambda: Ctx.fresh("auto"))})
        self.mods["contextlib"] = ModelModule("contextlib", {"contextmanager": ModelFn("contextmanager", lambda f: f),
                                                             "suppress": ModelFn("suppress", lambda *a: NullCtx()),
                                                             "nullcontext": ModelFn("nullcontext", lambda x=None: NullCtx(x))})
        self.mods["fractions"] = ModelModule("fractions", {"Fraction": ModelFn("Fraction", lambda a, b=1: Fraction(a) / Fraction(b))})
        self.mods["sys"] = ModelModule("sys", {"float_info": Rec("float_info", {"epsilon": Fraction(1, 2 ** 52)}), "version_info": (3, 9, 0),
                                               "maxsize": 2 ** 63 - 1, "modules": {}, "platform": "linux", "argv": []})
        self.mods["inspect"] = OpaqueModule("inspect")
        self.mods["string"] = ModelModule("string", {"Template": ModelFn("Template", lambda t: TemplateV(t))})
        self.mods["textwrap"] = ModelModule("textwrap", {"dedent": ModelFn("dedent", lambda s: __import__("textwrap").dedent(s)),
                                                         "indent": ModelFn("indent", lambda s, p: __import__("textwrap").indent(s, p))})

    def _mfloor(self, x):
        if isinstance(x, (int, Fraction)):
            return x.__floor__()
        return fn("floor", E(x))

    def _mceil(self, x):
        if isinstance(x, (int, Fraction)):
            return x.__ceil__()
        return -fn("floor", -E(x))

    def copy_copy(self, x):
        if isinstance(x, Arr):
            return copy(x)
        if isinstance(x, (list, dict, set)):
            return type(x)(x)
        if isinstance(x, Inst):
            r = Inst(x.cls)
            r.attrs = dict(x.attrs)
            return r
        return x

    def deepcopy(self, x):
        if isinstance(x, Arr):
            return copy(x)
        if isinstance(x, list):
            return [self.deepcopy(v) for v in x]
        if isinstance(x, tuple):
            return tuple(self.deepcopy(v) for v in x)
        if isinstance(x, dict):
            return {k: self.deepcopy(v) for k, v in x.items()}
        return x

    def partial(self, f, *a, **k):
        it = self.it
        m = ModelFn("partial", lambda *a2, **k2: it.call(f, list(a) + list(a2), {**k, **k2}))
        m.attrs = {"func": f, "args": a, "keywords": k}
        return m

    def reduce(self, f, xs, *init):
        vs = list(self.it.iterate(xs))
        r = init[0] if init else vs.pop(0)
        for v in vs:
            r = self.it.call(f, [r, v], {})
        return r

    def accumulate_(self, xs, f=None, initial=None):
        out = []
        r = initial
        if r is not None:
            out.append(r)
        for v in self.it.iterate(xs):
            r = v if r is None else (self.it.call(f, [r, v], {}) if f else self.binop("add", r, v))
            out.append(r)
        return GenList(out)

    def lru_cache(self, *a, **k):
        it = self.it
        if a and isinstance(a[0], Func):
            return Memo(it, a[0])
        return ModelFn("lru_cache", lambda f: Memo(it, f))

    def dataclass(self, c=None, **kw):
        if c is None:
            return ModelFn("dataclass", lambda c: self.dataclass(c))
        flds = []
        for b in c.bases:
            if isinstance(b, Cls) and hasattr(b, "fields"):
                flds += b.fields
        c.fields = flds + list(c.ann)
        return c

    def dc_field(self, default=None, default_factory=None, **kw):
        if default_factory is not None:
            return self.it.call(default_factory, [], {})
        return default

    def defaultdict(self, factory=None, *a, **k):
        d = DefaultDict(*a, **k)
        d.default_factory = factory
        return d

    def namedtuple(self, name, fields, **kw):
        if isinstance(fields, str):
            fields = fields.replace(",", " ").split()
        return ModelFn(name, lambda *a, **k: NTuple(fields, list(a) + [k[f] for f in fields[len(a):]]))


class DefaultDict(dict):
    default_factory = None


class NTuple(Obj):
    tname = "namedtuple"

    def __init__(self, fields, vals):
        self.fields, self.vals = fields, vals

    def getattr(self, it, n):
        if n in self.fields:
            return self.vals[self.fields.index(n)]
        if n == "_asdict":
            return ModelFn(n, lambda: dict(zip(self.fields, self.vals)))
        raise KeyError(n)

    def getitem(self, it, i):
        return tuple(self.vals)[i]

    def iter(self, it):
        return list(self.vals)

    def len(self, it):
        return len(self.vals)


class Memo(Obj):
    tname = "lru_cache"

    def __init__(self, it, f):
        self.f = f
        self.cache = {}

    def call(self, it, *a, **k):
        try:
            key = (tuple(a), tuple(sorted(k.items())))
            if key in self.cache:
                return self.cache[key]
        except TypeError:
            raise AbsRaise("TypeError", "unhashable argument to cached function", it.where())
        r = it.call(self.f, list(a), k)
        self.cache[key] = r
        return r

    def getattr(self, it, n):
        if n == "cache_clear":
            return ModelFn(n, lambda: self.cache.clear())
        raise KeyError(n)


class NullCtx(Obj):
    tname = "context manager"

    def __init__(self, v=None):
        self.v = v

    def enter(self, it):
        return self.v

    def exit(self, it):
        pass


class NullLogger(Obj):
    tname = "Logger"

    def getattr(self, it, n):
        return ModelFn(n, lambda *a, **k: None)


class Rec(Obj):
    def __init__(self, tname, attrs):
        self.tname = tname
        self.attrs = attrs

    def getattr(self, it, n):
        return self.attrs[n]


class TypingObj(Obj):
    tname = "typing object"

    def __init__(self, n):
        self.n = n

    def getitem(self, it, i):
        return self

    def call(self, it, *a, **k):
        return a[0] if a else self

    def getattr(self, it, n):
        return self


class IndexMaker(Obj):
    tname = "IndexExpression"

    def __init__(self, tup=False):
        self.tup = tup

    def getitem(self, it, i):
        if self.tup and not isinstance(i, tuple):
            return (i,)
        return i


class MGrid(Obj):
    tname = "mgrid"

    def __init__(self, models, sparse):
        self.m, self.sparse = models, sparse

    def getitem(self, it, i):
        ix = i if isinstance(i, tuple) else (i,)
        axes = []
        for s in ix:
            lo = s.start if s.start is not None else 0
            axes.append(self.m.arange(lo, s.stop, s.step if s.step is not None else 1))
        r = self.m.meshgrid(*axes, indexing="ij", sparse=self.sparse)
        if self.sparse:
            return r
        return A.stack(r) if isinstance(i, tuple) else r[0]


def single_ref(e):
    """the atom of an expression that is one array element"""
    for a in e.all_atoms():
        if a.kind == "ref" and cas.atom_expr(a) == e:
            return a
    return None


class StrArr(Obj):
    tname = "string array"

    def __init__(self, v):
        self.v = v


#: keywords without effect on the value for the arguments listed (None: any)
BENIGN_KW = {"order": ("C", "K", "A", None), "casting": None, "subok": None, "like": None, "copy": None, "requirements": None,
             "equal_nan": None, "where": (True, None), "out": (None,), "dtype": (None,), "initial": (None, 0), "keepdims": (False,),
             "err_msg": None, "verbose": None, "sorted": None, "kind": None}


class Flags(Obj):
    """ndarray.flags"""

    def __init__(self, o):
        self.o = o
        self.tname = "flagsobj"

    def getattr(self, it, n):
        n = n.lower()
        if n in ("c_contiguous", "contiguous", "forc", "carray"):
            return A.contiguous(self.o)
        if n == "f_contiguous":
            return A.contiguous(transpose(self.o))
        if n in ("writeable", "aligned", "behaved"):
            return True
        raise Unsupported("flags." + n)

    def getitem(self, it, n):
        return self.getattr(it, {"C": "c_contiguous", "F": "f_contiguous", "W": "writeable", "A": "aligned"}.get(n, n))


def kwguard(name, f):
    """f with every keyword it does not itself declare refused unless it is known to be without effect"""
    try:
        ps = inspect.signature(f).parameters.values()
    except (TypeError, ValueError):
        return f
    vark = any(p.kind == p.VAR_KEYWORD for p in ps)
    own = {p.name for p in ps if p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)}

    def g(*a, **k):
        a, k = models_np.positional(name, a, k)
        if not vark:
            for n in list(k):
                if n not in own:
                    if n in BENIGN_KW and (BENIGN_KW[n] is None or any(k[n] is w or (not isinstance(k[n], (Arr, Expr)) and k[n] == w) for w in BENIGN_KW[n])):
                        del k[n]
                    else:
                        raise Unsupported("keyword %s of %s" % (n, name))
            return f(*a, **k)
        for n, v in k.items():
            if n in own:
                continue
            if n in BENIGN_KW and (BENIGN_KW[n] is None or any(v is w or (not isinstance(v, (Arr, Expr)) and v == w) for w in BENIGN_KW[n])):
                continue
            if name in KW_FREE:
                continue
            raise Unsupported("keyword %s of %s" % (n, name))
        return f(*a, **k)
    return g


KW_FREE = {"numpy.array2string", "numpy.set_printoptions", "numpy.seterr", "numpy.errstate", "numpy.zeros_like"}


def models_ext_array2string(m, x, k):
    from . import models_ext
    return models_ext.array2string(m, x, k)


def kron(d):
    """Kronecker delta of an integer expression"""
    return cas.zero(d)


def cmp_gt(x, y):
    d = x - y
    if cas.is_integer(d) and not d.is_const:
        r = try_le(y + 1, x)
        if r is not None:
            return ONE if r else ZERO
    return cas.pos(d)


def ind(r):
    if r.is_const:
        return r.value != 0
    return r


trunc_expr = cas.trunc


def list_dtype(x):
    dts = set()

    def walk(v):
        if isinstance(v, (list, tuple)):
            for y in v:
                walk(y)
        elif isinstance(v, Arr):
            dts.add(v.dtype)
        elif isinstance(v, bool):
            dts.add("bool")
        elif isinstance(v, int) or (isinstance(v, Expr) and cas.is_integer(v)):
            dts.add("int64")
        elif isinstance(v, CVal):
            dts.add("complex128")
        else:
            dts.add("float64")
    walk(x)
    d = None
    for y in dts:
        d = y if d is None else promote(d, y)
    return d or "float64"


class TemplateV(Obj):
    """string.Template"""
    tname = "Template"

    def __init__(self, t):
        self.t = t

    def getattr(self, it, n):
        import string
        if n == "template":
            return self.t
        if n in ("substitute", "safe_substitute"):
            def f(*a, **k):
                d = dict(*a, **k)
                try:
                    return getattr(string.Template(self.t), n)({kk: it.str_(v) for kk, v in d.items()})
                except KeyError as e:
                    raise AbsRaise("KeyError", str(e), it.where())
            return ModelFn(n, f)
        raise KeyError(n)


def arr_like_d(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (list, tuple)):
        return as_arr(list(x), list_dtype(x))
    if isinstance(x, Obj) and hasattr(x, "as_array"):
        return x.as_array()
    return as_arr(x)


SCAL = {k: (lambda op: lambda a, b: E(scal(op, a, b)))(k) for k in
        ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor")}
