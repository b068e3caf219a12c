"""More numpy: parameter names of the library functions, and functions rarely needed."""
import itertools

from . import arrays as A
from . import cas
from .arrays import AbsRaise, Arr, Ctx, SliceV, Unsupported, assign, copy, getitem, transpose
from .cas import E, Expr, ONE, ZERO, const, fn, idx
from .interp import GenList, ModelFn, Obj

#: positional parameter names of the numpy functions (a keyword naming the next free position is made positional)
NAMES = {
    "zeros": "shape dtype", "ones": "shape dtype", "empty": "shape dtype", "full": "shape fill_value dtype",
    "zeros_like": "a dtype", "ones_like": "a dtype", "empty_like": "prototype dtype", "full_like": "a fill_value dtype",
    "array": "object dtype", "asarray": "a dtype", "asanyarray": "a dtype", "ascontiguousarray": "a dtype",
    "require": "a dtype requirements", "copy": "a", "arange": "start stop step dtype",
    "linspace": "start stop num endpoint", "sum": "a axis", "mean": "a axis", "prod": "a axis", "dot": "a b out",
    "vdot": "a b", "inner": "a b", "matmul": "x1 x2 out", "tensordot": "a b axes", "outer": "a b", "cross": "a b",
    "stack": "arrays axis", "concatenate": "arrays axis", "hstack": "tup", "vstack": "tup",
    "moveaxis": "a source destination", "transpose": "a axes", "swapaxes": "a axis1 axis2", "reshape": "a newshape",
    "ravel": "a", "expand_dims": "a axis", "squeeze": "a axis", "flip": "m axis", "flipud": "m", "fliplr": "m",
    "roll": "a shift axis", "broadcast_to": "array shape", "eye": "N", "identity": "n dtype", "diag": "v k",
    "allclose": "a b rtol atol", "isclose": "a b rtol atol", "array_equal": "a1 a2", "all": "a axis", "any": "a axis",
    "amax": "a axis", "amin": "a axis", "max": "a axis", "min": "a axis", "argsort": "a axis", "sort": "a axis",
    "copyto": "dst src", "ndindex": "", "real": "val", "imag": "val", "conj": "x", "conjugate": "x", "round": "a decimals out",
    "around": "a decimals out", "issubdtype": "arg1 arg2", "insert": "arr obj values axis", "ndim": "a", "shape": "a",
    "size": "a", "tile": "A reps", "repeat": "a repeats axis", "pad": "array pad_width mode", "diff": "a",
    "indices": "dimensions", "where": "condition x y", "clip": "a a_min a_max out", "dtype": "dtype", "finfo": "dtype",
    "abs": "x out", "absolute": "x out", "fabs": "x out", "greater": "x1 x2", "less": "x1 x2",
    "greater_equal": "x1 x2", "less_equal": "x1 x2", "equal": "x1 x2", "not_equal": "x1 x2",
    "take": "a indices axis out", "append": "arr values axis", "delete": "arr obj axis", "split": "ary indices_or_sections axis",
    "array_split": "ary indices_or_sections axis", "argmax": "a axis", "argmin": "a axis", "trace": "a", "diagonal": "a",
    "unravel_index": "indices shape", "ravel_multi_index": "multi_index dims",
}
NAMES = {"numpy." + k: tuple(v.split()) for k, v in NAMES.items()}

#: attributes a numpy array has that are not modelled
ARRAY_ATTRS = set("""argmax argmin argpartition byteswap choose compress ctypes cumprod cumsum data diagonal dump dumps
flat getfield itemset newbyteorder nonzero partition ptp put resize searchsorted setfield setflags std strides take
tobytes tofile tostring trace var view sort repeat device mT to_device __array_interface__ __array__""".split())


def positional(name, a, k):
    """keywords that name the next free positional parameters become positional"""
    ns = NAMES.get(name)
    if not ns or not k:
        return a, k
    a, k = list(a), dict(k)
    while len(a) < len(ns) and ns[len(a)] in k:
        a.append(k.pop(ns[len(a)]))
    return a, k


class IndexExp(Obj):
    """np.ix_-like and np.c_/r_ helpers are objects that are subscripted"""
    tname = "index helper"

    def __init__(self, f):
        self.f = f

    def getitem(self, it, i):
        return self.f(i)


def ints(it, x):
    if isinstance(x, Arr):
        x = it.iterate(x)
    out = []
    for v in it.iterate(x):
        if isinstance(v, Arr):
            v = it.scalar_of(v)
        v = E(v)
        if not v.is_const or v.value.denominator != 1:
            raise Unsupported("symbolic index list")
        out.append(int(v.value))
    return out


def register(m, M, reg):
    from .models import (SpecialFloat, arr_like, arr_like_d, dtype_name, pyint, result_dtype, shape_tuple, filled, _int)
    from .models import DTypeObj
    it = m.it

    def take(a, ix, axis=None, out=None, mode="raise"):
        a = arr_like(a)
        if axis is None:
            if a.nd != 1:
                raise Unsupported("np.take on the flattened array")
            axis = 0
        if isinstance(ix, (list, tuple)):
            ix = A.as_arr(list(ix))
        full = [SliceV(None, None, None)] * a.nd
        full[axis % a.nd] = ix
        r = getitem(a, tuple(full))
        if isinstance(r, Arr):
            r = copy(r)
        if out is not None:
            assign(out, r)
            return out
        return r
    reg("take", take)

    def column_stack(xs):
        xs = [arr_like(x) for x in it.iterate(xs)]
        return m.concatenate([getitem(x, (SliceV(None, None, None), None)) if x.nd == 1 else x for x in xs], 1)
    reg("column_stack", column_stack)

    def dstack(xs):
        xs = [arr_like(x) for x in it.iterate(xs)]
        xs = [getitem(x, (None, SliceV(None, None, None), None)) if x.nd == 1 else getitem(x, (Ellipsis, None)) if x.nd == 2 else x for x in xs]
        return m.concatenate(xs, 2)
    reg("dstack", dstack)

    def append(a, v, axis=None):
        a, v = arr_like(a), arr_like(v)
        if axis is None:
            if a.nd != 1 or v.nd > 1:
                raise Unsupported("np.append flattening")
            v = v if v.nd else getitem(v, (None,))
            axis = 0
        return m.concatenate([a, v], axis)
    reg("append", append)

    def split(a, sec, axis=0):
        a = arr_like(a)
        ax = axis % a.nd
        n = a.shape[ax]
        if isinstance(sec, int):
            if not n.is_const or int(n.value) % sec:
                q = n / sec
                if not cas.is_integer(q):
                    raise Unsupported("np.split of a symbolic extent")
            q = n / sec
            cuts = [q * k for k in range(sec + 1)]
        else:
            cuts = [ZERO] + [E(x) for x in it.iterate(sec)] + [n]
        out = []
        for p, q in zip(cuts, cuts[1:]):
            f = [SliceV(None, None, None)] * a.nd
            f[ax] = SliceV(p, q, None)
            out.append(getitem(a, tuple(f)))
        return out
    reg("split", split)
    reg("array_split", split)
    reg("vsplit", lambda a, s: split(a, s, 0))
    reg("hsplit", lambda a, s: split(a, s, 1 if arr_like(a).nd > 1 else 0))

    def rollaxis(a, axis, start=0):
        n = a.nd
        axis %= n
        start = start + n if start < 0 else start
        if axis < start:
            start -= 1
        return A.moveaxis(a, axis, start)
    reg("rollaxis", rollaxis)

    def rot90(a, k=1, axes=(0, 1)):
        i, j = [x % a.nd for x in axes]
        k %= 4
        if k == 0:
            return a
        if k == 2:
            return m.flip(m.flip(a, i), j)
        o = list(range(a.nd))
        o[i], o[j] = j, i
        return transpose(m.flip(a, j), o) if k == 1 else m.flip(transpose(a, o), j)
    reg("rot90", rot90)

    def broadcast_arrays(*xs, subok=False):
        xs = [arr_like(x) for x in xs]
        s = A.bshape([x.shape for x in xs])
        return [A.broadcast_to(x, s) for x in xs]
    reg("broadcast_arrays", broadcast_arrays)

    def shares(a, b, max_work=None):
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            return False
        if a.base is not b.base:
            return False
        return m_overlap(a, b)

    def m_overlap(a, b):
        if a.map == b.map and tuple(a.shape) == tuple(b.shape):
            return True
        raise Unsupported("overlap of two views of one array")
    reg("shares_memory", shares)
    reg("may_share_memory", lambda a, b, max_work=None: isinstance(a, Arr) and isinstance(b, Arr) and a.base is b.base)

    SIZES = {n: i for i, n in enumerate(A._ORDER)}

    def can_cast(a, b, casting="safe"):
        x = a.dtype if isinstance(a, Arr) else dtype_name(a)
        y = dtype_name(b)
        if casting in ("no", "equiv"):
            return x == y
        kind = lambda n: "b" if n == "bool" else "i" if n.startswith("int") else "f" if n.startswith("float") else "c"
        if casting == "same_kind":
            return "bifc".index(kind(x)) <= "bifc".index(kind(y))
        if casting == "unsafe":
            return True
        return A.promote(x, y) == y
    reg("can_cast", can_cast)
    reg("promote_types", lambda a, b: DTypeObj(A.promote(dtype_name(a), dtype_name(b))))

    def result_type(*xs):
        d = None
        for x in xs:
            if isinstance(x, Arr):
                n = x.dtype
            elif isinstance(x, (int, float, Expr)) or type(x).__name__ == "Fraction":
                continue
            else:
                n = dtype_name(x)
            d = n if d is None else A.promote(d, n)
        if d is None:
            raise Unsupported("result_type of scalars")
        return DTypeObj(d)
    reg("result_type", result_type)

    def select(conds, choices, default=0):
        r = default
        for c, v in list(zip(it.iterate(conds), it.iterate(choices)))[::-1]:
            r = m.np_where(c, v, r)
        return r
    reg("select", select)

    def piecewise(x, conds, funcs, *a, **k):
        x = arr_like(x)
        conds, funcs = list(it.iterate(conds)), list(it.iterate(funcs))
        call = lambda f: it.call(f, [x] + list(a), k) if it.models.builtins["callable"].f(f) else f
        r = call(funcs[len(conds)]) if len(funcs) > len(conds) else filled(x.shape, x.dtype, 0)
        for c, f in list(zip(conds, funcs)):
            r = m.np_where(c, call(f), r)
        return copy(r, x.dtype) if isinstance(r, Arr) else r
    reg("piecewise", piecewise)

    def vectorize(f, otypes=None, **k):
        raise Unsupported("np.vectorize")
    reg("vectorize", vectorize)

    M["log1p"] = m.ufunc1("log1p", lambda x: fn("log", x + 1))
    M["expm1"] = m.ufunc1("expm1", lambda x: fn("exp", x) - 1)
    M["fix"] = M["trunc"]
    M["cbrt"] = m.ufunc1("cbrt", lambda x: fn("cbrt", x))
    M["arctan2"] = m.ufunc2("arctan2", f=lambda y, x: fn("atan2", y, x))
    M["fmod"] = m.ufunc2("fmod", f=lambda x, y: x - y * cas_trunc(x / y))
    M["copysign"] = m.ufunc2("copysign", f=lambda x, y: fn("copysign", x, y))
    M["heaviside"] = m.ufunc2("heaviside", f=lambda x, v: cas.pos(x) + (ONE - cas.pos(x) - cas.pos(-x)) * v)
    M["sinc"] = m.ufunc1("sinc", lambda x: fn("sinc", x))

    def cas_trunc(x):
        from .models import trunc_expr
        return trunc_expr(x)

    def count_nonzero(x, axis=None, **k):
        return m.np_sum(m.compare(__import__("ast").NotEq(), arr_like(x), 0), axis=axis)
    reg("count_nonzero", count_nonzero)

    def unravel(i, shape, order="C"):
        sh = [_int(x) for x in shape_tuple(shape)]
        if not isinstance(i, int) or order != "C":
            raise Unsupported("unravel_index of an array")
        out = []
        for n in sh[::-1]:
            out.append(i % n)
            i //= n
        return tuple(out[::-1])
    reg("unravel_index", unravel)

    def ravel_multi(ix, dims, mode="raise", order="C"):
        if mode != "raise" or order != "C":
            raise Unsupported("ravel_multi_index mode")
        t = 0
        for i, n in zip(it.iterate(ix), shape_tuple(dims)):
            t = m.binop("add", m.binop("mul", t, pyint(E(n))), i)
        return t
    reg("ravel_multi_index", ravel_multi)

    def ix_(*xs):
        out = []
        for k, x in enumerate(xs):
            x = A.as_arr(list(x)) if isinstance(x, (list, tuple)) else arr_like(x)
            f = [None] * len(xs)
            f[k] = SliceV(None, None, None)
            out.append(getitem(x, tuple(f)))
        return tuple(out)
    reg("ix_", ix_)

    def trace(a, offset=0, axis1=0, axis2=1, **k):
        a = arr_like(a)
        n = min(_int(a.shape[axis1]), _int(a.shape[axis2]))
        if a.nd != 2 or offset:
            raise Unsupported("np.trace")
        t = 0
        for i in range(n):
            t = m.binop("add", t, it.subscript(a, (i, i)))
        return t
    reg("trace", trace)

    def diagonal(a, offset=0, axis1=0, axis2=1):
        a = arr_like(a)
        if a.nd == 2 and not offset:
            return m.diag(a)
        raise Unsupported("np.diagonal")
    reg("diagonal", diagonal)

    def arg_extreme(op):
        def f(a, axis=None, **k):
            a = arr_like(a)
            if a.nd == 1 and a.shape[0].is_const and axis in (None, 0, -1):
                xs = [E(v) for v in it.iterate(a)]
                if all(x.is_const for x in xs):
                    vs = [x.value for x in xs]
                    return vs.index(max(vs) if op == "argmax" else min(vs))
            if axis is None:
                return cas.atom_expr(cas.mk_atom("ref", (A.op_name(op, [a]), ()), True, True))
            raise Unsupported("np.%s over an axis" % op)
        return f
    reg("argmax", arg_extreme("argmax"))
    reg("argmin", arg_extreme("argmin"))

    def fromiter(x, dtype=None, count=-1, **k):
        return m.array(list(it.iterate(x)), dtype)
    reg("fromiter", fromiter)
    reg("asfortranarray", lambda a, dtype=None, **k: copy(arr_like(a), dtype_name(dtype) if dtype else None))
    reg("isrealobj", lambda x: not (isinstance(x, Arr) and x.cplx) and type(x).__name__ != "CVal")
    M["isinf"] = ModelFn("isinf", lambda x: filled(x.shape, "bool", 0) if isinstance(x, Arr) else isinstance(x, SpecialFloat))
    M["object_"] = ModelFn("numpy.object_", None)
    M["generic"] = ModelFn("numpy.generic", None)
    M["inexact"] = ModelFn("numpy.inexact", None)
    M["complexfloating"] = ModelFn("numpy.complexfloating", None)
    M["signedinteger"] = ModelFn("numpy.integer", None)

    def average(a, axis=None, weights=None, **k):
        if weights is not None:
            raise Unsupported("np.average weights")
        return it.call(M["mean"], [a, axis], {})
    reg("average", average)
    reg("atleast_2d", lambda x: (lambda a: a if a.nd >= 2 else getitem(a, (None,) * (2 - a.nd) + (Ellipsis,)))(arr_like(x)))
    reg("isnat", lambda x: False)
    reg("get_printoptions", lambda: {})
    reg("geterr", lambda: {})
