"""Run one op under one configuration and return what it left in the arrays."""
from .. import arrays as A
from .. import cas
from ..arrays import AbsRaise
from ..bounds import Undecidable, try_le
from ..cas import E
from ..core import Want, anchor, diff_pieces, run_paths, show_diff
from ..interp import DT
from .ops import Env, symarr

F32, F64 = DT("float32"), DT("float64")


class Exact:
    """double-precision run in which every rounding to single precision leaves a mark in the value"""

    def __enter__(self):
        A.NARROW[0] = 2
        del A.NARROWED[:]

    def __exit__(self, *exc):
        A.NARROW[0] = False


def rounded(pieces, seen=None):
    """place of the first content that went through single precision, or None"""
    seen = set() if seen is None else seen
    for b, e, p in pieces:
        for a in E(e).all_atoms():
            if a.kind == "fn" and a.args[0] == "single":
                return p or "?"
            if a.kind == "ref":
                nm = str(a.args[0])
                if nm not in seen:
                    seen.add(nm)
                    op = A.op_lookup(nm)
                    if op:
                        for ps in op[2]:
                            r = rounded(ps, seen)
                            if r:
                                return r
    return None


def decoys(it, gen, kw):
    """other kernels of the same generator, with other values, arrays, precision, size and options: none may affect ours"""
    def other(v):
        if isinstance(v, A.Arr):
            return symarr("other_" + (v.base.name or "array"), v.shape, v.dtype)
        if isinstance(v, cas.Expr):
            return cas.sym("other_scalar", False, True)
        return v

    def retype(v, real):
        if isinstance(v, A.Arr):
            return symarr("other_" + (v.base.name or "array"), v.shape,
                          real if not v.cplx else A.TO_COMPLEX[real])
        return v
    alts = [{k: other(v) for k, v in kw.items() if k not in ("real_t", "num_threads", "fixed_grid_size")}]
    if kw.get("real_t") is not None:
        r2 = F32 if kw["real_t"].name == "float64" else F64
        alts.append(dict({k: retype(v, r2.name) for k, v in kw.items()}, real_t=r2))
    for k, v in kw.items():
        if k == "fixed_grid_size":
            alts.append({k: False if v else (5, 6, 7)[:2 if "_2d" in str(getattr(gen, "name", "")) else 3]})
            if v:
                alts.append({k: tuple(v)[::-1]})
        elif k == "field_type":
            alts.append({k: "scalar" if v == "vector" else "vector"})
        elif k == "filter_type":
            alts.append({k: "convolution" if v == "multiplicative" else "multiplicative"})
        elif k in ("width", "filter_order") and isinstance(v, int):
            alts.append({k: v + 1})
        elif isinstance(v, bool) and k not in ("num_threads",):
            alts.append({k: not v})
    every = {}
    for a in alts:
        every.update(a)
    for a in [every] + alts:
        try:
            it.call(gen, [], dict(kw, **a))
        except (AbsRaise, A.Unsupported):
            pass


class Outcome:
    def __init__(self, conds, env, res, before, events, it):
        self.conds, self.env, self.res, self.before, self.events, self.it = conds, env, res, before, events, it
        self.raised = res if isinstance(res, AbsRaise) else None


def run_op(rep, op, real=F64, threads=False, fixed=False, gkw=None, shape=None, prep=None, warm=False):
    """all paths of generating + calling op; yields Outcome"""
    def fn(it):
        gen = anchor(it, op.module, op.gen)
        env = Env(op, real.name, shape)
        fn.env = env
        if prep:
            prep(env)
        kw = dict(op.gkw)
        kw.update(env.gkw)
        kw.update(gkw or {})
        kw["real_t"] = real
        kw["num_threads"] = threads
        if not op.nofixed:
            kw["fixed_grid_size"] = tuple(env.shape) if fixed else False
        fn.before = {n: a.base.snapshot() for n, a in env.arr.items()}
        if warm:
            decoys(it, gen, kw)
        k = it.call(gen, [], kw)
        if warm:
            decoys(it, gen, kw)
            from .stencil import warm_args
            it.call(k, [], warm_args(env))
        it.call(k, [], env.kw)
        return env
    for conds, it, r in run_paths(fn):
        if isinstance(r, AbsRaise):
            o = Outcome(conds, fn.env, r, fn.before, list(it.events), it)
        else:
            o = Outcome(conds, r, None, fn.before, list(it.events), it)
        rep.absorb(it)
        yield o


def label(op, real, threads, fixed, extra=""):
    return "%s[%s,threads=%s,%s%s]" % (op.key, real.name, threads, "fixed_size" if fixed else "generic", extra)


def classify(env, arr, box, g):
    """'interior' when the box lies in [g, n-g) along every grid axis"""
    off = 1 if arr.nd == env.dim + 1 and not arr.cplx else 0
    for d in range(env.dim):
        lo, hi = box[d + off]
        if not (try_le(g, lo) and try_le(hi, env.shape[d] - g)):
            return "ghost"
    return "interior"


def alt_wants(op, env):
    """acceptable expected contents (ties of the upwind test may go either way)"""
    try:
        return [op.want(env, tie=0), op.want(env, tie=1)]
    except TypeError:
        return [op.want(env)]


def judge(op, o):
    """mismatches of the documented outputs: list of (array name, class, box, got, want, prov)"""
    best = None
    for wants in alt_wants(op, o.env):
        out = []
        for n, w in wants.items():
            arr = o.env.arr[n]
            # the expected content is expressed in the initial symbols
            for d in diff_pieces(arr.base.pieces, w.pieces, o.conds):
                out.append((n, classify(o.env, arr, d[0], op.ghost)) + d)
        if best is None or len(out) < len(best):
            best = out
        if not out:
            return []
    return best
