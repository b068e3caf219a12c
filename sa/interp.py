"""Abstract interpreter for the Python sources of /repo (parsed, never run).

Native Python values stand for program constants (constant propagation); `Expr`
stands for unknown scalars, `Arr` for arrays.  Floats are exact rationals.
"""
import ast
import os
from fractions import Fraction

from . import cas
from .arrays import (AbsRaise, Arr, CVal, Ctx, SliceV, Unsupported, as_arr, assign, broadcast_to, copy,
                     ewise, getitem, join_parts, part, promote, setitem, COMPLEX, TO_COMPLEX, is_complex)
from .bounds import FACTS, SYM_LB, Undecidable, le, try_le
from .cas import E, Expr, ONE, ZERO, const

REPO = os.environ.get("SOPHT_REPO", "/repo")


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Scope:
    __slots__ = ("vars", "parent", "globals_", "nonlocals", "gnames", "func")

    def __init__(self, parent=None, globals_=None, func=None):
        self.vars = {}
        self.parent = parent
        self.globals_ = globals_ if globals_ is not None else self
        self.nonlocals = set()
        self.gnames = set()
        self.func = func

    def lookup(self, n):
        s = self
        if n in self.gnames:
            s = self.globals_
        while s is not None:
            if n in s.vars:
                return s.vars[n]
            s = s.parent
        raise KeyError(n)

    def store(self, n, v):
        if n in self.gnames:
            self.globals_.vars[n] = v
            return
        if n in self.nonlocals:
            s = self.parent
            while s is not None:
                if n in s.vars:
                    s.vars[n] = v
                    return
                s = s.parent
        self.vars[n] = v


class Module:
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.scope = Scope()

    def getattr(self, n):
        if n in self.scope.vars:
            return self.scope.vars[n]
        raise KeyError(n)


class Func:
    def __init__(self, node, scope, module, defaults, kwdefaults, name, cls=None):
        self.node = node
        self.scope = scope
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.cls = cls
        self.is_gen = None
        self.static = False
        self.classm = False
        self.attrs = {}

    @property
    def where(self):
        return "%s:%s" % (self.module.path or self.module.name, self.name)

    def __repr__(self):
        return "<func %s>" % self.where


class Bound:
    def __init__(self, f, self_):
        self.f = f
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.f is self.f and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.f), id(self.self_)))


class Cls:
    def __init__(self, name, bases, ns, module):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module

    def mro_get(self, n):
        if n in self.ns:
            return self.ns[n], self
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.mro_get(n)
                if r is not None:
                    return r
        return None

    def is_sub(self, o):
        return self is o or any(isinstance(b, Cls) and b.is_sub(o) for b in self.bases)

    def __repr__(self):
        return "<class %s>" % self.name


class Inst:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return "<inst %s>" % self.cls.name


class Prop:
    def __init__(self, fget):
        self.fget = fget
        self.fset = None


class DT:
    """numpy scalar type / dtype"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "dtype(%s)" % self.name

    def __eq__(self, o):
        return isinstance(o, DT) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class PyType:
    """builtin python type"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<type %s>" % self.name


class ModelFn:
    def __init__(self, name, f, interp=False):
        self.name = name
        self.f = f
        self.interp = interp

    def __repr__(self):
        return "<model %s>" % self.name


class Obj:
    """model object with python-side attributes"""
    tname = "object"

    def getattr(self, it, n):
        raise KeyError(n)

    def setattr(self, it, n, v):
        raise Unsupported("set attribute %s of %s" % (n, self.tname))


class ModelModule(Obj):
    def __init__(self, name, attrs):
        self.name = name
        self.attrs = attrs
        self.tname = "module " + name

    def getattr(self, it, n):
        if n in self.attrs:
            return self.attrs[n]
        raise KeyError(n)


class OpaqueModule(Obj):
    def __init__(self, name):
        self.name = name
        self.tname = "module " + name

    def getattr(self, it, n):
        return OpaqueModule(self.name + "." + n)


class ExcType:
    def __init__(self, name, base=None):
        self.name = name
        self.base = base

    def is_sub(self, o):
        t = self
        while t is not None:
            if t is o:
                return True
            t = t.base
        return False


class ExcVal:
    def __init__(self, typ, args):
        self.typ = typ
        self.args = args


EXC = {}


def _exc(n, b=None):
    EXC[n] = ExcType(n, EXC.get(b))


for n, b in [("BaseException", None), ("Exception", "BaseException"), ("ArithmeticError", "Exception"),
             ("ZeroDivisionError", "ArithmeticError"), ("OverflowError", "ArithmeticError"),
             ("FloatingPointError", "ArithmeticError"),
             ("AssertionError", "Exception"), ("AttributeError", "Exception"),
             ("LookupError", "Exception"), ("IndexError", "LookupError"), ("KeyError", "LookupError"),
             ("NameError", "Exception"), ("UnboundLocalError", "NameError"), ("RuntimeError", "Exception"),
             ("NotImplementedError", "RuntimeError"), ("RecursionError", "RuntimeError"),
             ("StopIteration", "Exception"), ("TypeError", "Exception"), ("ValueError", "Exception"),
             ("OSError", "Exception"), ("IOError", "Exception"), ("FileNotFoundError", "OSError"),
             ("FileExistsError", "OSError"), ("PermissionError", "OSError"),
             ("ImportError", "Exception"), ("ModuleNotFoundError", "ImportError"),
             ("Warning", "Exception"), ("UserWarning", "Warning"), ("DeprecationWarning", "Warning"),
             ("RuntimeWarning", "Warning"), ("FutureWarning", "Warning"), ("LinAlgError", "Exception")]:
    _exc(n, b)


class Poison:
    """value of a variable left over from another iteration of a symbolic loop"""


class SymRange:
    par = False

    def __init__(self, lo, hi):
        self.lo, self.hi = E(lo), E(hi)


class PathLimit(Unsupported):
    pass


TOKENS = {}
TOKEN_OF = {}


def token(e):
    """string token standing for a formatted symbolic value"""
    k = e
    t = TOKEN_OF.get(k)
    if t is None:
        t = "\u27e6%d\u27e7" % len(TOKENS)
        TOKENS[t] = e
        TOKEN_OF[k] = t
    return t


def index_lists(i):
    """lists of integers used as an array index"""
    if isinstance(i, list):
        return as_arr(i, "int64") if all(isinstance(x, (int, Expr)) and not isinstance(x, bool) for x in i) else tuple(i)
    if isinstance(i, tuple) and any(isinstance(x, (list, tuple)) for x in i):
        if not all(isinstance(y, (int, Expr)) and not isinstance(y, bool) for x in i if isinstance(x, (list, tuple)) for y in x):
            raise Unsupported("list index")
        return tuple(as_arr(list(x), "int64") if isinstance(x, (list, tuple)) else x for x in i)
    return i


class Interp:
    MAX_STEPS = 3000000

    def __init__(self, models, repo=None):
        self.repo = repo or REPO
        self.models = models(self)
        self.modules = {}
        self.node_stack = []
        self.frames = []
        self.decisions = []
        self.dec_pos = 0
        self.path_conds = []
        self.kernel_mode = 0
        self.kernel_sink = None
        self.new_hook = None
        self.funcs_seen = set()
        self.steps = 0
        self.events = []
        self.loop_depth = 0
        self.warn = []
        Ctx.where = staticmethod(self.where)
        Ctx.events = self.events

    # ------------------------------------------------------------ positions
    def where(self):
        for fr, node in reversed(self.frames):
            n = node[0]
            if n is not None:
                p = fr.module.path or fr.module.name
                if p.startswith(self.repo):
                    p = os.path.relpath(p, self.repo)
                return "%s:%d (%s)" % (p, n.lineno, fr.name)
        return "?"

    def stack_str(self):
        out = []
        for fr, node in self.frames:
            n = node[0]
            p = fr.module.path or fr.module.name
            if p.startswith(self.repo):
                p = os.path.relpath(p, self.repo)
            out.append("%s:%d(%s)" % (p, n.lineno if n is not None else 0, fr.name))
        return " > ".join(out)

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        parts_ = name.split(".")
        if len(parts_) > 1:
            self.load(".".join(parts_[:-1]))
            if name in self.modules:
                return self.modules[name]
        base = os.path.join(self.repo, *parts_)
        if os.path.isdir(base):
            path = os.path.join(base, "__init__.py")
            pkg = True
        else:
            path = base + ".py"
            pkg = False
        if not os.path.isfile(path):
            if pkg:
                m = Module(name, base)
                self.modules[name] = m
                return m
            raise AbsRaise("ModuleNotFoundError", "No module named %r" % name, self.where())
        m = Module(name, path)
        m.is_pkg = pkg
        self.modules[name] = m
        with open(path) as f:
            src = f.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AbsRaise("SyntaxError", str(e), path)
        m.scope.vars["__name__"] = name
        m.scope.vars["__file__"] = path
        fr = Func(None, m.scope, m, [], {}, "<module>")
        self.frames.append((fr, [None]))
        try:
            self.exec_block(tree.body, m.scope)
        finally:
            self.frames.pop()
        if len(parts_) > 1:
            self.modules[".".join(parts_[:-1])].scope.vars.setdefault(parts_[-1], m)
        return m

    def import_module(self, name):
        if name == "sopht" or name.startswith("sopht."):
            return self.load(name)
        m = self.models.module(name)
        if m is None:
            return OpaqueModule(name)
        return m

    # ------------------------------------------------------------ decisions
    def decide(self, cond, what=""):
        """unknown branch condition: explore both outcomes (path enumeration)."""
        for c, v in self.path_conds:
            if c == cond:
                return v
            if isinstance(c, Expr) and isinstance(cond, Expr) and (ONE - c) == cond:
                return not v
        if self.dec_pos < len(self.decisions):
            v = self.decisions[self.dec_pos]
        else:
            v = True
            self.decisions.append(v)
        self.dec_pos += 1
        if len(self.decisions) > 40:
            raise PathLimit("too many undecided branches")
        self.path_conds.append((cond, v))
        if isinstance(cond, Expr):
            self.learn(cond, v)
        return v

    def learn(self, cond, v):
        """what the outcome of a branch on a size says about that size"""
        if cond.t.get((), 0) == 1:
            cond, v = ONE - cond, not v
        if len(cond.t) != 1:
            return
        (m, c), = cond.t.items()
        if c != 1 or not m or any(x != 1 for _, x in m) or (len(m) > 1 and not v):
            return
        for a, _ in m:
            if a.kind not in ("pos", "zero"):
                continue
            x = a.args[0]
            ats = x.atoms()
            if not ats or not all(y.kind == "sym" and y.integer and y.nonneg and str(y.args[0]) in SYM_LB for y in ats):
                continue
            if a.kind == "pos":
                FACTS.append((x - 1 if cas.is_integer(x) else x) if v else -x)
            elif v:
                FACTS.append(x)
                FACTS.append(-x)

    def truth(self, v):
        if isinstance(v, (bool, int, Fraction, str, tuple, list, dict, set, frozenset)) or v is None:
            return bool(v)
        if isinstance(v, Expr):
            if v.is_const:
                return v.value != 0
            if any(a.kind == "ref" and str(a.args[0]).startswith("@F") or
                   a.kind == "sym" and str(a.args[0]).startswith("$") for a in v.all_atoms()):
                raise AbsRaise("TypeError", "cannot determine truth value of Relational", self.where())
            if all(a.kind in ("pos", "zero") or (a.kind == "sym" and str(a.args[0]).startswith("?"))
                   for a in v.atoms()):
                return self.decide(v)
            # numeric truthiness
            s = cas.sign_of(v)
            if s in (1, -1):
                return True
            if cas.is_integer(v) and (try_le(ONE, v) or try_le(v, -ONE)):
                return True
            return self.decide(ONE - cas.zero(v))
        if isinstance(v, Arr):
            if v.nd == 0 or all(s == ONE for s in v.shape):
                return self.truth(self.scalar_of(v))
            raise AbsRaise("ValueError", "truth value of an array is ambiguous", self.where())
        if isinstance(v, Inst):
            for n in ("__bool__", "__len__"):
                r = v.cls.mro_get(n)
                if r:
                    return self.truth(self.call(Bound(r[0], v), [], {}))
            return True
        if isinstance(v, Obj) and hasattr(v, "truth"):
            return self.truth(v.truth(self))
        if isinstance(v, SymRange):
            return self.truth(self.compare_vals(ast.Lt(), v.lo, v.hi))
        return True

    def scalar_of(self, a):
        ps = a.pieces()
        if len(ps) != 1:
            raise Unsupported("0-d array with several pieces")
        e = cas.subst(ps[0][1], {cas.mk_atom("idx", (d,), True, True): ZERO for d in range(a.nd)})
        if e.is_const and a.dtype in ("bool", "int64", "int32", "int16", "int8"):
            return int(e.value)
        return e

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, ModelFn):
            return f.f(self, *args, **kwargs) if f.interp else f.f(*args, **kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.f, (Func,)):
                return self.call_func(f.f, [f.self_] + list(args), kwargs)
            return self.call(f.f, [f.self_] + list(args), kwargs)
        if isinstance(f, Cls):
            if any(isinstance(b, ExcType) for b in f.bases):
                return ExcVal(f, args)
            r = f.mro_get("__new__")
            inst = Inst(f)
            if hasattr(f, "fields") and f.mro_get("__init__") is None:
                self.dataclass_init(f, inst, args, kwargs)
                return inst
            init = f.mro_get("__init__")
            if init is not None:
                self.call(Bound(init[0], inst), args, kwargs)
            elif args or kwargs:
                raise AbsRaise("TypeError", "%s() takes no arguments" % f.name, self.where())
            if self.new_hook is not None:
                self.new_hook(self, inst)
            return inst
        if isinstance(f, DT):
            return self.models.cast_scalar(f, *args)
        if isinstance(f, PyType):
            return self.models.py_type_call(f, args, kwargs)
        if isinstance(f, ExcType):
            return ExcVal(f, args)
        if isinstance(f, Inst):
            r = f.cls.mro_get("__call__")
            if r:
                return self.call(Bound(r[0], f), args, kwargs)
            raise AbsRaise("TypeError", "%s object is not callable" % f.cls.name, self.where())
        if isinstance(f, Obj):
            if hasattr(f, "call"):
                return f.call(self, *args, **kwargs)
            raise Unsupported("call of %s" % f.tname)
        if f is None or isinstance(f, (int, Fraction, str, list, tuple, dict, Expr, Arr)):
            raise AbsRaise("TypeError", "%s object is not callable" % type(f).__name__, self.where())
        if callable(f):
            return f(*args, **kwargs)
        raise Unsupported("call of %r" % (f,))

    def dataclass_init(self, c, inst, args, kwargs):
        flds = c.fields
        args = list(args)
        for n, default in flds:
            if args:
                inst.attrs[n] = args.pop(0)
            elif n in kwargs:
                inst.attrs[n] = kwargs.pop(n)
            elif default is not None:
                inst.attrs[n] = default[0]
            else:
                raise AbsRaise("TypeError", "missing argument " + n, self.where())
        post = c.mro_get("__post_init__")
        if post:
            self.call(Bound(post[0], inst), [], {})

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        n = len(names)
        for i, v in enumerate(args[:n]):
            out[names[i]] = v
        if len(args) > n:
            if a.vararg:
                out[a.vararg.arg] = tuple(args[n:])
            else:
                raise AbsRaise("TypeError", "%s() takes %d positional arguments but %d were given"
                               % (f.name, n, len(args)), self.where())
        elif a.vararg:
            out[a.vararg.arg] = ()
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        extra = {}
        for k, v in kwargs.items():
            if k in names and k not in posonly:
                if k in out:
                    raise AbsRaise("TypeError", "%s() got multiple values for argument %r" % (f.name, k), self.where())
                out[k] = v
            elif k in kwonly:
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise AbsRaise("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, k), self.where())
        nd = len(f.defaults)
        for i, nm in enumerate(names):
            if nm not in out:
                j = i - (n - nd)
                if j >= 0:
                    out[nm] = f.defaults[j]
                else:
                    raise AbsRaise("TypeError", "%s() missing required argument %r" % (f.name, nm), self.where())
        for nm in kwonly:
            if nm not in out:
                if nm in f.kwdefaults:
                    out[nm] = f.kwdefaults[nm]
                else:
                    raise AbsRaise("TypeError", "%s() missing keyword-only argument %r" % (f.name, nm), self.where())
        if a.kwarg:
            out[a.kwarg.arg] = extra
        return out

    def call_func(self, f, args, kwargs, sink=None):
        if len(self.frames) > 200:
            raise Unsupported("recursion too deep")
        bound = self.bind(f, args, kwargs)
        sc = Scope(f.scope, f.module.scope, f)
        sc.vars.update(bound)
        node = f.node
        self.funcs_seen.add(f.where)
        if isinstance(node, ast.Lambda):
            self.frames.append((f, [node.body]))
            km = self.kernel_mode
            self.kernel_mode = 0
            try:
                return self.eval(node.body, sc)
            finally:
                self.kernel_mode = km
                self.frames.pop()
        if f.is_gen is None:
            f.is_gen = _has_yield(node)
            f.locals_ = _assigned(node)
        self.frames.append((f, [None]))
        km = self.kernel_mode
        self.kernel_mode = 1 if sink is not None else 0
        old_sink = self.kernel_sink
        self.kernel_sink = sink
        if f.is_gen:
            sc.vars["$yield"] = []
        try:
            self.exec_block(node.body, sc)
        except ReturnEx as r:
            if f.is_gen:
                return GenList(sc.vars["$yield"])
            return r.v
        finally:
            self.kernel_mode = km
            self.kernel_sink = old_sink
            self.frames.pop()
        if f.is_gen:
            return GenList(sc.vars["$yield"])
        return None

    # ------------------------------------------------------------ statements
    def exec_block(self, body, sc):
        for st in body:
            self.exec(st, sc)

    def exec(self, st, sc):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unsupported("step limit")
        self.frames[-1][1][0] = st
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (type(st).__name__, self.where()))
        return m(st, sc)

    def x_Expr(self, st, sc):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, sc)

    def x_Pass(self, st, sc):
        pass

    def x_Global(self, st, sc):
        sc.gnames.update(st.names)

    def x_Nonlocal(self, st, sc):
        sc.nonlocals.update(st.names)

    def x_Return(self, st, sc):
        raise ReturnEx(self.eval(st.value, sc) if st.value is not None else None)

    def x_Break(self, st, sc):
        raise BreakEx()

    def x_Continue(self, st, sc):
        raise ContinueEx()

    def x_Import(self, st, sc):
        for al in st.names:
            m = self.import_module(al.name)
            if al.asname:
                sc.store(al.asname, m)
            else:
                sc.store(al.name.split(".")[0], self.import_module(al.name.split(".")[0]))

    def x_ImportFrom(self, st, sc):
        mod = st.module or ""
        if st.level:
            cur = sc.globals_.vars.get("__name__")
            m = self.modules[cur]
            parts_ = cur.split(".")
            if not getattr(m, "is_pkg", False):
                parts_ = parts_[:-1]
            if st.level > 1:
                parts_ = parts_[:-(st.level - 1)]
            mod = ".".join(parts_ + ([mod] if mod else []))
        if mod == "__future__":
            return
        m = self.import_module(mod)
        for al in st.names:
            if al.name == "*":
                if isinstance(m, Module):
                    names = m.scope.vars.get("__all__")
                    if names is None:
                        names = [k for k in m.scope.vars if not k.startswith("_")]
                    for k in names:
                        sc.store(k, m.scope.vars[k])
                elif isinstance(m, ModelModule):
                    for k, v in m.attrs.items():
                        sc.store(k, v)
                continue
            v = None
            if isinstance(m, Module):
                if al.name in m.scope.vars:
                    v = m.scope.vars[al.name]
                else:
                    sub = os.path.join(self.repo, *(mod.split(".") + [al.name]))
                    if os.path.exists(sub) or os.path.exists(sub + ".py"):
                        v = self.load(mod + "." + al.name)
                    else:
                        raise AbsRaise("ImportError", "cannot import name %r from %r" % (al.name, mod), self.where())
            else:
                v = self.getattr(m, al.name)
            sc.store(al.asname or al.name, v)

    def x_FunctionDef(self, st, sc):
        f = self.make_func(st, sc, st.name)
        v = f
        for d in reversed(st.decorator_list):
            dec = self.eval(d, sc)
            v = self.call(dec, [v], {})
        sc.store(st.name, v)

    def make_func(self, st, sc, name):
        a = st.args
        defaults = [self.eval(d, sc) for d in a.defaults]
        kwd = {x.arg: self.eval(d, sc) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        mod = self.frames[-1][0].module
        # class bodies are not enclosing scopes for functions
        s = sc
        while isinstance(s, ClassScope):
            s = s.parent
        return Func(st, s, mod, defaults, kwd, name)

    def x_ClassDef(self, st, sc):
        bases = [self.eval(b, sc) for b in st.bases]
        cs = ClassScope(sc, sc.globals_)
        ann = []
        for b in st.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                dv = None
                if b.value is not None:
                    dv = (self.eval(b.value, cs),)
                    cs.store(b.target.id, dv[0])
                ann.append((b.target.id, dv))
            else:
                self.exec(b, cs)
        c = Cls(st.name, bases, cs.vars, self.frames[-1][0].module)
        for v in cs.vars.values():
            if isinstance(v, Func):
                v.cls = c
        c.ann = ann
        v = c
        for d in reversed(st.decorator_list):
            dec = self.eval(d, sc)
            v = self.call(dec, [v], {})
        sc.store(st.name, v)

    def x_Assign(self, st, sc):
        v = self.eval(st.value, sc)
        for t in st.targets:
            self.assign_to(t, v, sc)

    def x_AnnAssign(self, st, sc):
        if st.value is not None:
            self.assign_to(st.target, self.eval(st.value, sc), sc)

    def x_AugAssign(self, st, sc):
        if self.kernel_mode:
            # pystencils: every augmented assignment is a kernel assignment
            tgt = self.eval_target_as_value(st.target, sc)
            v = self.eval(st.value, sc)
            self.kernel_sink.append((tgt, v, self.where()))
            return
        if isinstance(st.target, ast.Name):
            cur = self.name(st.target.id, sc)
            v = self.eval(st.value, sc)
            sc.store(st.target.id, self.inplace(st.op, cur, v))
        elif isinstance(st.target, ast.Subscript):
            o = self.eval(st.target.value, sc)
            i = self.index(st.target.slice, sc)
            v = self.eval(st.value, sc)
            if isinstance(o, Arr):
                i = index_lists(i)
                cur = self.subscript(o, i)
                if isinstance(cur, Arr) and not isinstance(i, Arr) and not (
                        isinstance(i, tuple) and any(isinstance(x, Arr) for x in i)):
                    tgt = getitem(o, i)
                    res = self.binop(st.op, cur, v)
                    assign(tgt, res)
                else:
                    res = self.binop(st.op, cur, v)
                    if not isinstance(i, Arr) and not (isinstance(i, tuple) and any(isinstance(x, Arr) for x in i)):
                        assign(getitem(o, i), res)
                    else:
                        setitem(o, i, res)
            else:
                cur = self.subscript(o, i)
                self.set_subscript(o, i, self.inplace(st.op, cur, v))
        elif isinstance(st.target, ast.Attribute):
            o = self.eval(st.target.value, sc)
            cur = self.getattr(o, st.target.attr)
            v = self.eval(st.value, sc)
            self.setattr(o, st.target.attr, self.inplace(st.op, cur, v))
        else:
            raise Unsupported("augmented assignment target")

    def parallel_loop(self, rng):
        """is the loop over rng executed by several threads?"""
        return rng.par and getattr(self, "parallel", 0) > 0

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr) and cur.nd >= 0 and not getattr(cur, "scalar", False):
            r = self.binop(op, cur, v)
            if isinstance(r, Arr) and r.shape != cur.shape:
                raise AbsRaise("ValueError", "non-broadcastable output operand", self.where())
            assign(cur, r)
            return cur
        if isinstance(cur, list) and isinstance(op, ast.Add):
            cur.extend(self.iterate(v))
            return cur
        if isinstance(cur, set) and isinstance(op, ast.BitOr):
            cur |= v
            return cur
        if isinstance(cur, dict) and isinstance(op, ast.BitOr):
            cur.update(v)
            return cur
        return self.binop(op, cur, v)

    def eval_target_as_value(self, t, sc):
        if isinstance(t, ast.Name):
            return self.name(t.id, sc)
        return self.eval(t, sc)

    def assign_to(self, t, v, sc):
        if isinstance(t, ast.Name):
            sc.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.iterate(v)
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                for x, y in zip(t.elts[:k], vals[:k]):
                    self.assign_to(x, y, sc)
                self.assign_to(t.elts[k].value, list(vals[k:len(vals) - after]), sc)
                for x, y in zip(t.elts[k + 1:], vals[len(vals) - after:]):
                    self.assign_to(x, y, sc)
                return
            if len(vals) != len(t.elts):
                raise AbsRaise("ValueError", "cannot unpack %d values into %d" % (len(vals), len(t.elts)), self.where())
            for x, y in zip(t.elts, vals):
                self.assign_to(x, y, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            self.set_subscript(o, self.index(t.slice, sc), v)
        else:
            raise Unsupported("assignment target")

    def set_subscript(self, o, i, v):
        if isinstance(o, Arr):
            setitem(o, index_lists(i), v)
        elif isinstance(o, (dict,)):
            o[self.hashable(i)] = v
        elif isinstance(o, list):
            if isinstance(i, SliceV):
                o[slice(_ni(i.start), _ni(i.stop), _ni(i.step))] = list(self.iterate(v))
                return
            i = _int(i)
            try:
                o[i] = v
            except IndexError:
                raise AbsRaise("IndexError", "list assignment index out of range", self.where())
        elif isinstance(o, Obj) and hasattr(o, "setitem"):
            o.setitem(self, i, v)
        elif isinstance(o, Inst):
            r = o.cls.mro_get("__setitem__")
            if r is None:
                raise AbsRaise("TypeError", "object does not support item assignment", self.where())
            self.call(Bound(r[0], o), [i, v], {})
        elif isinstance(o, (tuple, str)):
            raise AbsRaise("TypeError", "object does not support item assignment", self.where())
        else:
            raise Unsupported("item assignment on %r" % type(o).__name__)

    def hashable(self, k):
        return k

    def x_Delete(self, st, sc):
        for t in st.targets:
            if isinstance(t, ast.Name):
                sc.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, sc)
                i = self.index(t.slice, sc)
                if isinstance(o, dict):
                    if i not in o:
                        raise AbsRaise("KeyError", str(i), self.where())
                    del o[i]
                elif isinstance(o, list):
                    del o[_int(i)]
                elif isinstance(o, Obj) and hasattr(o, "delitem"):
                    o.delitem(self, i)
                else:
                    raise Unsupported("del item")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, sc)
                if isinstance(o, Inst):
                    o.attrs.pop(t.attr, None)
                else:
                    raise Unsupported("del attribute")

    def x_If(self, st, sc):
        c = self.truth(self.eval(st.test, sc))
        self.exec_block(st.body if c else st.orelse, sc)

    def x_Assert(self, st, sc):
        c = self.truth(self.eval(st.test, sc))
        if not c:
            self.frames[-1][1][0] = st
            raise AbsRaise("AssertionError", "assert", self.where())

    def x_Raise(self, st, sc):
        if st.exc is None:
            raise getattr(self, "cur_exc", None) or AbsRaise("RuntimeError", "re-raise", self.where())
        v = self.eval(st.exc, sc)
        w = self.where()
        if isinstance(v, ExcVal):
            ex = AbsRaise(v.typ.name, v.args[0] if v.args and isinstance(v.args[0], str) else "", w)
            ex.typ = v.typ
            ex.val = v
        elif isinstance(v, (ExcType, Cls)):
            ex = AbsRaise(v.name, "", w)
            ex.typ = v
        else:
            raise Unsupported("raise %r" % (v,))
        raise ex

    def exc_matches(self, ex, t):
        typ = getattr(ex, "typ", None) or EXC.get(ex.exc_type)
        if isinstance(t, tuple):
            return any(self.exc_matches(ex, x) for x in t)
        if isinstance(t, ExcType):
            if isinstance(typ, ExcType):
                return typ.is_sub(t)
            if isinstance(typ, Cls):
                return any(isinstance(b, ExcType) and b.is_sub(t) for b in typ.bases)
            return t.name in ("Exception", "BaseException")
        if isinstance(t, Cls):
            return isinstance(typ, Cls) and typ.is_sub(t)
        if isinstance(t, OpaqueModule):
            return False
        raise Unsupported("except type %r" % (t,))

    def x_Try(self, st, sc):
        try:
            try:
                self.exec_block(st.body, sc)
            except AbsRaise as ex:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(ex, self.eval(h.type, sc)):
                        if h.name:
                            sc.store(h.name, getattr(ex, "val", None) or ExcVal(
                                EXC.get(ex.exc_type, EXC["Exception"]), [ex.msg]))
                        old = getattr(self, "cur_exc", None)
                        self.cur_exc = ex
                        try:
                            self.exec_block(h.body, sc)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, sc)
        finally:
            self.exec_block(st.finalbody, sc)

    def x_With(self, st, sc):
        mgrs = []
        for item in st.items:
            m = self.eval(item.context_expr, sc)
            v = self.enter(m)
            mgrs.append(m)
            if item.optional_vars is not None:
                self.assign_to(item.optional_vars, v, sc)
        try:
            self.exec_block(st.body, sc)
        finally:
            for m in reversed(mgrs):
                self.exit_(m)

    def enter(self, m):
        if isinstance(m, Obj):
            if hasattr(m, "enter"):
                return m.enter(self)
            return m
        if isinstance(m, Inst):
            r = m.cls.mro_get("__enter__")
            if r:
                return self.call(Bound(r[0], m), [], {})
        if isinstance(m, GenList):
            return m[0] if m else None
        raise Unsupported("with %r" % (m,))

    def exit_(self, m):
        if isinstance(m, Obj) and hasattr(m, "exit"):
            m.exit(self)
        elif isinstance(m, Inst):
            r = m.cls.mro_get("__exit__")
            if r:
                self.call(Bound(r[0], m), [None, None, None], {})

    def x_While(self, st, sc):
        n = 0
        broke = False
        while self.truth(self.eval(st.test, sc)):
            n += 1
            if n > 10000:
                raise Unsupported("while loop bound")
            try:
                self.exec_block(st.body, sc)
            except BreakEx:
                broke = True
                break
            except ContinueEx:
                continue
        if not broke:
            self.exec_block(st.orelse, sc)

    def x_For(self, st, sc):
        it = self.eval(st.iter, sc)
        from .loops import sym_iterable, symbolic_for
        s = sym_iterable(self, it)
        if s is not None:
            symbolic_for(self, st, sc, s)
            return
        vals = self.iterate(it)
        broke = False
        for v in vals:
            self.assign_to(st.target, v, sc)
            try:
                self.exec_block(st.body, sc)
            except BreakEx:
                broke = True
                break
            except ContinueEx:
                continue
        if not broke:
            self.exec_block(st.orelse, sc)

    def x_Match(self, st, sc):
        subj = self.eval(st.subject, sc)
        for case in st.cases:
            p = case.pattern
            ok, binds = self.match(p, subj, sc)
            if ok:
                for k, v in binds.items():
                    sc.store(k, v)
                if case.guard is None or self.truth(self.eval(case.guard, sc)):
                    self.exec_block(case.body, sc)
                    return

    def match(self, p, v, sc):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare_vals(ast.Eq(), v, self.eval(p.value, sc))), {}
        if isinstance(p, ast.MatchSingleton):
            return v is p.value, {}
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return True, ({p.name: v} if p.name else {})
            ok, b = self.match(p.pattern, v, sc)
            if ok and p.name:
                b[p.name] = v
            return ok, b
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                ok, b = self.match(q, v, sc)
                if ok:
                    return ok, b
            return False, {}
        raise Unsupported("match pattern")

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (set, frozenset, range)):
            return sorted(v, key=repr) if not isinstance(v, range) else list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            if v.nd == 0:
                raise AbsRaise("TypeError", "iteration over a 0-d array", self.where())
            n = v.shape[0]
            if not n.is_const:
                raise Undecidable("iteration over an array of symbolic length")
            return [self.subscript(v, k) for k in range(int(n.value))]
        if isinstance(v, SymRange):
            raise Undecidable("iteration over a symbolic range")
        if isinstance(v, Obj) and hasattr(v, "iter"):
            return list(v.iter(self))
        if isinstance(v, Inst):
            r = v.cls.mro_get("__iter__")
            if r:
                return self.iterate(self.call(Bound(r[0], v), [], {}))
            r = v.cls.mro_get("__getitem__")
        if isinstance(v, (int, Fraction, Expr)) or v is None:
            raise AbsRaise("TypeError", "object is not iterable", self.where())
        raise Unsupported("iteration over %r" % (v,))

    # ------------------------------------------------------------ names & attrs
    def name(self, n, sc):
        try:
            v = sc.lookup(n)
        except KeyError:
            v = None
        else:
            if type(v) is Poison:
                raise Unsupported("value of %s carried between loop iterations" % n)
            return v
        b = self.models.builtins
        if n in b:
            return b[n]
        if n in EXC:
            return EXC[n]
        raise AbsRaise("NameError", "name %r is not defined" % n, self.where())

    def getattr(self, o, n):
        if isinstance(o, Module):
            try:
                return o.getattr(n)
            except KeyError:
                if n == "__name__":
                    return o.name
                sub = o.name + "." + n
                p = os.path.join(self.repo, *sub.split("."))
                if os.path.isdir(p) or os.path.isfile(p + ".py"):
                    return self.load(sub)
                raise AbsRaise("AttributeError", "module %s has no attribute %s" % (o.name, n), self.where())
        if isinstance(o, Inst):
            if n in o.attrs:
                return o.attrs[n]
            if n == "__class__":
                return o.cls
            if n == "__dict__":
                return o.attrs
            r = o.cls.mro_get(n)
            if r is not None:
                return self.bind_attr(r[0], o)
            r = o.cls.mro_get("__getattr__")
            if r is not None:
                return self.call(Bound(r[0], o), [n], {})
            raise AbsRaise("AttributeError", "%s object has no attribute %r" % (o.cls.name, n), self.where())
        if isinstance(o, Cls):
            r = o.mro_get(n)
            if r is not None:
                v = r[0]
                if isinstance(v, Func) and v.classm:
                    return Bound(v, o)
                return v
            if n == "__name__":
                return o.name
            raise AbsRaise("AttributeError", "class %s has no attribute %r" % (o.name, n), self.where())
        if isinstance(o, Obj):
            try:
                return o.getattr(self, n)
            except KeyError:
                raise AbsRaise("AttributeError", "%s has no attribute %r" % (o.tname, n), self.where()) \
                    if not isinstance(o, ModelModule) else Unsupported("%s.%s is not modelled" % (o.name, n))
        if isinstance(o, Super):
            for b in o.cls.bases:
                if isinstance(b, Cls):
                    r = b.mro_get(n)
                    if r is not None:
                        return self.bind_attr(r[0], o.inst)
            if n == "__init__":
                return ModelFn("object.__init__", lambda *a, **k: None)
            raise AbsRaise("AttributeError", "super object has no attribute %r" % n, self.where())
        if isinstance(o, Func):
            if n in ("__name__", "__qualname__"):
                return o.name
            if n == "__doc__":
                return None
            if n in o.attrs:
                return o.attrs[n]
            if n == "py_func":
                return o
            raise AbsRaise("AttributeError", "function has no attribute %r" % n, self.where())
        return self.models.value_attr(o, n)

    def bind_attr(self, v, o):
        if isinstance(v, Func):
            if v.static:
                return v
            if v.classm:
                return Bound(v, o.cls)
            return Bound(v, o)
        if isinstance(v, Prop):
            return self.call(v.fget, [o], {})
        if isinstance(v, ModelFn) and getattr(v, "methodlike", False):
            return Bound(v, o)
        return v

    def setattr(self, o, n, v):
        if getattr(self, "sym_depth", 0):
            raise Unsupported("attribute written in a symbolic loop")
        if isinstance(o, Inst):
            r = o.cls.mro_get(n)
            if r is not None and isinstance(r[0], Prop):
                if r[0].fset is None:
                    raise AbsRaise("AttributeError", "can't set attribute", self.where())
                self.call(r[0].fset, [o, v], {})
                return
            o.attrs[n] = v
        elif isinstance(o, Cls):
            o.ns[n] = v
        elif isinstance(o, Func):
            o.attrs[n] = v
        elif isinstance(o, Module):
            o.scope.vars[n] = v
        elif isinstance(o, Obj):
            o.setattr(self, n, v)
        elif isinstance(o, Arr):
            self.models.arr_setattr(o, n, v)
        else:
            raise Unsupported("set attribute on %r" % (o,))

    # ------------------------------------------------------------ expressions
    def eval(self, e, sc):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (type(e).__name__, self.where()))
        return m(e, sc)

    def e_Constant(self, e, sc):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return self.models.special_float(v)
            return cas.snap(v)
        if isinstance(v, complex):
            return CVal(cas.snap(v.real), cas.snap(v.imag))
        return v

    def e_Name(self, e, sc):
        if self.frames and e.id in getattr(self.frames[-1][0], "locals_", ()) and sc.func is self.frames[-1][0]:
            s = sc
            if e.id not in sc.vars and e.id not in sc.nonlocals and e.id not in sc.gnames:
                raise AbsRaise("UnboundLocalError", "local variable %r referenced before assignment" % e.id, self.where())
        return self.name(e.id, sc)

    def e_Attribute(self, e, sc):
        return self.getattr(self.eval(e.value, sc), e.attr)

    def e_Tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def e_List(self, e, sc):
        return self.elts(e.elts, sc)

    def e_Set(self, e, sc):
        return set(self.elts(e.elts, sc))

    def elts(self, es, sc):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.eval(x.value, sc))
            else:
                out.append(self.eval(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, sc))
            else:
                d[self.eval(k, sc)] = self.eval(v, sc)
        return d

    def e_JoinedStr(self, e, sc):
        return "".join(self.fmt_part(v, sc) for v in e.values)

    def fmt_part(self, v, sc):
        if isinstance(v, ast.Constant):
            return v.value
        return self.e_FormattedValue(v, sc)

    def e_FormattedValue(self, v, sc):
        x = self.eval(v.value, sc)
        spec = ""
        if v.format_spec is not None:
            spec = self.e_JoinedStr(v.format_spec, sc)
        if v.conversion == 114:
            return self.repr_(x)
        return self.format_(x, spec)

    def format_(self, x, spec=""):
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return format(x, spec) if x is not None else "None"
        if isinstance(x, int):
            return format(x, spec)
        if spec and isinstance(x, (Expr, Fraction)):
            return token(cas.fn("fmt:" + spec, E(x)))
        return self.str_(x)

    def str_(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, bool) or x is None:
            return str(x)
        if isinstance(x, int):
            return str(x)
        if isinstance(x, Fraction):
            f = float(x)
            return str(f)
        if isinstance(x, Expr):
            if x.is_const and x.value.denominator == 1 and cas.is_integer(x):
                return str(int(x.value))
            return token(x)
        if isinstance(x, tuple):
            return "(" + ", ".join(self.repr_(i) for i in x) + ("," if len(x) == 1 else "") + ")"
        if isinstance(x, list):
            return "[" + ", ".join(self.repr_(i) for i in x) + "]"
        if isinstance(x, ExcVal):
            return self.str_(x.args[0]) if x.args else ""
        if isinstance(x, DT):
            return x.name if getattr(x, "inst", False) else "<class 'numpy.%s'>" % x.name
        if isinstance(x, Arr):
            return token(cas.sym("str(%s)" % id(x)))
        if isinstance(x, Obj) and hasattr(x, "fmt"):
            return x.fmt()
        return "<%s>" % (type(x).__name__,)

    def repr_(self, x):
        if isinstance(x, str):
            return repr(x)
        return self.str_(x)

    def e_Lambda(self, e, sc):
        return self.make_func(e, sc, "<lambda>")

    def e_IfExp(self, e, sc):
        c = self.eval(e.test, sc)
        if self.kernel_mode and isinstance(c, Expr) and not c.is_const:
            a = self.eval(e.body, sc)
            b = self.eval(e.orelse, sc)
            return self.models.select(c, a, b)
        return self.eval(e.body if self.truth(c) else e.orelse, sc)

    def e_NamedExpr(self, e, sc):
        v = self.eval(e.value, sc)
        sc.store(e.target.id, v)
        return v

    def e_Starred(self, e, sc):
        raise Unsupported("starred expression")

    def e_BoolOp(self, e, sc):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, sc)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
        return v

    def e_UnaryOp(self, e, sc):
        v = self.eval(e.operand, sc)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Expr) and not v.is_const and all(a.kind in ("pos", "zero") for a in v.atoms()):
                return ONE - v
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr) and v.dtype == "bool":
                return ewise(lambda x: ONE - x, [v], "bool")
            if isinstance(v, Expr):
                return ONE - v
            if isinstance(v, int):
                return ~v
        raise Unsupported("unary op")

    def neg(self, v):
        if isinstance(v, (int, Fraction, Expr)):
            return -v
        if isinstance(v, Arr):
            return self.models.arr_binop("sub", 0, v)
        if isinstance(v, CVal):
            return CVal(-v.re, -v.im)
        if isinstance(v, Obj) and hasattr(v, "neg"):
            return v.neg(self)
        raise AbsRaise("TypeError", "bad operand type for unary -", self.where())

    def e_BinOp(self, e, sc):
        return self.binop(e.op, self.eval(e.left, sc), self.eval(e.right, sc))

    OPN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv",
           ast.Mod: "mod", ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or",
           ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift"}

    def binop(self, op, a, b):
        return self.models.binop(self.OPN[type(op)], a, b)

    def e_Compare(self, e, sc):
        left = self.eval(e.left, sc)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, sc)
            r = self.compare_vals(op, left, right)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return False
            res = True
            left = right
        return res

    def compare_vals(self, op, a, b):
        return self.models.compare(op, a, b)

    def e_Subscript(self, e, sc):
        return self.subscript(self.eval(e.value, sc), self.index(e.slice, sc))

    def index(self, s, sc):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x, sc) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out += self.iterate(self.eval(x.value, sc))
                else:
                    out.append(self.index(x, sc))
            return tuple(out)
        if type(s).__name__ == "Index":
            return self.index(s.value, sc)
        return self.eval(s, sc)

    def subscript(self, o, i):
        if isinstance(o, Arr):
            i = index_lists(i)
            r = getitem(o, i)
            if r.nd == 0 and not any(isinstance(x, Arr) for x in (i if isinstance(i, tuple) else (i,))):
                full = i if isinstance(i, tuple) else (i,)
                if Ellipsis in [x for x in full if not isinstance(x, Arr)]:
                    return r
                if r.cplx:
                    return CVal(self.scalar_of(part(r, 0)), self.scalar_of(part(r, 1)))
                return self.scalar_of(r)
            return r
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(i, SliceV):
                return o[slice(_ni(i.start), _ni(i.stop), _ni(i.step))]
            if isinstance(i, Arr):
                i = self.scalar_of(i)
            if isinstance(i, Expr) and not i.is_const:
                raise Undecidable("symbolic index into a sequence")
            if not isinstance(i, (int, Fraction, Expr)):
                raise AbsRaise("TypeError", "indices must be integers", self.where())
            try:
                return o[_int(i)]
            except IndexError:
                raise AbsRaise("IndexError", "index out of range", self.where())
        if isinstance(o, dict):
            try:
                if i in o:
                    return o[i]
            except TypeError:
                raise AbsRaise("TypeError", "unhashable type", self.where())
            df = getattr(o, "default_factory", None)
            if df is not None:
                v = self.call(df, [], {})
                o[i] = v
                return v
            raise AbsRaise("KeyError", str(i), self.where())
        if isinstance(o, Obj):
            if hasattr(o, "getitem"):
                return o.getitem(self, i)
            if isinstance(o, OpaqueModule):
                return o
            raise AbsRaise("TypeError", "%s is not subscriptable" % o.tname, self.where())
        if isinstance(o, Inst):
            r = o.cls.mro_get("__getitem__")
            if r:
                return self.call(Bound(r[0], o), [i], {})
        if isinstance(o, (PyType, Cls, DT)):
            return o
        if o is None or isinstance(o, (int, Fraction, Expr)):
            raise AbsRaise("TypeError", "object is not subscriptable", self.where())
        raise Unsupported("subscript of %r" % (o,))

    def e_Call(self, e, sc):
        f = self.eval(e.func, sc)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args += self.iterate(self.eval(x.value, sc))
            else:
                args.append(self.eval(x, sc))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, sc))
            else:
                kw[k.arg] = self.eval(k.value, sc)
        if isinstance(f, PyType) and f.name == "super":
            fr = self.frames[-1][0]
            if args:
                return Super(args[0], args[1])
            names = fr.node.args.args
            return Super(fr.cls, sc.lookup(names[0].arg))
        if isinstance(f, ModelFn) and f.name == "locals":
            return dict(sc.vars)
        return self.call(f, args, kw)

    def comp(self, gens, sc, fn_):
        def rec(k, s):
            if k == len(gens):
                fn_(s)
                return
            g = gens[k]
            for v in self.iterate(self.eval(g.iter, s if k else sc)):
                self.assign_to(g.target, v, s)
                if all(self.truth(self.eval(c, s)) for c in g.ifs):
                    rec(k + 1, s)
        s = Scope(sc, sc.globals_, None)
        rec(0, s)

    def e_ListComp(self, e, sc):
        out = []
        self.comp(e.generators, sc, lambda s: out.append(self.eval(e.elt, s)))
        return out

    def e_GeneratorExp(self, e, sc):
        return GenList(self.e_ListComp(e, sc))

    def e_SetComp(self, e, sc):
        return set(self.e_ListComp(e, sc))

    def e_DictComp(self, e, sc):
        out = {}

        def f(s):
            out[self.eval(e.key, s)] = self.eval(e.value, s)
        self.comp(e.generators, sc, f)
        return out

    def e_Yield(self, e, sc):
        v = self.eval(e.value, sc) if e.value is not None else None
        sc.lookup("$yield").append(v)
        return None

    def e_YieldFrom(self, e, sc):
        sc.lookup("$yield").extend(self.iterate(self.eval(e.value, sc)))
        return None

    def e_Slice(self, e, sc):
        return self.index(e, sc)


class ClassScope(Scope):
    pass


class GenList(list):
    """result of a generator, evaluated eagerly"""


class Super:
    def __init__(self, cls, inst):
        self.cls = cls
        self.inst = inst


def _ni(x):
    return None if x is None else _int(x)


def _int(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Expr):
        if x.is_const and x.value.denominator == 1:
            return int(x.value)
        raise Undecidable("symbolic integer where a constant is needed: %s" % x)
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    raise AbsRaise("TypeError", "integer expected")


def _has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


def _assigned(node):
    """names local to a function (assigned somewhere in its body)"""
    out = set()
    glob = set()
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        todo += list(ast.iter_child_nodes(n))
    return out - glob


def explore(run, reset=None, limit=64):
    """run(decisions) for every outcome of undecided branches.
    run returns (interp, result); yields (path_conds, interp, result)."""
    todo = [[]]
    n = 0
    while todo:
        pre = todo.pop()
        n += 1
        if n > limit:
            raise PathLimit("more than %d paths" % limit)
        it, res = run(list(pre))
        used = it.decisions[:it.dec_pos]
        for k in range(len(pre), len(used)):
            todo.append(used[:k] + [not used[k]])
        yield list(it.path_conds), it, res
