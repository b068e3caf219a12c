"""Check framework: obligations, verdicts, evidence, known findings."""
import itertools
import json
import os
import signal
import sys
import time
import traceback

from . import arrays as A
from . import bounds, cas
from .arrays import AbsRaise, Arr, Base, Unsupported
from .bounds import Undecidable
from .cas import E, Expr, ONE, ZERO, idx, ref, subst
from .interp import Interp, explore

VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("EVIDENCE_DIR") or os.path.join(VERIF, "evidence")


class AnchorLost(Exception):
    """a symbol the property is anchored on has disappeared"""


class OutOfTime(Exception):
    """the time of a check is used up"""


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = []          # (name, rule, ok)
        self.viol = []         # dicts
        self.known = []
        self.kf = load_known(pid)
        self.funcs = set()
        self.kernels = set()
        self.sites = set()
        self.stats = {}

    def ok(self, name, rule):
        self.obl.append((name, rule, True))

    def fail(self, name, rule, where, msg, key=None):
        """a violated obligation; key identifies it for the known-findings file"""
        self.obl.append((name, rule, False))
        key = key or name
        for k, what in self.kf:
            if k == key:
                if what not in self.known:
                    self.known.append(what)
                return
        self.viol.append({"obligation": name, "rule": rule, "where": where, "detail": msg, "key": key})

    def check(self, cond, name, rule, where="", msg="", key=None):
        if self.enough():
            raise OutOfTime()
        if cond:
            self.ok(name, rule)
        else:
            self.fail(name, rule, where, msg, key)
        return cond

    def enough(self, seconds=240):
        """violations were found and the analysis has run for a while: the remaining cases add nothing to the verdict"""
        return bool(self.viol) and time.time() - self.t0 > seconds

    def absorb(self, it):
        self.funcs |= it.funcs_seen
        for ev in it.events:
            if ev[0] == "kernel":
                self.kernels.add((ev[1].kname, ev[1].where_created))
                self.sites.add(ev[3])


def load_known(pid):
    """known-findings.txt lines: 'finding: property=<id> key=<key> :: <what>' ; 'fixed:' lines suppress nothing"""
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                k, what = ln.split(" key=", 1)[1].split(" :: ", 1)
                out.append((k.strip(), what.strip()))
    return out


# ---------------------------------------------------------------- helpers
_IT = {}


def interp():
    """one interpreter per process; modules parsed once"""
    if "it" not in _IT:
        from .models import Models
        _IT["it"] = Interp(Models)
    return _IT["it"]


def fresh_interp():
    from .models import Models
    return Interp(Models)


def anchor(it, module, name):
    import os as _os
    p = _os.path.join(it.repo, *module.split("."))
    if not (_os.path.exists(p) or _os.path.exists(p + ".py")):
        raise AnchorLost("module %s not found" % module)
    m = it.load(module)
    if name not in m.scope.vars:
        raise AnchorLost("%s.%s not found" % (module, name))
    return m.scope.vars[name]


RESIDUE = {}


# concrete sizes for the fallback when the argument for all sizes leaves the abstract domain
INSTANCES = [
    {"nx": 9, "ny": 10, "nz": 11, "num_lag": 2, "w": 2},
    {"nx": 12, "ny": 9, "nz": 9, "num_lag": 1, "w": 3},
    {"nx": 301, "ny": 10, "nz": 9, "num_lag": 2, "w": 4},
    {"nx": 10, "ny": 301, "nz": 12, "num_lag": 1, "w": 2},
    {"nx": 9, "ny": 11, "nz": 301, "num_lag": 2, "w": 3},
    {"nx": 521, "ny": 530, "nz": 260, "num_lag": 2, "w": 5},
]
CONC = {}


def conc_size(n, lb):
    base, k = n, 0
    if n.isdigit():
        return E(int(n))
    while base not in CONC and base[-1:] in "_0123456789":
        k += int(base[-1]) + 1 if base[-1].isdigit() else 20
        base = base[:-1]
    if base.endswith("_other"):
        return conc_size(base[:-6], lb) + 3
    return E(max(CONC.get(base, 17) + k, lb))


def isym(n, lb=8):
    if CONC:
        return conc_size(n, lb)
    if n in RESIDUE:
        k, r = RESIDUE[n]
        return k * isym("%s_by_%d" % (n, k), max(1, -((r - lb) // k))) + r
    bounds.SYM_LB[n] = lb
    return cas.sym(n, True, True)


def F(name, *ix):
    """content of symbolic array `name` at index expressions"""
    return ref(name, [E(i) for i in ix])


def symarr(name, shape, dtype):
    return Arr.of(Base.symbolic(name, shape, dtype))


class Want:
    """expected final content of an array: starts from `old`, overwritten box by box"""

    def __init__(self, arr, old=None):
        self.arr = arr
        b = arr.base
        self.b = Base(b.shape, b.dtype, list(old if old is not None else b.init), "want")

    def put(self, box, expr):
        full = [(ZERO, s) for s in self.b.shape]
        bx = []
        for k, s in enumerate(full):
            if k < len(box) and box[k] is not None:
                x = box[k]
                if isinstance(x, tuple):
                    bx.append((E(x[0]), E(x[1])))
                else:
                    bx.append((E(x), E(x) + 1))
            else:
                bx.append(s)
        self.b.write_box(tuple(bx), E(expr), "want")
        return self

    @property
    def pieces(self):
        return self.b.pieces


def gate_of(conds):
    g = ONE
    for c, v in conds:
        if isinstance(c, Expr):
            g = g * (c if v else ONE - c)
    return g


def diff_pieces(got, want, conds=(), eq=None):
    """list of (box, got, want, provenance) where contents differ"""
    g = gate_of(conds)
    if not g.t:
        return []

    def eqf(a, b):
        if eq is not None and eq(a, b):
            return True
        if cas.equal(a, b):
            return True
        if g != ONE and not isinstance(g, int):
            return cas.equal(g * a, g * b)
        return False
    return A.compare(got, want, None, eqf)


def show_diff(ds, n=2):
    out = []
    for b, g, w, p in ds[:n]:
        out.append("cells %s: computed %s ; expected %s ; written at %s" % (A.box_str(b), clip(g), clip(w), p or "(never written)"))
    return " || ".join(out)


def clip(e, n=420):
    s = cas.expr_str(e) if isinstance(e, Expr) else str(e)
    return s if len(s) <= n else s[:n] + "..."


def run_paths(fn, limit=48):
    """fn(it) for every outcome of undecidable branches. yields (conds, it, result|AbsRaise)"""
    it = interp()

    def run(pre):
        it.decisions = pre
        it.dec_pos = 0
        it.path_conds = []
        it.events.clear()
        it.steps = 0
        it.frames.clear()
        it.kernel_mode = 0
        it.kernel_sink = None
        it.new_hook = None
        del bounds.FACTS[:]
        bounds.FACTS.extend(BASE_FACTS)
        try:
            r = fn(it)
        except AbsRaise as e:
            r = e
            it.frames.clear()
        return it, r
    g = explore(run, limit=limit)
    while True:
        try:
            conds, i, r = next(g)
        except StopIteration:
            del bounds.FACTS[:]
            return
        except (Unsupported, Undecidable) as e:
            # outside the abstract domain: the check cannot pass any more, but other cases may still show a violation
            if not DEFER[0]:
                raise
            DEFERRED.append("%s: %s at %s" % ("undecidable bound" if isinstance(e, Undecidable) else "unsupported construct", e, it.stack_str()))
            it.frames.clear()
            return
        yield conds, i, r


DEFER, DEFERRED = [True], []


BASE_FACTS = []


# ---------------------------------------------------------------- main
def analyse(fn, rep, tier):
    err = None
    try:
        fn(rep, tier)
    except AnchorLost as e:
        err = "analysis-broken: anchor lost: %s" % e
    except Unsupported as e:
        err = "analysis-broken: unsupported construct: %s at %s" % (e, interp().stack_str())
    except Undecidable as e:
        err = "analysis-broken: undecidable bound: %s at %s" % (e, interp().stack_str())
    except AbsRaise as e:
        rep.fail("uncaught", "no exception on valid use", e.where or "", str(e))
    except OutOfTime:
        err = "analysis-broken: out of time"
    except RecursionError:
        err = "analysis-broken: recursion"
    except Exception:
        err = "analysis-broken: internal error\n" + traceback.format_exc()
    if err is None and DEFERRED:
        err = "analysis-broken: " + DEFERRED[0] + (" (and %d more cases)" % (len(DEFERRED) - 1) if len(DEFERRED) > 1 else "")
    return err


def instances(fn, rep, tier, err):
    """the argument for all sizes leaves the abstract domain: decide the same obligations on concrete sizes"""
    RESIDUE.clear()
    done = []
    rep.stats["general_sizes"] = err
    try:
        for c in INSTANCES:
            CONC.update(c)
            _IT.clear()
            del DEFERRED[:]
            e = analyse(fn, rep, tier)
            if rep.viol:
                return None
            if e and "out of time" in e and len(done) > 1:
                break
            if e:
                return err + " [sizes %s: %s]" % (c, e)
            done.append(dict(c))
    finally:
        CONC.clear()
        rep.stats["concrete_sizes"] = done
    return None


def main(argv=None):
    from .specs import SPECS
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    pid = a.pid
    fn, meta = SPECS[pid]
    rep = Report(pid, a.tier)
    err = None
    def out_of_time(*_):
        raise OutOfTime()
    signal.signal(signal.SIGALRM, out_of_time)
    if a.tier != "thorough":
        # enough violations for a verdict, or nothing to be expected any more
        signal.alarm(780)
    if os.environ.get("SA_CONC"):
        CONC.update(INSTANCES[int(os.environ["SA_CONC"])])
    err = analyse(fn, rep, a.tier)
    if err and not rep.viol and bounds.SPLITS and "out of time" not in err:
        # a comparison depends on the remainder of a size in an integer division: decide each remainder by itself
        cases = [dict(zip(bounds.SPLITS, c)) for c in itertools.product(*[[(k, r) for r in range(k)] for k in bounds.SPLITS.values()])]
        if 1 < len(cases) <= 16:
            err = None
            for c in cases:
                RESIDUE.clear()
                RESIDUE.update(c)
                _IT.clear()
                del DEFERRED[:]
                err = analyse(fn, rep, a.tier) or err
                if rep.viol:
                    break
    if err and not rep.viol and meta.get("conc", True) and "anchor lost" not in err and "internal" not in err and "out of time" not in err:
        err = instances(fn, rep, a.tier, err)
    n = len(rep.obl)
    if err is None and n < meta.get("min_obl", 1):
        err = "analysis-broken: only %d obligations (expected at least %d)" % (n, meta["min_obl"])
    os.makedirs(EVID, exist_ok=True)
    write_evidence(rep, meta, err)
    for w in rep.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if a.v or rep.viol:
        for v in rep.viol[:40 if a.v else 8]:
            print("  [%s] %s: %s\n      rule: %s\n      at %s" % (pid, v["obligation"], v["detail"], v["rule"], v["where"]))
    print("%s: %d obligations, %d violated, %d known; %d functions, %d compiled stencils, %d kernel call sites; %.1fs" % (
        pid, n, len(rep.viol), len(rep.known), len(rep.funcs), len(rep.kernels), len(rep.sites), time.time() - rep.t0))
    if rep.viol:
        rp = os.path.join(EVID, pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump(rep.viol, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err:
        print(err)
        return 2
    return 0


def write_evidence(rep, meta, err):
    rules = {}
    for nme, rule, ok in rep.obl:
        r = rules.setdefault(rule, [0, 0])
        r[0] += 1
        r[1] += 1 if ok else 0
    short = lambda w: w.replace((interp().repo if _IT else "/repo") + "/", "")
    ev = {
        "property": rep.pid, "tier": rep.tier if rep.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": meta.get("level", "other"),
        "coverage": {
            "explanation": meta.get("explain", "abstract interpretation of /repo's source; every obligation is decided from the syntax tree"),
            "obligations": len(rep.obl), "discharged": sum(1 for o in rep.obl if o[2]),
            "rules": {k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(rules.items())},
            "functions_analysed": sorted(short(f) for f in rep.funcs)[:400],
            "stencils_analysed": sorted("%s (%s)" % k for k in rep.kernels)[:200],
            "kernel_call_sites": sorted(rep.sites)[:300],
            "instances": [o[0] for o in rep.obl][:600],
            "known_findings": rep.known, "stats": rep.stats,
        },
        "assumptions": meta.get("assumptions", DEFAULT_ASSUME),
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(rep.viol),
    }
    if err:
        ev["coverage"]["error"] = err
    with open(os.path.join(EVID, rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


DEFAULT_ASSUME = [
    "floating-point arithmetic is identified with exact real arithmetic (rounding is out of scope)",
    "pystencils 1.1 / numpy 1.26 semantics as modelled in sa/models*.py (read from their installed sources)",
    "array arguments of one call do not partially overlap unless the property says so",
]
