"""C11: the constructor of every optimizer class, executed symbolically on the current source (pv.py) with arguments of unknown type and value.
Validation functions are used by their contracts (contracts/core/validator.py, C10): they raise ValueError or give back the value as the documented
type.  On every path that ends normally each hyper-parameter is stored under its own name and reported, and nothing else is reported; the only
exception is ValueError."""
import os, sys, time, multiprocessing as mp, traceback, resource
import z3
from .pv import *
from .corelib import CoreVC

VAL = z3.DeclareSort("Value")
TRUSTED = ["z3 4.x (z3-solver of python3-vt)", "pydv/pv.py: the symbolic executor of the Python subset that generates the obligations"]
ASSUME = ["a validation function gives back the value it is given (as the documented type) or raises ValueError: C10", "no extra keyword arguments are given to the constructor",
          "two reported values or attributes are equal if they are the same value; floating-point arithmetic in derived attributes is exact"]


class Given(Opaque):
    """the argument of a hyper-parameter"""
    def __init__(self, p, t): super().__init__("given", t); self.p = p


class CtorVC(CoreVC):
    def start(self): super().start(); self.valid = {}
    def hook(self, q, f, args, kw, node):
        if q.startswith("mealpy.utils.validator.Validator."):
            n = q.rsplit(".", 1)[1]
            if n.startswith("check_"): return self.validated(n, f, args, kw)
        if q == "mealpy.utils.validator.Validator": return Obj(self.repo.cls(q))
        return super().hook(q, f, args, kw, node)
    def validated(self, n, f, args, kw):
        names = [x.arg for x in f.fn.node.args.args][1:]
        a = dict(zip(names, args)); a.update(kw)
        v = a.get("value", a.get("values"))
        if self.choice(2): raise PyExc("ValueError")
        if not isinstance(v, Given): return self.new("validated", {"check_int": I, "check_float": R, "check_bool": B, "check_str": S}[n]) if n in ("check_int", "check_float", "check_bool", "check_str") else Opaque("value")
        k = {"check_int": I, "check_float": R, "check_bool": B, "check_str": S}.get(n)
        if k is None:
            self.valid.setdefault(v.p, v); return v
        t = z3.Const("given." + v.p, k)
        b = a.get("bound")
        if isinstance(b, PList) and b.items is not None and len(b.items) == 2 and k in (I, R):
            lo, hi = b.items; op = b.kind == "tuple"
            for lim, low in ((lo, True), (hi, False)):
                if isinstance(lim, float) and math.isinf(lim): continue
                if isinstance(lim, Opaque): continue
                self.assume((self.less(lim, t, op) if low else self.less(t, lim, op)) if k == R or not op else (self.less(lim, t, True) if low else self.less(t, lim, True)))
        if isinstance(b, PList) and k == S and b.items is not None: self.assume(z3.Or([z3.BoolVal(False)] + [t == term(x) for x in b.items if isinstance(x, str)]))
        self.valid.setdefault(v.p, t)
        return t
    def truth(self, v):
        v = self.force(v)
        if isinstance(v, Opaque): return bool(self.choice(2))
        return super().truth(v)
    def eq(self, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque): return self.new("unknown", B)
        return super().eq(a, b)
    def less(self, a, b, strict):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque): return self.new("unknown", B)
        return super().less(a, b, strict)
    def extreme_of(self, a, kw, mn):
        if any(isinstance(x, Opaque) for x in a) or any(isinstance(x, PList) and x.items is not None and any(isinstance(y, Opaque) for y in x.items) for x in a): return Opaque("value")
        return super().extreme_of(a, kw, mn)
    def opaque_attr(self, b, a): return Opaque("value")
    def call(self, f, args, kw, node=None):
        f = self.force(f)
        if isinstance(f, Opaque): return Opaque("value")
        return super().call(f, args, kw, node)
    def external(self, name, self_, args, kw, node):
        if any(isinstance(x, Opaque) for x in args) and not name.startswith(("builtins.isinstance", "builtins.type", "exc.", "list.", "dict.")): return Opaque("value")
        if name in ("numpy.sqrt", "numpy.log", "numpy.exp", "numpy.log10", "numpy.log2", "numpy.arange", "numpy.linspace", "math.sqrt", "math.log", "math.exp", "numpy.array", "numpy.ceil", "numpy.floor", "numpy.round", "builtins.round"): return Opaque("value")
        return super().external(name, self_, args, kw, node)
    def unknown(self): return Opaque("value")


def same(vc, x, y):
    """the goal that two values are the same"""
    if x is y: return z3.BoolVal(True)
    if isinstance(x, Opaque) and isinstance(y, Opaque) and x.t is not None and y.t is not None: return x.t == y.t
    if isz(x) and isz(y): return x == y if x.sort() == y.sort() else z3.BoolVal(False)
    if (isz(x) or isz(y)) and not isinstance(x, Opaque) and not isinstance(y, Opaque):
        try: a, b = unify(x, y); return a == b
        except Unsupported: return z3.BoolVal(False)
    return z3.BoolVal(type(x) is type(y) and not isinstance(x, Opaque) and x == y)


def run(repo, c, deadline):
    q = c.qual.split(".", 1)[1]; short = ".".join(c.qual.split(".")[-2:])
    vc = CtorVC(repo, {}, deadline)
    init = repo.method(c, "__init__")
    res = dict(cls=c.qual)
    a = init.node.args
    names = [x.arg for x in a.posonlyargs + a.args if x.arg != "self"] + [x.arg for x in a.kwonlyargs]
    ends, obls = [0], []
    def path():
        vc.start()
        o = Obj(c); o.birth = 0
        given = {p: Given(p, z3.Const("arg." + p, VAL)) for p in names}
        vc.stack.append(dict(env={}, fn=init, mod=init.mod, cls=init.cls))
        try: vc.call_fn(init, o, [], dict(given))
        except PyExc as e:
            obls.append((f"{short}: the constructor raises only ValueError", None, list(vc.pc), z3.BoolVal(e.kind == "ValueError")))
            return
        ends[0] += 1
        par = o.f.get("parameters")
        ok = isinstance(par, PDict) and par.default is None and all(isinstance(k, str) for k, _ in par.items)
        obls.append((f"{short}: reports exactly the hyper-parameters of its constructor", None, list(vc.pc), z3.BoolVal(ok and sorted(k for k, _ in par.items) == sorted(names))))
        rep = dict(par.items) if ok else {}
        for p in names:
            want = vc.valid.get(p, given[p])
            g = same(vc, o.f[p], want) if p in o.f else z3.BoolVal(False)
            obls.append((f"{short}: hyper-parameter {p} is validated", f"{short}.{p} validated", list(vc.pc), z3.BoolVal(p in vc.valid)))
            obls.append((f"{short}: hyper-parameter {p} is stored under its own name with the given value", f"{short}.{p}", list(vc.pc), g))
            if p in rep and p in o.f: obls.append((f"{short}: the reported {p} is the stored one", f"{short}.{p} reported", list(vc.pc), same(vc, rep[p], o.f[p])))
    try: vc.explore(path)
    except Unsupported as e: return dict(res, status="unsupported", why=str(e)[:200], n=0, bad=[], solver=vc.solver_s)
    except TimeoutError: return dict(res, status="timeout", why="time", n=0, bad=[], solver=vc.solver_s)
    bad, seen = [], set()
    for nm, key, pc, g in obls:
        st, m, t = decide(pc, g, 3000); vc.solver_s += t
        if st != "proved": bad.append((nm, key, st, str(m)[:300] if m is not None else None))
    return dict(res, status="fail" if bad else "ok" if ends[0] else "empty", n=len(obls), bad=bad, paths=ends[0], solver=vc.solver_s, inlined=sorted(vc.inlined))


_S = {}
def _init(root):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)); sys.setrecursionlimit(20000)
    from .src import Repo
    _S["repo"] = Repo(root); _S["cs"] = {c.qual: c for c in _S["repo"].optimizers()}
def job(a):
    q, end = a
    try: return run(_S["repo"], _S["cs"][q], min(end, time.time() + 60))
    except MemoryError: return dict(cls=q, status="timeout", why="memory", n=0, bad=[], solver=0)
    except Exception: return dict(cls=q, status="crash", why=traceback.format_exc()[-400:], n=0, bad=[], solver=0)


def prove(pid, repo, tier, seed):
    t0 = time.time(); end = t0 + (240 if tier != "thorough" else 1800)
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 8), initializer=_init, initargs=(repo.root,)) as pool:
        rs = list(pool.imap_unordered(job, [(c.qual, end) for c in repo.optimizers()], chunksize=4))
    failed, notes, n, d, und, fns = [], [], 0, 0, 0, set()
    for r in rs:
        if r["status"] in ("ok", "fail"):
            n += r["n"]; d += r["n"] - len(r["bad"]); fns |= {r["cls"] + ".__init__"} | set(r["inlined"])
            seen = set()
            for nm, key, st, m in r["bad"]:
                if nm in seen: continue
                seen.add(nm); failed.append(dict(name=nm, key=key, why=f"{st}: the prover does not accept the obligation for the current source", function=r["cls"] + ".__init__", model=m))
        else: n += 1; und += 1; notes.append(f"no answer from the verifier for the constructor of {r['cls']} ({r['status']}: {r.get('why')})")
    return dict(part="constructors of all optimizer classes", obligations=n, discharged=d, undecided=und, failed=failed, focus=[], notes=notes, functions=len(fns), classes=len(rs),
                solver_s=round(sum(r["solver"] for r in rs), 1), back_end="z3", assumptions=list(ASSUME), trusted_base=list(TRUSTED), wall_s=round(time.time() - t0, 1))
