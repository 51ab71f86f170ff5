"""Frame conditions: what the steps of an optimizer (evolve and the other hooks) may not touch.  They are assumed by the contract of
Optimizer.solve (contracts/core/search.py) and are decided here for every function of every optimizer module, on the syntax tree of the
current source: an effect that is not among the permitted ones fails the obligation of that function."""
import ast, os, time

HOOKS = {"__init__", "initialize_variables", "before_initialization", "initialization", "before_main_loop", "evolve", "amend_solution", "correct_solution", "generate_empty_agent", "generate_agent"}
STORE = {"nfe_counter": ("C05", "C06"), "termination": ("C05",), "problem": ("C03", "C05", "C06", "C07"), "mode": ("C06", "C08"), "n_workers": ("C08",), "unsaved_best": ("C03",), "unsaved_worst": ("C04",),
         "generator": ("C07",), "rng": ("C07",), "history": ("C03", "C04", "C21")}
RECORD = {"solve": ("C03", "C04", "C05"), "check_problem": ("C03", "C04", "C05", "C06", "C07"), "check_mode_and_workers": ("C08", "C06"), "check_termination": ("C05",), "track_optimize_step": ("C04",), "track_optimize_process": ("C04",),
          "after_initialization": ("C03", "C04")}
NUMS = {"list_global_best_fit", "list_current_best_fit", "list_epoch_time", "list_diversity"}
CHANCE = {"random", "time", "uuid", "secrets", "datetime", "os", "threading", "socket"}
CHANCE_FN = {"hash", "id", "input", "open", "globals", "vars", "locals", "exec", "eval", "__import__"}
MUT = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "sort", "reverse", "add", "discard", "fill", "put"}
CORE_SEQ = {"solve", "check_problem", "check_mode_and_workers", "check_termination", "update_global_best_agent", "track_optimize_step", "track_optimize_process", "after_initialization", "__init__"}      # under contract, or the constructor


def functions(tree):
    """(class node or None, function node) of every function that is not nested in another one"""
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): yield None, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)): yield n, m


def parents(node):
    p = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n): p[c] = n
    return p


def stores(t):
    """the targets of an assignment"""
    if isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts: yield from stores(e)
    elif isinstance(t, ast.Starred): yield from stores(t.value)
    else: yield t


def chain(n):
    """a.b[..].c -> ['a', 'b', '[]', 'c'], None if it does not start with a name"""
    r = []
    while True:
        if isinstance(n, ast.Attribute): r.append(n.attr); n = n.value
        elif isinstance(n, ast.Subscript): r.append("[]"); n = n.value
        elif isinstance(n, ast.Name): r.append(n.id); return r[::-1]
        else: return None


def imports(tree):
    """local name -> module path, anywhere in the file"""
    r = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names: r[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names: r[a.asname or a.name] = n.module + "." + a.name
    return r


class Frame:
    def __init__(self, repo):
        self.repo = repo
        self.out = []          # (props, name, bad or None, line, class)
    def ob(self, props, name, bad, cls=None): self.out.append((tuple(props), name, bad, cls))

    def run(self):
        opts = {c.qual for c in self.repo.optimizers()}
        mods = sorted({c.mod.name for c in self.repo.optimizers()})
        opt = self.repo.cls("mealpy.optimizer.Optimizer")
        self.core = {n.name for n in opt.node.body if isinstance(n, ast.FunctionDef)}
        self.pfields = set()
        for k in ("mealpy.utils.problem.Problem",):
            for n in ast.walk(self.repo.cls(k).node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self": self.pfields.add(n.attr)
        for m in mods: self.module(self.repo.mods[m], opts)
        self.optimizer(opt)
        self.package()
        return self.out

    # ------------------------------------------------------------ one optimizer module
    def module(self, mod, opts):
        tree = mod.tree; imp = imports(tree)
        short = mod.name.replace("mealpy.", "", 1)
        consts = set(); names = {c.name for c in ast.walk(tree) if isinstance(c, ast.ClassDef)}
        for n in list(tree.body) + [m for c in tree.body if isinstance(c, ast.ClassDef) for m in c.body]:
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and not isinstance(n.value, ast.Constant):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name): consts.add(t.id)
        top = {t.id for n in tree.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
        for c, f in functions(tree):
            isopt = c is not None and f"{mod.name}.{c.name}" in opts
            who = f"{short}.{c.name + '.' if c else ''}{f.name}"
            cls = f"{mod.name}.{c.name}".split(".", 2)[2] if isopt else None
            if isopt:
                if f.name in self.core and f.name not in HOOKS: self.ob(("C03", "C04", "C05", "C06", "C08", "C12", "C20", "C21"), f"{who}: the method is not one of the core the contracts speak about", f"it overrides Optimizer.{f.name}", cls)
                self.body(who, cls, f, short)
            self.chance(who, cls, f, imp, consts, names, top)

    def body(self, who, cls, f, short):
        me = f.args.args[0].arg if f.args.args and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list) else None
        par = parents(f)
        bad = {}            # condition -> text
        def note(k, n, t): bad.setdefault(k, f"{t} (line {n.lineno})")
        for n in ast.walk(f):
            tg = []
            if isinstance(n, ast.Assign): tg = [x for t in n.targets for x in stores(t)]
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)): tg = list(stores(n.target))
            elif isinstance(n, ast.Delete): tg = [x for t in n.targets for x in stores(t)]
            elif isinstance(n, ast.NamedExpr): tg = [n.target]
            elif isinstance(n, ast.withitem) and n.optional_vars is not None: tg = list(stores(n.optional_vars))
            for t in tg:
                c = chain(t)
                if not c or c[0] != me: continue
                if len(c) > 2 and c[1] == "problem" and c[2] not in self.pfields: continue        # a field of the optimizer's own (BRO keeps its shrunken bounds there)
                if len(c) >= 2 and c[1] in STORE: note(c[1], n if hasattr(n, "lineno") else t, "assigns " + ast.unparse(t))
                if len(c) == 2 and c[1] == "epoch" and f.name != "__init__": note("epoch", n, "assigns " + ast.unparse(t))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                c = chain(n.func)
                if c and c[0] == me and len(c) == 2 and c[1] in RECORD: note("call " + c[1], n, f"calls self.{c[1]}")
                if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super" and n.func.attr in RECORD: note("call " + n.func.attr, n, f"calls super().{n.func.attr}")
                if c and c[0] == me and len(c) == 2 and c[1] == "update_global_best_agent":
                    kw = {k.arg: k.value for k in n.keywords}
                    s = kw.get("save", n.args[1] if len(n.args) > 1 else None)
                    if not (isinstance(s, ast.Constant) and s.value is False): note("call update_global_best_agent", n, "calls update_global_best_agent with recording")
                if c and c[0] == me and len(c) > 2 and c[1] in ("problem", "termination") and c[-1] in ("set_seed", "set_functions", "set_start_values", "__init__", "set_keyword_arguments"): note(c[1], n, f"calls {ast.unparse(n.func)}")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me and f.name != "__init__":
                k = n.args[1].value if isinstance(n.args[1], ast.Constant) else None
                if k in STORE or k is None: note(k or "history", n, f"calls {ast.unparse(n)[:60]}")
            if isinstance(n, ast.Attribute) and n.attr in ("unsaved_best", "unsaved_worst") and isinstance(n.ctx, ast.Load): note(n.attr, n, f"uses {ast.unparse(n)}")
            # the history is only read, number by number
            if isinstance(n, ast.Attribute) and n.attr == "history" and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
                p = par[n]; q = par.get(p)
                if isinstance(p, ast.Attribute) and p.attr in NUMS and (isinstance(q, ast.Subscript) and q.value is p and isinstance(q.ctx, ast.Load) or isinstance(q, ast.Call) and p in q.args and isinstance(q.func, ast.Name) and q.func.id in ("len", "min", "max", "sum")): continue
                note("history", n, f"uses {ast.unparse(q if isinstance(p, ast.Attribute) and q is not None else p)[:60]}")
            if isinstance(n, ast.Attribute) and n.attr == "__dict__" and isinstance(n.value, ast.Name) and n.value.id == me: note("history", n, "uses self.__dict__")
        for k, ps in STORE.items():
            self.ob(ps, f"{who}: {'only reads the numbers of the history' if k == 'history' else 'does not touch self.' + k}", bad.get(k), cls)
        self.ob(("C05",), f"{who}: does not assign self.epoch", bad.get("epoch"), cls)
        for k, ps in RECORD.items(): self.ob(ps, f"{who}: does not call {k}", bad.get("call " + k), cls)
        self.ob(("C03", "C04"), f"{who}: records nothing (update_global_best_agent with save=False only)", bad.get("call update_global_best_agent"), cls)

    def chance(self, who, cls, f, imp, consts, names, top):
        """C07: no source of values besides the arguments, the fields, the generator and the random.Random of the search"""
        bad = []
        note = lambda n, t: bad.append(f"{t} (line {n.lineno})")
        local = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for d in f.args.defaults + [x for x in f.args.kw_defaults if x is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set)) and (d.elts if not isinstance(d, ast.Dict) else d.keys) == [] and f.name != "__init__": note(d, "a mutable default argument")
        for n in ast.walk(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)) and isinstance(n, ast.Global): note(n, "changes a global variable")
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in local:
                m = imp.get(n.id, "")
                if m.split(".")[0] in CHANCE: note(n, f"uses the module {m}")
                if m.startswith("numpy.random"): note(n, f"uses {m}")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in CHANCE_FN and n.func.id not in local: note(n, f"calls {n.func.id}")
            if isinstance(n, ast.Attribute):
                c = chain(n)
                if c and c[0] not in local and imp.get(c[0]) == "numpy" and len(c) > 1 and c[1] == "random": note(n, "uses np.random")
                if n.attr in ("bit_generator", "spawn", "__hash__"): note(n, f"uses {n.attr}")
                if n.attr == "id" and isinstance(n.ctx, ast.Load): note(n, "uses the identity number of an object")
            tg = []
            if isinstance(n, ast.Assign): tg = [x for t in n.targets for x in stores(t)]
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): tg = list(stores(n.target))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT: tg = [n.func.value]; 
            for t in tg:
                c = chain(t)
                if not c: 
                    continue
                if c[0] in names and c[0] not in local and (len(c) > 1 or isinstance(n, ast.Call)): note(n, f"changes the class {c[0]}")
                if "__class__" in c or c[0] == "cls": note(n, "changes a class")
                if c[0] in top and c[0] not in local: note(n, f"changes the module variable {c[0]}")
                if len(c) > 2 and c[0] == "self" and c[1] in consts or isinstance(n, ast.Call) and len(c) == 2 and c[0] == "self" and c[1] in consts: note(n, f"changes the class variable {c[1]}")
        # the order of a set of other things than numbers depends on the hash seed
        for n in ast.walk(f):
            it = None
            if isinstance(n, (ast.For, ast.comprehension)): it = n.iter
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple") and n.args: it = n.args[0]
            if it is not None and any(isinstance(x, (ast.Set, ast.SetComp)) and any(isinstance(y, ast.Constant) and isinstance(y.value, str) for y in ast.walk(x)) for x in ast.walk(it)): note(it, "iterates over a set of strings")
        self.ob(("C07",), f"{who}: depends on nothing but its arguments, the fields and the search's own generators", bad[0] if bad else None, cls)

    # ------------------------------------------------------------ the helpers of the base class
    def optimizer(self, opt):
        imp = imports(opt.mod.tree)
        for f in opt.node.body:
            if not isinstance(f, ast.FunctionDef) or f.name in CORE_SEQ: continue
            bad = {}
            for n in ast.walk(f):
                tg = []
                if isinstance(n, ast.Assign): tg = [x for t in n.targets for x in stores(t)]
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): tg = list(stores(n.target))
                for t in tg:
                    c = chain(t)
                    if c and c[0] == "self" and len(c) >= 2 and c[1] in STORE: bad.setdefault(c[1], f"assigns {ast.unparse(t)} (line {n.lineno})")
                if isinstance(n, ast.Attribute) and n.attr == "history" and isinstance(n.value, ast.Name) and n.value.id == "self" and f.name not in ("get_attributes", "get_name"): bad.setdefault("history", f"uses self.history (line {n.lineno})")
            if f.name == "_generate_agent_with_seed":       # runs in a worker process, on that process's copy of the optimizer
                calls = [n for m in self.repo.mods.values() for n in ast.walk(m.tree) if isinstance(n, ast.Call) and any(isinstance(x, ast.Attribute) and x.attr == f.name for x in [n.func] + n.args)]
                ok = calls and all(isinstance(n.func, ast.Attribute) and n.func.attr in ("submit", "map") for n in calls)
                self.ob(("C07", "C06", "C08"), "optimizer.Optimizer._generate_agent_with_seed: is only handed to an executor", None if ok else "it is called directly")
                for k in ("generator", "rng", "nfe_counter"): bad.pop(k, None)
            for k, ps in STORE.items():
                if k == "nfe_counter" and f.name in ("generate_population", "get_target", "generate_agent", "update_target_for_population", "before_initialization", "initialization", "_set_target", "update_target_wrapper"): continue        # they count (contracts of C06, C08)
                self.ob(ps, f"optimizer.Optimizer.{f.name}: {'leaves the history alone' if k == 'history' else 'does not assign self.' + k}", bad.get(k))

    def package(self):
        """nothing in the package draws from or seeds the process-wide generators"""
        for name, mod in sorted(self.repo.mods.items()):
            imp = imports(mod.tree); bad = []
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.ImportFrom) and n.module in ("random", "numpy.random") and not n.level:
                    for a in n.names:
                        if a.name not in ("Random", "Generator", "default_rng"): bad.append(f"imports {n.module}.{a.name} (line {n.lineno})")
                if isinstance(n, ast.Attribute):
                    c = chain(n)
                    if not c or len(c) < 2: continue
                    if imp.get(c[0]) == "numpy" and c[1] == "random" and len(c) == 3 and c[2] not in ("default_rng", "Generator"): bad.append(f"uses {ast.unparse(n)} (line {n.lineno})")
                    if imp.get(c[0]) in ("random", "numpy.random") and len(c) == 2 and c[1] not in ("Random", "default_rng", "Generator"): bad.append(f"uses {ast.unparse(n)} (line {n.lineno})")
            self.ob(("C07",), f"{name}: the process-wide random generators are neither used nor seeded", bad[0] if bad else None)


def prove(pid, repo, tier, seed):
    t0 = time.time()
    obs = [o for o in Frame(repo).run() if pid in o[0]]
    failed = [dict(name="frame " + n, why=b, classes=[c] if c else [], function=n.split(":")[0]) for _, n, b, c in obs if b]
    return dict(part="frame conditions of the optimizers' steps", obligations=len(obs), discharged=len(obs) - len(failed), undecided=0, failed=failed, focus=[], notes=[], functions=len({n.split(":")[0] for _, n, _, _ in obs}),
                solver_s=0.0, back_end="effect analysis of the syntax tree (pydv/frame.py)", assumptions=["the steps of an optimizer reach its fields through the name of the method's first parameter only (no alias of self, checked for setattr and __dict__)"],
                trusted_base=["pydv/frame.py: the effect analysis"], wall_s=round(time.time() - t0, 1))
