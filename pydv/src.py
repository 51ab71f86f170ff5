"""Index of the Python sources of /repo: modules, classes, functions, imports, method resolution.  Nothing is executed."""
import ast, os


class Fn:
    __slots__ = ("node", "mod", "cls", "name", "static", "classmeth", "prop")

    def __init__(self, node, mod, cls=None):
        self.node, self.mod, self.cls, self.name = node, mod, cls, node.name
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.static, self.classmeth, self.prop = "staticmethod" in decs, "classmethod" in decs, "property" in decs

    @property
    def qual(self):
        return f"{self.mod.name}.{self.cls.name + '.' if self.cls else ''}{self.name}"


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.fns, self.consts, self.base_exprs = {}, {}, node.bases
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # property setters share the name: keep the getter under the name, the setter under name+".setter"
                decs = [ast.unparse(d) for d in s.decorator_list]
                key = s.name + ".setter" if any(d.endswith(".setter") for d in decs) else s.name
                self.fns[key] = Fn(s, mod, self)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value

    @property
    def qual(self): return f"{self.mod.name}.{self.name}"

    def __repr__(self): return f"<Cls {self.qual}>"


class Mod:
    def __init__(self, name, path, text, is_pkg=False):
        self.name, self.path, self.text, self.is_pkg = name, path, text, is_pkg
        self.tree = ast.parse(text)
        self.fns, self.classes, self.imports, self.consts = {}, {}, {}, {}
        for s in self.tree.body: self._top(s)

    def _top(self, s):
        if isinstance(s, ast.FunctionDef): self.fns[s.name] = Fn(s, self)
        elif isinstance(s, ast.ClassDef): self.classes[s.name] = Cls(s, self)
        elif isinstance(s, ast.Import):
            for a in s.names: self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            base = s.module or ""
            if s.level:
                parts = self.name.split(".")
                up = parts if self.is_pkg else parts[:-1]
                if s.level > 1: up = up[:-(s.level - 1)]
                base = ".".join(up + ([s.module] if s.module else []))
            for a in s.names: self.imports[a.asname or a.name] = ("from", base, a.name)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            self.consts[s.targets[0].id] = s.value
        elif isinstance(s, (ast.If, ast.Try)):
            for x in s.body: self._top(x)


def stored(nodes, attrs=False):
    """names (or attributes) that the statements assign"""
    r = set()
    for b in nodes:
        for n in ast.walk(b):
            if not attrs and isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): r.add(n.id)
            if attrs and isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)): r.add(n.attr)
    return r


class CountingWhile(ast.NodeTransformer):
    """while k < N: body; k += 1    is read as    k0 = k; for k in range(k0, N): body; else: k = max(k0, N)
    when the body assigns neither k nor N, does not continue, and N is a constant, a local name or a field that is only assigned in constructors."""
    def __init__(self, fields): self.fields, self.n = fields, 0
    def visit_FunctionDef(self, f):
        out = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        if out: return f
        self.generic_visit(f); return f
    def visit_While(self, w):
        self.generic_visit(w)
        t, last = w.test, w.body[-1]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1): return w
        a, op, b = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, ast.Gt): a, b, op = b, a, ast.Lt()
        if not (isinstance(op, (ast.Lt, ast.NotEq)) and isinstance(a, ast.Name)) or isinstance(op, ast.NotEq): return w
        k = a.id
        if isinstance(last, ast.AugAssign): up = isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == k and isinstance(last.value, ast.Constant) and last.value.value == 1
        elif isinstance(last, ast.Assign): up = ast.unparse(last) in (f"{k} = {k} + 1", f"{k} = 1 + {k}")
        else: up = False
        body = w.body[:-1]
        if not up or not body or k in stored(body): return w
        if isinstance(b, ast.Name): ok = b.id not in stored(w.body)
        elif isinstance(b, ast.Constant): ok = type(b.value) is int
        elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == "self": ok = b.attr in self.fields
        else: ok = False
        def conts(n):
            if isinstance(n, ast.Continue): return True
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef)): return any(conts(x) for x in getattr(n, "orelse", []))
            return any(conts(x) for x in ast.iter_child_nodes(n))
        if not ok or any(conts(x) for x in body) or any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for y in body for x in ast.walk(y)): return w
        self.n += 1
        k0 = f"__start{self.n}"; name = lambda x, c: ast.Name(x, c())
        new = [ast.Assign([name(k0, ast.Store)], name(k, ast.Load)),
               ast.For(name(k, ast.Store), ast.Call(name("range", ast.Load), [name(k0, ast.Load), b], []), body,
                       [ast.Assign([name(k, ast.Store)], ast.Call(name("max", ast.Load), [name(k0, ast.Load), b], []))] + w.orelse)]
        for x in new:
            for y in ast.walk(x):
                if isinstance(y, (ast.stmt, ast.expr)) and not hasattr(y, "lineno"): ast.copy_location(y, w)
        return [ast.fix_missing_locations(x) for x in new]


class Repo:
    def __init__(self, root):
        self.root, self.mods = root, {}
        for d, _, fs in os.walk(os.path.join(root, "mealpy")):
            if "__pycache__" in d: continue
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    parts = os.path.relpath(p, root)[:-3].split(os.sep)
                    pkg = parts[-1] == "__init__"
                    name = ".".join(parts[:-1] if pkg else parts)
                    self.mods[name] = Mod(name, p, open(p, encoding="utf-8").read(), pkg)
        self._mro = {}
        self.normalise()

    def normalise(self):
        all_, out = set(), set()
        for m in self.mods.values():
            for f in ast.walk(m.tree):
                if isinstance(f, (ast.FunctionDef, ast.Lambda)) and getattr(f, "name", "") != "__init__": out |= stored(f.body if isinstance(f.body, list) else [f.body], True)
            all_ |= stored([m.tree], True)
        fields = (all_ | {"epoch", "pop_size"}) - out
        for m in self.mods.values():
            if any(isinstance(n, ast.While) for n in ast.walk(m.tree)): CountingWhile(fields).visit(m.tree)

    def lookup(self, mod, name, seen=()):
        """What a global name of a module denotes: Cls, Fn, ('mod', dotted), ('ext', dotted), ('const', expr, mod) or None."""
        if (mod.name, name) in seen: return None
        if name in mod.classes: return mod.classes[name]
        if name in mod.fns: return mod.fns[name]
        if name in mod.consts: return ("const", mod.consts[name], mod)
        if name in mod.imports:
            k = mod.imports[name]
            if k[0] == "mod": return ("mod", k[1])
            _, base, n = k
            if f"{base}.{n}" in self.mods: return ("mod", f"{base}.{n}")
            if base in self.mods: return self.lookup(self.mods[base], n, seen + ((mod.name, name),))
            return ("ext", f"{base}.{n}")
        return None

    def mro(self, cls):
        if cls in self._mro: return self._mro[cls]
        res = [cls]
        for b in cls.base_exprs:
            t = None
            if isinstance(b, ast.Name): t = self.lookup(cls.mod, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                m = self.lookup(cls.mod, b.value.id)
                if isinstance(m, tuple) and m[0] == "mod" and m[1] in self.mods: t = self.lookup(self.mods[m[1]], b.attr)
            if isinstance(t, Cls):
                for c in self.mro(t):
                    if c not in res: res.append(c)
        self._mro[cls] = res
        return res

    def method(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None: m = m[m.index(after) + 1:]
        for c in m:
            if name in c.fns: return c.fns[name]
        return None

    def const(self, cls, name):
        for c in self.mro(cls):
            if name in c.consts: return c.consts[name], c
        return None

    def cls(self, qual):
        m, n = qual.rsplit(".", 1)
        return self.mods[m].classes[n]

    def optimizers(self):
        """The optimizer classes, in the order of their module."""
        opt = self.cls("mealpy.optimizer.Optimizer")
        return [c for m in self.mods.values() if m.name.count(".") == 2 and m.name.split(".")[1].endswith("_based") for c in m.classes.values() if opt in self.mro(c)]
