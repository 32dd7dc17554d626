"""Resolution of names, members and call signatures over the package's syntax trees."""
import ast
import json
import os

PKG = "quantum_systems"
KEEP = {"property", "staticmethod", "classmethod", "abstractmethod", "abstractproperty", "njit", "jit", "vectorize", "guvectorize", "lru_cache", "cache", "contextmanager",
        "setter", "getter", "deleter", "wraps", "cached_property", "override", "final"}
OBJ = {"__class__", "__dict__", "__doc__", "__module__", "__init__", "__repr__", "__str__", "__eq__", "__hash__", "__ne__", "__setattr__", "__getattribute__", "__delattr__",
       "__reduce__", "__init_subclass__", "__new__", "__sizeof__", "__dir__", "__format__", "__lt__", "__gt__", "__le__", "__ge__", "__annotations__", "__weakref__",
       "__getstate__", "__reduce_ex__", "__subclasshook__"}
CLSOBJ = OBJ | {"__name__", "__qualname__", "__mro__", "__bases__", "mro", "__subclasses__", "__abstractmethods__", "__base__"}


def ext():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "extnames.json")) as f:
        return {k: set(v) for k, v in json.load(f).items()}


class Sig:
    def __init__(self, node, skip=0):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        self.posonly = {x.arg for x in a.posonlyargs}
        self.pos = pos[skip:] if len(pos) >= skip else []
        self.short = len(pos) < skip and not a.vararg
        self.nreq = max(0, len(pos) - nd - skip)
        self.var = a.vararg is not None
        self.kw = a.kwarg is not None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]

    def problem(self, call):
        """why the call cannot be bound, or None"""
        star = any(isinstance(x, ast.Starred) for x in call.args)
        npos = sum(not isinstance(x, ast.Starred) for x in call.args)
        kws = [k.arg for k in call.keywords]
        dstar = None in kws
        kws = [k for k in kws if k is not None]
        if self.short:
            return "the method takes no instance argument"
        if npos > len(self.pos) and not self.var:
            return f"takes {len(self.pos)} positional arguments, {npos} are given"
        for k in kws:
            if k in self.pos and k not in self.posonly:
                if self.pos.index(k) < npos:
                    return f"argument {k!r} is given twice"
            elif k not in self.kwonly and not self.kw:
                return f"has no argument {k!r}"
        if len(set(kws)) != len(kws):
            return "an argument is given twice"
        if not star and not dstar:
            miss = [p for k, p in enumerate(self.pos[:self.nreq]) if k >= npos and p not in kws]
            miss += [k for k in self.kwreq if k not in kws]
            if miss:
                return "misses the argument" + ("s " if len(miss) > 1 else " ") + ", ".join(map(repr, miss))
        elif not dstar and star:
            miss = [k for k in self.kwreq if k not in kws]
            if miss:
                return "misses the keyword argument " + miss[0]
        return None

    def refuses(self, base, keywords=()):
        """a call that base accepts and self does not, or None; names of required arguments matter only where a call uses them"""
        if base.var and not self.var:
            return "any number of positional arguments"
        if not self.var and len(self.pos) < len(base.pos):
            return f"{len(base.pos)} positional arguments"
        if self.nreq > base.nreq:
            return f"a call without argument {self.pos[base.nreq]!r}"
        for k, p in enumerate(base.pos):
            if p in base.posonly or self.kw and p not in self.pos:
                continue
            if p in self.kwonly:
                return f"argument {p!r} by position"
            if k < base.nreq and p not in keywords:
                continue
            if p not in self.pos:
                return f"argument {p!r} by keyword"
            if self.pos.index(p) != k and k < len(self.pos):
                return f"argument {p!r} at position {k + 1}"
        for p in base.kwonly:
            if p not in self.kwonly and p not in self.pos and not self.kw:
                return f"keyword argument {p!r}"
        if base.kw and not self.kw:
            return "arbitrary keyword arguments"
        for p in self.kwreq:
            if p not in base.kwreq:
                return f"a call without keyword argument {p!r}"
        return None


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases, self.open = [], False
        self.members = {}          # name -> ("method"|"property"|"static"|"class"|"attr", node, has_setter)
        self.abstract = set()
        self.subs = []

    def mro(self):
        def lin(c, seen=()):
            if c in seen:
                return [c]
            seqs = [lin(b, seen + (c,)) for b in c.bases] + [list(c.bases)]
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    return out + [x for s in seqs for x in s if x not in out]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
            return out
        return lin(self)

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            if after not in m:
                return None
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.members:
                return c, c.members[name]
        return None

    def unimplemented(self):
        out = []
        for c in self.mro():
            for a in c.abstract:
                if self.find(a)[0] is c:
                    out.append(a)
        return out


def decname(d):
    if isinstance(d, ast.Call):
        d = d.func
    return d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else "?"


class Mod:
    def __init__(self, name, path, tree, ispkg):
        self.name, self.path, self.tree, self.ispkg = name, path, tree, ispkg
        self.names = {}            # module level bindings: name -> list of descriptions
        self.star = False
        self.classes, self.funcs = {}, {}


def walk_scope(body):
    """nodes of this scope only (nested functions, lambdas, classes and comprehensions are given but not entered)"""
    todo = list(body)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo[:0] = n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
            continue
        if isinstance(n, ast.ClassDef):
            todo[:0] = n.decorator_list + n.bases + [k.value for k in n.keywords]
            continue
        if isinstance(n, ast.Lambda):
            todo[:0] = n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
            continue
        todo[:0] = list(ast.iter_child_nodes(n))


def targets(body):
    """names bound in this scope (comprehension variables are their own scope)"""
    out, glob, nonl = {}, set(), set()

    def tgt(t, what):
        if isinstance(t, ast.Name):
            out.setdefault(t.id, []).append(what)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e, None)
        elif isinstance(t, ast.Starred):
            tgt(t.value, None)
    todo = list(body)
    while todo:
        n = todo.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.setdefault(n.name, []).append(n)
            continue
        if isinstance(n, (ast.Lambda,)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    tgt(x.target, None)
            continue
        if isinstance(n, ast.Import):
            for a in n.names:
                out.setdefault(a.asname or a.name.split(".")[0], []).append(("import", a.name if a.asname else a.name.split(".")[0], n))
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                out.setdefault(a.asname or a.name, []).append(("from", n, a.name))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t, n.value)
        elif isinstance(n, (ast.AnnAssign,)):
            if n.value is not None:
                tgt(n.target, n.value)
        elif isinstance(n, ast.AugAssign):
            tgt(n.target, None)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target, None)
        elif isinstance(n, ast.withitem):
            if n.optional_vars is not None:
                tgt(n.optional_vars, None)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.setdefault(n.name, []).append(None)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target, n.value)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl |= set(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                out.setdefault(n.name, []).append(None)
        elif isinstance(n, ast.MatchMapping):
            if n.rest:
                out.setdefault(n.rest, []).append(None)
        todo[:0] = list(ast.iter_child_nodes(n))
    return out, glob, nonl


def argnames(a):
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def caught(handlers, names):
    for h in handlers:
        ts = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
        for t in ts:
            if t is None or (t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", None)) in names:
                return True
    return False


class Lint:
    def __init__(self, program):
        self.ext = ext()
        self.mods, self.classes = {}, []
        for name, (path, tree, ispkg) in program.own.items():
            self.mods[name] = Mod(name, path, tree, ispkg)
        self.count = {"names": 0, "members": 0, "calls": 0, "overrides": 0, "imports": 0, "external members": 0, "functions": 0, "classes": 0}
        self.bad = []              # (rule, path, function, line, text)
        self.seen = []             # (rule, path, function) analysed
        for m in self.mods.values():
            t, _, _ = targets(m.tree.body)
            m.names = t
            m.star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree))
            # names made global inside functions
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    for x in n.names:
                        m.names.setdefault(x, []).append(None)
        self.parents = {}
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    self.parents[c] = n
        for m in self.mods.values():
            for n in m.tree.body:
                self.toplevel(m, n)
        for c in self.classes:
            self.bases(c)
        for c in self.classes:
            for b in c.bases:
                b.subs.append(c)
        self.external_attrs()
        self.keywords = {}         # method name -> keywords some call by that name passes
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    self.keywords.setdefault(n.func.attr, set()).update(k.arg for k in n.keywords if k.arg)

    def toplevel(self, m, n):
        if isinstance(n, ast.ClassDef):
            c = Cls(m, n)
            m.classes[n.name] = c
            self.classes.append(c)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            m.funcs[n.name] = n
        elif isinstance(n, (ast.If, ast.Try)):
            for x in ast.iter_child_nodes(n):
                self.toplevel(m, x)

    # -- classes
    def bases(self, c):
        for b in c.node.bases:
            r = self.resolve_expr(c.mod, b, {})
            if isinstance(r, Cls):
                c.bases.append(r)
            else:
                nm = b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", "?")
                if nm not in ("ABC", "object"):
                    c.open = True
        if c.node.decorator_list:
            c.open = True
        for n in c.node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                ds = [decname(d) for d in n.decorator_list]
                kind = "method"
                if any(d in ("property", "abstractproperty", "cached_property") for d in ds):
                    kind = "property"
                elif "staticmethod" in ds:
                    kind = "static"
                elif "classmethod" in ds:
                    kind = "class"
                elif any(d in ("setter", "deleter", "getter") for d in ds):
                    base = n.decorator_list[0].value.id if isinstance(n.decorator_list[0], ast.Attribute) and isinstance(n.decorator_list[0].value, ast.Name) else n.name
                    old = c.members.get(n.name) or c.members.get(base)
                    setter = "setter" in ds or bool(old and old[2])
                    c.members[n.name] = ("property", old[1] if old else n, setter)
                    continue
                elif any(d not in KEEP for d in ds):
                    kind = "unknown"
                c.members[n.name] = (kind, n, False)
                if "abstractmethod" in ds or "abstractproperty" in ds:
                    c.abstract.add(n.name)
                else:
                    c.abstract.discard(n.name)
        t, _, _ = targets(c.node.body)
        for k, v in t.items():
            if k not in c.members:
                val = v[-1]
                if isinstance(val, ast.Name) and val.id in c.members:
                    c.members[k] = c.members[val.id]
                elif isinstance(val, ast.Call) and decname(val) == "property":
                    c.members[k] = ("property", val, len(val.args) > 1 or any(x.arg == "fset" for x in val.keywords))
                elif isinstance(val, ast.Call) and decname(val) in ("staticmethod", "classmethod"):
                    c.members[k] = ("unknown", val, False)
                else:
                    c.members[k] = ("attr", val, False)
        # instance attributes
        for n in c.node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if n.name in ("__getattr__", "__getattribute__"):
                    c.open = True
                a = n.args.posonlyargs + n.args.args
                if not a or any(decname(d) == "staticmethod" for d in n.decorator_list):
                    continue
                me = a[0].arg
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                        if isinstance(x.ctx, ast.Store):
                            c.members.setdefault(self.mangle(c, x.attr), ("attr", x, False))
                        if x.attr == "__dict__":
                            c.open = True
                    if isinstance(x, ast.Call):
                        f = x.func
                        if isinstance(f, ast.Name) and f.id == "setattr" and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == me:
                            self.setattr_names(c, n, x)
                        if isinstance(f, ast.Name) and f.id == "vars":
                            c.open = True

    def setattr_names(self, c, fn, call):
        k = call.args[1] if len(call.args) > 1 else None
        if isinstance(k, ast.Constant) and isinstance(k.value, str):
            c.members.setdefault(k.value, ("attr", call, False))
        elif isinstance(k, ast.Name):
            # the name comes from data: any string of the module may be it
            strs = {x.value for x in ast.walk(c.mod.tree) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier()}
            if any(isinstance(x, (ast.JoinedStr, ast.BinOp)) and any(isinstance(y, ast.Constant) and isinstance(y.value, str) for y in ast.iter_child_nodes(x))
                   and self.feeds(fn, k.id, x) for x in ast.walk(fn)):
                c.open = True
            for v in strs:
                c.members.setdefault(v, ("attr", call, False))
        else:
            c.open = True

    def feeds(self, fn, name, expr):
        """may the value of expr be bound to the name? (any binding statement of the name that contains it)"""
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == name for t in x.targets for y in ast.walk(t)):
                if any(y is expr for y in ast.walk(x.value)):
                    return True
            if isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)):
                if any(y is expr for y in ast.walk(x.iter)):
                    return True
        return False

    def mangle(self, c, a):
        if a.startswith("__") and not a.endswith("__"):
            return "_" + c.name.lstrip("_") + a
        return a

    def external_attrs(self):
        """attributes set on other objects anywhere in the package"""
        self.outside = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.outside.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        self.outside.add(n.args[1].value)
        self.allmembers = set(self.outside)
        for c in self.classes:
            self.allmembers |= set(c.members)
        for m in self.mods.values():
            self.allmembers |= set(m.names)
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.allmembers.add(n.name)
            self.allmembers |= {x.split(".")[-1] for x in self.mods}

    # -- names
    def modname(self, m, n):
        if n.level:
            parts = m.name.split(".")
            if not m.ispkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (n.level - 1)]
            return ".".join(parts + ([n.module] if n.module else []))
        return n.module

    def resolve_binding(self, m, d, depth=0):
        """what a module level binding denotes: Cls, function node, Mod, ("ext", dotted) or None"""
        if depth > 8:
            return None
        if isinstance(d, ast.ClassDef):
            return m.classes.get(d.name)
        if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return d
        if isinstance(d, tuple) and d[0] == "import":
            if d[1] in self.mods:
                return self.mods[d[1]]
            return ("ext", d[1])
        if isinstance(d, tuple) and d[0] == "from":
            src = self.modname(m, d[1])
            full = f"{src}.{d[2]}"
            if src in self.mods:
                s = self.mods[src]
                if d[2] in s.names and (s is not m):
                    return self.resolve_binding(s, s.names[d[2]][-1], depth + 1) if len(s.names[d[2]]) == 1 else None
                return self.mods.get(full)
            return ("ext", full)
        if isinstance(d, (ast.Name, ast.Attribute)):
            return self.resolve_expr(m, d, {}, depth + 1)
        return None

    def resolve_expr(self, m, e, local, depth=0):
        if depth > 8:
            return None
        if isinstance(e, ast.Name):
            if e.id in local:
                v = local[e.id]
                if v and len(v) == 1 and v[0] is not None:
                    return self.resolve_binding(m, v[0], depth + 1) if not isinstance(v[0], ast.Lambda) else v[0]
                return None
            v = m.names.get(e.id)
            if v and len(v) == 1 and v[0] is not None:
                return self.resolve_binding(m, v[0], depth + 1)
            return None
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, local, depth + 1)
            if isinstance(b, Mod):
                v = b.names.get(e.attr)
                if v and len(v) == 1 and v[0] is not None:
                    return self.resolve_binding(b, v[0], depth + 1)
                return self.mods.get(b.name + "." + e.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    def fail(self, rule, m, fn, node, text):
        self.bad.append((rule, m.path, fn, getattr(node, "lineno", 0), text))

    # -- run
    def run(self):
        for m in self.mods.values():
            self.imports(m)
            self.scope(m, m.tree.body, None, "<module>", [], None)
        for c in self.classes:
            self.count["classes"] += 1
            self.members(c)
            self.override(c)
        return self

    def guarded(self, node, names):
        """inside a try whose handlers catch one of the exceptions"""
        n = node
        while n in self.parents:
            p = self.parents[n]
            if isinstance(p, ast.Try) and n in p.body and caught(p.handlers, names):
                return True
            if isinstance(p, (ast.FunctionDef, ast.ClassDef)) and False:
                break
            n = p
        return False

    def imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                src = self.modname(m, n)
                if src is None or not (src == PKG or src.startswith(PKG + ".")):
                    for a in n.names:
                        if src in self.ext and a.name != "*":
                            self.count["imports"] += 1
                            if a.name not in self.ext[src] and f"{src}.{a.name}" not in self.ext and not self.guarded(n, ("ImportError", "Exception", "BaseException")):
                                self.fail("import", m, "<module>", n, f"{src} has no {a.name}")
                    continue
                for a in n.names:
                    self.count["imports"] += 1
                    if self.guarded(n, ("ImportError", "ModuleNotFoundError", "Exception", "BaseException")):
                        continue
                    if src not in self.mods:
                        self.fail("import", m, "<module>", n, f"there is no module {src}")
                    elif a.name != "*" and a.name not in self.mods[src].names and f"{src}.{a.name}" not in self.mods and not self.mods[src].star:
                        self.fail("import", m, "<module>", n, f"{src} does not define {a.name}")
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == PKG or a.name.startswith(PKG + "."):
                        self.count["imports"] += 1
                        if a.name not in self.mods and not self.guarded(n, ("ImportError", "ModuleNotFoundError", "Exception", "BaseException")):
                            self.fail("import", m, "<module>", n, f"there is no module {a.name}")
        al = m.names.get("__all__")
        if al and isinstance(al[-1], (ast.List, ast.Tuple)):
            for e in al[-1].elts:
                if isinstance(e, ast.Constant) and e.value not in m.names and f"{m.name}.{e.value}" not in self.mods:
                    self.fail("import", m, "<module>", e, f"__all__ lists {e.value}, which is not defined")

    def scope(self, m, body, fnode, qual, outer, cls):
        """body of a module, function or class; outer: list of binding dicts of the enclosing functions, innermost last"""
        bound, glob, nonl = targets(body if isinstance(body, list) else [body])
        if fnode is not None and not isinstance(fnode, ast.ClassDef):
            self.count["functions"] += 1
            for a in argnames(fnode.args):
                bound.setdefault(a, []).insert(0, None)
        for g in glob | nonl:
            bound.pop(g, None)
        isfn = fnode is not None and not isinstance(fnode, ast.ClassDef)
        chain = outer + ([bound] if isfn else [])
        local = {}
        for b in chain:
            local.update(b)
        if isinstance(fnode, ast.ClassDef):
            local.update(bound)
        F = Flow(self, m, qual, bound if isfn else {}, chain, fnode, cls, bound if isinstance(fnode, ast.ClassDef) else {}, glob)
        start = set(argnames(fnode.args)) if isfn else set()
        F.stmts(body if isinstance(body, list) else [ast.Expr(body)], start)
        for kind, n, visible in F.nested:
            if kind == "fn":
                nm = getattr(n, "name", "<lambda>")
                self.scope(m, n.body, n, (qual + "." if qual != "<module>" else "") + nm, chain, None)
            else:
                self.scope(m, n.body, n, (qual + "." if qual != "<module>" else "") + n.name, chain, None)
        # calls and external members in this scope
        for n in walk_scope(body if isinstance(body, list) else [body]):
            if isinstance(n, ast.Call):
                self.call(m, qual, n, local)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.extmember(m, qual, n, local)

    def call(self, m, qual, n, local):
        r = self.resolve_expr(m, n.func, local)
        what = ast.unparse(n.func)
        if isinstance(r, Cls):
            self.count["calls"] += 1
            if r.unimplemented():
                self.fail("call", m, qual, n, f"{what} is abstract: {', '.join(r.unimplemented())} not implemented")
                return
            if r.open or any(c.open for c in r.mro()):
                return
            if r.find("__new__"):
                return
            f = r.find("__init__")
            if f is None:
                if n.args or n.keywords:
                    self.fail("call", m, qual, n, f"{what}() takes no arguments")
                return
            if f[1][0] == "method":
                p = Sig(f[1][1], 1).problem(n)
                if p:
                    self.fail("call", m, qual, n, f"{what}(...): {p}")
        elif isinstance(r, (ast.FunctionDef, ast.Lambda)):
            if isinstance(r, ast.FunctionDef) and any(decname(d) not in KEEP for d in r.decorator_list):
                return
            self.count["calls"] += 1
            p = Sig(r).problem(n)
            if p:
                self.fail("call", m, qual, n, f"{what}(...): {p}")
        elif r is None and isinstance(n.func, ast.Attribute):
            c = self.resolve_expr(m, n.func.value, local)
            if isinstance(c, Cls) and not any(x.open for x in c.mro()):
                f = c.find(n.func.attr)
                if f is None:
                    if n.func.attr not in CLSOBJ and n.func.attr not in self.outside:
                        self.fail("member", m, qual, n, f"class {c.name} has no {n.func.attr}")
                elif f[1][0] in ("static", "class", "method"):
                    self.count["calls"] += 1
                    p = Sig(f[1][1], 1 if f[1][0] == "class" else 0).problem(n)
                    if p:
                        self.fail("call", m, qual, n, f"{what}(...): {p}")

    def extmember(self, m, qual, n, local):
        r = self.resolve_expr(m, n.value, local)
        if r is None and isinstance(n.value, (ast.Name, ast.Attribute)) and (n.value.id if isinstance(n.value, ast.Name) else n.value.attr) in ("np", "_np"):
            r = ("ext", "numpy")         # an array module passed as a value
        if isinstance(r, Mod):
            self.count["members"] += 1
            if n.attr not in r.names and f"{r.name}.{n.attr}" not in self.mods and not r.star and not n.attr.startswith("__"):
                self.fail("member", m, qual, n, f"module {r.name} has no {n.attr}")
            return
        if isinstance(r, tuple) and r[0] == "ext" and r[1] in self.ext:
            self.count["external members"] += 1
            if n.attr not in self.ext[r[1]] and f"{r[1]}.{n.attr}" not in self.ext and not n.attr.startswith("__") and not self.guarded(n, ("AttributeError", "Exception", "BaseException")):
                if not self.hasattr_guard(n):
                    self.fail("member", m, qual, n, f"{r[1]} has no {n.attr}")
            return
        if r is None and n.attr not in self.allmembers and n.attr not in self.ext["<instances>"]:
            if not any(n.attr in v for v in self.ext.values()) and not self.guarded(n, ("AttributeError", "Exception", "BaseException")) and not self.hasattr_guard(n):
                self.fail("member", m, qual, n, f"nothing has an attribute {n.attr}")
            return
        if isinstance(r, Cls) and not any(x.open for x in r.mro()):
            self.count["members"] += 1
            if r.find(n.attr) is None and n.attr not in CLSOBJ and n.attr not in self.outside:
                self.fail("member", m, qual, n, f"class {r.name} has no {n.attr}")

    def hasattr_guard(self, n):
        """the enclosing function tests for the attribute by name"""
        p = n
        while p in self.parents and not isinstance(p, (ast.FunctionDef, ast.Module)):
            p = self.parents[p]
        for x in ast.walk(p):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == n.attr:
                return True
        return False

    # -- members of self
    def instantiable(self, c):
        return not c.unimplemented() and (not c.subs or self.exported(c) or self.created(c))

    def exported(self, c):
        top = self.mods.get(PKG)
        for nm, v in top.names.items() if top else ():
            if any(self.resolve_binding(top, d) is c for d in v if d is not None):
                return True
        return False

    def created(self, c):
        if not hasattr(self, "_created"):
            self._created = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call):
                        r = self.resolve_expr(m, n.func, {})
                        if isinstance(r, Cls):
                            self._created.add(r)
        return c in self._created

    def members(self, c):
        if not self.instantiable(c):
            return
        mro = c.mro()
        if any(x.open for x in mro):
            return
        have = set(OBJ)
        for x in mro:
            have |= set(x.members)
        for d in mro:
            for n in d.node.body:
                if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                kinds = [decname(x) for x in n.decorator_list]
                if "staticmethod" in kinds or not (n.args.posonlyargs + n.args.args):
                    continue
                # is this definition reachable on an instance of c?
                f = c.find(n.name)
                if f and f[0] is not d and not self.super_reach(c, d, n.name):
                    continue
                me = (n.args.posonlyargs + n.args.args)[0].arg
                iscls = "classmethod" in kinds
                qual = f"{d.name}.{n.name}"
                if any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(n)):
                    continue
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Store):
                        g = c.find(self.mangle(d, x.attr))
                        self.count["members"] += 1
                        if g and g[1][0] == "property" and not g[1][2] and not any(decname(q) == "cached_property" for q in getattr(g[1][1], "decorator_list", ())):
                            if not self.guarded(x, ("AttributeError", "Exception", "BaseException")):
                                self.fail("member", d.mod, qual, x, f"{x.attr} of a {c.name} cannot be set (property without a setter)")
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Load):
                        a = self.mangle(d, x.attr)
                        self.count["members"] += 1
                        if a not in have and a not in self.outside and not (iscls and a in CLSOBJ):
                            if not self.guarded(x, ("AttributeError", "Exception", "BaseException")) and not self.hasattr_guard(x):
                                self.fail("member", d.mod, qual, x, f"{c.name} has no attribute {x.attr}")
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                        v = x.func.value
                        if isinstance(v, ast.Name) and v.id == me:
                            f = c.find(self.mangle(d, x.func.attr))
                        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and (not v.args or len(v.args) == 2):
                            after = d
                            if v.args:
                                after = self.resolve_expr(d.mod, v.args[0], {})
                                if not isinstance(after, Cls):
                                    continue
                            f = c.find(x.func.attr, after)
                            if f is None:
                                if x.func.attr in OBJ:
                                    if x.func.attr == "__init__" and (x.args or [k for k in x.keywords if k.arg]):
                                        self.fail("call", d.mod, qual, x, f"object.__init__ takes no arguments (on an instance of {c.name})")
                                else:
                                    self.fail("member", d.mod, qual, x, f"no base class of {after.name} has {x.func.attr}")
                                continue
                        else:
                            continue
                        if f is None:
                            continue
                        kind, node, _ = f[1]
                        if kind in ("method", "class", "static") and isinstance(node, ast.FunctionDef):
                            if any(decname(q) not in KEEP for q in node.decorator_list):
                                continue
                            self.count["calls"] += 1
                            skip = 0 if kind == "static" else 1
                            if iscls and kind == "method" and not (isinstance(v, ast.Call)):
                                skip = 0
                            p = Sig(node, skip).problem(x)
                            if p and not self.guarded(x, ("TypeError", "Exception", "BaseException")):
                                self.fail("call", d.mod, qual, x, f"{ast.unparse(x.func)}(...) on an instance of {c.name}: {p}")

    def super_reach(self, c, d, name):
        """is the overridden definition d.name called through super() from an overriding one?"""
        for e in c.mro():
            if e is d:
                return False
            if name in e.members and isinstance(e.members[name][1], ast.AST):
                for x in ast.walk(e.members[name][1]):
                    if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "super":
                        return True
                    if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == d.name:
                        return True
        return False

    def override(self, c):
        for name, (kind, node, setter) in c.members.items():
            if name in ("__init__", "__new__", "__init_subclass__") or (name.startswith("__") and not name.endswith("__")):
                continue
            f = c.find(name, c)
            if f is None:
                continue
            b, (bkind, bnode, bsetter) = f
            self.count["overrides"] += 1
            qual = f"{c.name}.{name}"
            fkinds = ("method", "static", "class")
            if bkind in fkinds and kind in fkinds and isinstance(node, ast.FunctionDef) and isinstance(bnode, ast.FunctionDef):
                if any(decname(q) not in KEEP for q in node.decorator_list + bnode.decorator_list):
                    continue
                s, t = Sig(node, 0 if kind == "static" else 1), Sig(bnode, 0 if bkind == "static" else 1)
                p = s.refuses(t, self.keywords.get(name, ()))
                if p:
                    self.fail("override", c.mod, qual, node, f"{c.name}.{name} does not accept {p}, {b.name}.{name} does")
            elif bkind in fkinds and kind == "property" or bkind == "property" and kind in fkinds:
                self.fail("override", c.mod, qual, node, f"{name} is a {'property' if kind == 'property' else 'method'} of {c.name} and a {'property' if bkind == 'property' else 'method'} of {b.name}")
            elif bkind == "property" and kind == "property" and bsetter and not setter:
                self.fail("override", c.mod, qual, node, f"{name} can be set on {b.name} but not on {c.name}")


class Flow:
    """forward may-be-assigned analysis: a local name no path has assigned before its use is unbound"""

    def __init__(self, L, m, qual, bound, chain, fnode, cls, classbound, glob):
        self.L, self.m, self.qual, self.bound, self.chain, self.classbound, self.glob = L, m, qual, bound, chain, classbound, glob
        self.nested = []
        self.loops = []
        self.again = []            # per enclosing loop: the names its body assigns (a conditional use may see an earlier round's)
        self.module = fnode is None

    def may(self, st):
        return set(st).union(*self.again)

    def load(self, n, st, extra=()):
        x = n.id
        self.L.count["names"] += 1
        if x in extra:
            return
        if x in self.bound and self.chain and self.chain[-1] is self.bound:
            if x not in st and not self.L.guarded(n, ("NameError", "UnboundLocalError", "Exception", "BaseException")):
                self.L.fail("name", self.m, self.qual, n, f"{x} is used before any assignment reaches it")
            return
        if x in self.classbound or any(x in b for b in self.chain):
            return
        if x in self.m.names or self.m.star or x in self.L.ext["builtins"] or x in ("__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__class__"):
            return
        if x in self.glob:
            return
        if not self.L.guarded(n, ("NameError", "Exception", "BaseException")):
            self.L.fail("name", self.m, self.qual, n, f"name {x} is not defined")

    def expr(self, e, st, extra=frozenset()):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.load(e, st, extra)
            elif isinstance(e.ctx, ast.Del):
                self.load(e, st, extra)
                st.discard(e.id)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                self.expr(d, st, extra)
            if extra:
                # inside a comprehension: its variables are visible
                self.chain.append({k: [None] for k in extra})
                self.L.scope(self.m, e.body, e, (self.qual + "." if self.qual != "<module>" else "") + "<lambda>", list(self.chain), None)
                self.chain.pop()
            else:
                self.nested.append(("fn", e, None))
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            ex = set(extra)
            for g in e.generators:
                self.expr(g.iter, st, frozenset(ex))
                ex |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for i in g.ifs:
                    self.expr(i, st, frozenset(ex))
            for p in ((e.key, e.value) if isinstance(e, ast.DictComp) else (e.elt,)):
                self.expr(p, st, frozenset(ex))
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, st, extra)
            st.add(e.target.id)
            return
        if isinstance(e, ast.BoolOp):
            self.expr(e.values[0], st, extra)
            for v in e.values[1:]:
                self.cond(v, st, extra)
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, st, extra)
            self.cond(e.body, st, extra)
            self.cond(e.orelse, st, extra)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, st, extra)

    def cond(self, e, st, extra):
        """an expression evaluated only sometimes"""
        w = self.may(st)
        self.expr(e, w, extra)
        st |= {x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)}

    def assign(self, t, st):
        if isinstance(t, ast.Name):
            st.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, st)
        else:
            self.expr(t, st)

    def stmts(self, body, st):
        """returns the state after the statements, None if they never complete"""
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def join(self, *sts):
        sts = [s for s in sts if s is not None]
        return set().union(*sts) if sts else None

    def const(self, e):
        return bool(e.value) if isinstance(e, ast.Constant) else None

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.expr(d, st)
            self.nested.append(("fn", s, None))
            st.add(s.name)
            return st
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.expr(d, st)
            self.nested.append(("class", s, None))
            st.add(s.name)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st.add(a.asname or a.name.split(".")[0])
            return st
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            for t in s.targets:
                self.assign(t, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, st)
                self.assign(s.target, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.load(s.target, st)
            else:
                self.expr(s.target, st)
            self.expr(s.value, st)
            self.assign(s.target, st)
            return st
        if isinstance(s, ast.Return):
            self.expr(s.value, st)
            return None
        if isinstance(s, ast.Raise):
            self.expr(s.exc, st)
            self.expr(s.cause, st)
            return None
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1].append(set(st))
            return None
        if isinstance(s, ast.Continue):
            return None
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            c = self.const(s.test)
            a = self.stmts(s.body, self.may(st)) if c is not False else None
            b = self.stmts(s.orelse, self.may(st)) if c is not True else None
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            # names a previous round may have assigned
            inner, _, _ = targets(s.body)
            if isinstance(s, ast.While):
                pre = set(st)
                self.expr(s.test, set(st) | (set(inner) & set(self.bound)) if self.const(s.test) is None else set(st))
                forever = self.const(s.test) is True
            else:
                self.expr(s.iter, st)
                pre = set(st)
                forever = False
            start = set(pre) | set(inner)
            # the first round decides whether a use can ever be reached by an assignment: uses before any assignment on the first round raise
            first = set(pre)
            if not isinstance(s, ast.While):
                self.assign(s.target, first)
            self.loops.append([])
            if self.again:
                first = self.may(first)      # the inner loop may be empty in the outer loop's first round
            self.again.append(set(inner))
            end = self.stmts(s.body, first)
            self.again.pop()
            br = self.loops.pop()
            out = None if forever else self.join(pre, end, set(pre) | set(inner))
            if not forever:
                out = self.stmts(s.orelse, out) if s.orelse else out
            elif br:
                br = [x | set(inner) for x in br]
            return self.join(out, *br)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, st)
            inner, _, _ = targets(s.body)
            r = self.stmts(s.body, set(st))
            return r if r is not None else self.suppress(s, st, inner)
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            inner, _, _ = targets(s.body)
            a = self.stmts(s.body, set(st))
            outs = []
            for h in s.handlers:
                self.expr(h.type, st)
                hs = set(st) | set(inner)
                if h.name:
                    hs.add(h.name)
                outs.append(self.stmts(h.body, hs))
            if a is not None and s.orelse:
                a = self.stmts(s.orelse, a)
            outs.append(a)
            r = self.join(*outs)
            if s.finalbody:
                allb = set(st) | set(inner)
                for h in s.handlers:
                    allb |= set(targets(h.body)[0])
                fin = self.stmts(s.finalbody, allb if r is None else set(r) | allb)
                if r is None or fin is None:
                    return None
                return fin
            return r
        if isinstance(s, ast.Match):
            self.expr(s.subject, st)
            outs = [set(st)]
            for c in s.cases:
                cs = set(st)
                for x in ast.walk(c.pattern):
                    if getattr(x, "name", None):
                        cs.add(x.name)
                    if isinstance(x, ast.MatchMapping) and x.rest:
                        cs.add(x.rest)
                self.expr(c.guard, cs)
                outs.append(self.stmts(c.body, self.may(cs)))
            return self.join(*outs)
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                self.expr(t, st)
            return st
        for c in ast.iter_child_nodes(s):
            self.expr(c, st)
        return st

    def suppress(self, s, st, inner):
        """a with block that never completes normally may still be left when its manager swallows an exception"""
        for i in s.items:
            c = i.context_expr
            if isinstance(c, ast.Call) and decname(c) in ("suppress", "raises", "open", "errstate", "catch_warnings"):
                if decname(c) in ("open", "errstate", "catch_warnings"):
                    continue
                return set(st) | set(inner)
            return set(st) | set(inner)
        return None
