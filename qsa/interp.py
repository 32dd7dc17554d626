"""Interprocedural dataflow analysis over the package's syntax trees.

Every expression is mapped to an exact value term (alg.Poly for scalars, index-notation terms for arrays);
loops with symbolic bounds are analysed once with placeholder contents and summarised; conditions that depend
on a loop index become gates in the terms, other undetermined conditions partition the analysis (Outcome.path).
The program is never executed and no solver is involved."""
import ast
import os
import time
from fractions import Fraction as F

from . import alg, evalp, stubs
from .alg import (Poly, P, POLY1, ZERO, Lam, sym, newidx, idx, el, fn, subst, sumover, eq0, ge0, gt0, bgate,
                  conj, power, fdiv, fmod, const, bounds_poly)
from .values import *

PKG = "quantum_systems"


class Program:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        pk = os.path.join(root, PKG)
        for d, dirs, files in os.walk(pk):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".py"):
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, root)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    src = open(path, encoding="utf-8").read()
                    self.mods[name] = (rel, ast.parse(src, rel), f == "__init__.py")
        self.own = dict(self.mods)
        stubs.install(self.mods)


class Frame:
    __slots__ = ("fid", "chain", "func", "mod", "cls", "self", "globals_", "nonlocals", "name")

    def __init__(self, fid, chain, mod, func=None, cls=None, self_=None, name="<module>"):
        self.fid, self.chain, self.mod, self.func, self.cls, self.self, self.name = fid, chain, mod, func, cls, self_, name
        self.globals_, self.nonlocals = set(), set()


class Exit:
    __slots__ = ("gate", "state", "flow", "val")

    def __init__(self, gate, state, flow, val=None):
        self.gate, self.state, self.flow, self.val = gate, state, flow, val


class Outcome:
    def __init__(self, kind, value, interp):
        self.kind, self.value, self.I = kind, value, interp
        self.path = list(interp.pathlog)

    def __repr__(self):
        return f"<{self.kind} {self.value!r} | {[(alg.show(alg.atom(a)), b) for a, b in self.path]}>"


class NeedDecision(Exception):
    pass


def explore(program, scenario, setup=None, max_paths=400, prune=None, assume=()):
    """all trace partitions of `scenario(I)`; returns list of Outcome"""
    outs = []
    todo = [[]]
    while todo:
        pre = todo.pop()
        I = Interp(program, pre)
        I.assume = list(assume)
        if setup:
            setup(I)
        try:
            v = scenario(I)
            o = Outcome("return", v, I)
        except Raised as r:
            o = Outcome("raise", r, I)
        except Undecided as u:
            o = Outcome("undecided", u, I)
        except alg.Undecidable as u:
            o = Outcome("undecided", u, I)
        except RecursionError:
            o = Outcome("undecided", Undecided("recursion"), I)
        except Exception as ex:              # an analyser limitation, never a verdict
            if os.environ.get("QSA_RAISE"):
                raise
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            o = Outcome("undecided", Undecided(f"analyser: {type(ex).__name__} {ex} ({os.path.basename(tb.filename)}:{tb.lineno})"), I)
        if not (prune and prune(o)):
            outs.append(o)
        taken = I.decisions
        for k in range(len(pre), len(taken)):
            todo.append(taken[:k] + [not taken[k]])
        if len(outs) + len(todo) > max_paths:
            outs.append(Outcome("undecided", Undecided("too many partitions"), I))
            break
    return outs


MAXUNROLL = 40


class Interp:
    def __init__(self, program, prefix=()):
        self.program = program
        self.deadline = None
        self.S = State()
        self.prefix = list(prefix)
        self.decisions = []
        self.path = {}        # atom key -> bool
        self.pathlog = []     # (atom, bool)
        self.facts = []       # Polys known >= 0
        self.mods = {}
        self.stack = []
        self.node = None
        self.loopvars = set()
        self.probed = set()
        self.stale = {}
        self.keyvals = {}
        self.memolog = {}
        self.born = {}        # loops inside which a dictionary was created
        self.gates = []       # conditions the statement being analysed is under
        self.phsyms = set()
        self.intercepts = {}
        self.ctxs = {}
        self.yields = []
        self.vdirs = None
        self.mol_nao, self.mol_ne = None, {}
        self.hits = {}
        self.env = {}         # modelled environment variables
        self.par = []         # prange loops
        self.unmodelled = set()
        self.assume = []
        self.depth = 0
        self.trace = set()    # functions analysed
        self.whiles = []
        self.trips = ()              # candidate trip counts (verified before use)
        self.maxunroll = MAXUNROLL
        self.vfs = None
        from . import npmodel
        self.np = npmodel

    # ------------------------------------------------------------------ locations
    def loc(self, node=None):
        fr = self.stack[-1] if self.stack else None
        node = node or self.node
        return (fr.mod.path if fr and fr.mod else "?", fr.name if fr else "?", getattr(node, "lineno", 0))

    def undec(self, why, node=None):
        f, n, l = self.loc(node)
        raise Undecided(f"{why} ({f}:{l} in {n})")

    def raise_(self, exc, msg=""):
        raise Raised(exc, msg, self.loc())

    # ------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.module(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        if name not in self.program.mods:
            self.raise_("ModuleNotFoundError", name)
        path, tree, ispkg = self.program.mods[name]
        m = Mod(name, path, tree)
        fid = fresh()
        self.S.frames[fid] = {"__name__": name}
        m.frame = fid
        self.mods[name] = m
        fr = Frame(fid, (fid,), m)
        saved = self.node
        self.stack.append(fr)
        try:
            ex, c = self.block(tree.body, fr)
        finally:
            self.stack.pop()
            self.node = saved
        if "." in name:
            par, last = name.rsplit(".", 1)
            self.S.frames[self.mods[par].frame].setdefault(last, m)
        return m

    def get(self, qual):
        """value of a dotted name in the package, e.g. quantum_systems.basis_set.BasisSet.h"""
        parts = qual.split(".")
        for k in range(len(parts), 0, -1):
            n = ".".join(parts[:k])
            if n in self.program.mods:
                m = self.module(n)
                v = m
                for a in parts[k:]:
                    v = self.getattr(v, a)
                return v
        self.undec(f"anchor {qual} not found")

    # ------------------------------------------------------------------ decisions
    def known(self, a):
        """truth of a gate atom from the path, or None"""
        k = alg.akey(a, {})
        if k in self.path:
            return self.path[k]
        if a[0] in ("ge", "gt"):
            p = a[1]
            for q in self.facts:
                d = (p - q).as_frac()
                if d is not None and (d >= 0 if a[0] == "ge" else d > 0):
                    return True
                d = (-p - q).as_frac()
                # q >= 0 and -p = q + d  =>  p = -q - d <= -d
                if d is not None and (d > 0 or (d == 0 and a[0] == "gt")):
                    return False
        if a[0] == "eq":
            for q in self.facts:
                for s in (a[1], -a[1]):
                    d = (s - q).as_frac()
                    if d is not None and d > 0:
                        return False
        return None

    def assume_gate(self, a, val):
        k = alg.akey(a, {})
        self.path[k] = val
        p = a[1]
        if a[0] == "ge":
            if val:
                self.facts.append(p)
            else:
                self.facts.append(-p - 1 if alg.is_int(p) else -p)
        elif a[0] == "gt":
            self.facts.append(p if val else -p)
        elif a[0] == "eq" and val:
            self.facts.append(p)
            self.facts.append(-p)

    def assume_true(self, poly):
        """add an assumption (a single gate or its negation)"""
        p = self.simp(poly)
        if p.const() is not None:
            return
        for t in p.terms:
            for a, e in t.fac:
                if alg.is_gate(a):
                    one = self.setgate(p, a, 1)
                    zero = self.setgate(p, a, 0)
                    if one == POLY1 and zero.iszero():
                        return self.assume_gate(a, True)
                    if zero == POLY1 and one.iszero():
                        return self.assume_gate(a, False)
        raise Undecided("unsupported assumption")

    def setgate(self, p, a, v):
        k = alg.akey(a, {})
        out = []
        for t in p.terms:
            if any(alg.akey(x, {}) == k for x, e in t.fac):
                if v:
                    out.append(alg.Term(t.coef, t.bound, tuple((x, e) for x, e in t.fac if alg.akey(x, {}) != k)))
            else:
                out.append(t)
        return Poly.merge(out)

    def simp(self, p):
        """replace gates whose truth the path determines"""
        if not self.path and not self.facts:
            return p
        while True:
            for t in p.terms:
                hit = None
                for a, e in t.fac:
                    if alg.is_gate(a):
                        k = self.known(a)
                        if k is not None:
                            hit = (a, k)
                            break
                if hit:
                    break
            else:
                return p
            p = self.setgate(p, hit[0], 1 if hit[1] else 0)

    def gated(self, p):
        """does the truth of p depend on an analysed loop?"""
        if p.fv() & self.loopvars:
            return True
        if self.phsyms:
            s = alg.syms_of(p)
            for n in self.phsyms:
                if n in s or "leaf:" + n in s:
                    return True
        return False

    def branch(self, p):
        """decide a 0/1 Poly: True/False, or None if it has to be gated"""
        while True:
            p = self.simp(p)
            c = p.const()
            if c is not None:
                return not c.iszero()
            if self.gated(p):
                return None
            a = self.pickgate(p)
            if a is None:
                z = alg.eq0(p)
                if z.iszero():
                    return True
                a = z.terms[0].fac[0][0] if len(z.terms) == 1 and len(z.terms[0].fac) == 1 else None
                if a is None or not alg.is_gate(a):
                    a = ("eq", p)            # a bit such as x % 2
                k = self.known(a)
                if k is None:
                    k = not self.fork(a, invert=True)
                return not k
            self.fork(a)

    def pickgate(self, p):
        for t in p.terms:
            for a, e in t.fac:
                if alg.is_gate(a):
                    return a
        # 0/1 valued bit
        for t in p.terms:
            if not t.bound and len(t.fac) == 1 and t.fac[0][0][0] == "mod" and t.fac[0][0][2].as_int() == 2:
                return None
        return None

    def fork(self, a, invert=False):
        n = len(self.decisions)
        v = self.prefix[n] if n < len(self.prefix) else True
        self.decisions.append(v)
        if invert:
            v = not v
            self.assume_gate(a, v)
            self.pathlog.append((a, v))
            return not v
        self.assume_gate(a, v)
        self.pathlog.append((a, v))
        return v

    # ------------------------------------------------------------------ scalars
    def sc(self, v):
        """Sc from a python/abstract scalar, or None"""
        if isinstance(v, Sc):
            return v
        if isinstance(v, bool):
            return Sc(P(v), "b")
        if isinstance(v, int):
            return Sc(const(v), "i")
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return Sc(sym("INF" if v > 0 else "NINF"), "f")
            return Sc(P(v), "f")
        if isinstance(v, complex):
            return Sc(P(v), "c")
        if isinstance(v, Arr) and all(d.as_int() == 1 for d in v.shape):
            return Sc(self.at(v, [ZERO] * len(v.shape)), self.S.cells[v.cell].dt)
        return None

    def poly(self, v, what="number"):
        s = self.sc(v)
        if s is None:
            if isinstance(v, Top):
                raise Undecided(v.why)
            if isinstance(v, Opq):
                return fn("?" + v.key, ())
            if v is None:
                self.raise_("TypeError", f"None used as {what}")
            self.undec(f"not a scalar: {v!r}")
        return s.p

    def norm(self, s):
        """native python int/bool when constant"""
        if isinstance(s, Sc):
            if s.k == "i":
                n = s.p.as_int()
                if n is not None:
                    return n
            if s.k == "b":
                n = s.p.as_int()
                if n is not None:
                    return bool(n)
        return s

    def top_scalar(self, why, k="c"):
        self.unmodelled.add(why)
        return Sc(sym(f"\u22a4{fresh()}:{why}", real=False), k)

    # ------------------------------------------------------------------ arrays
    def newcell(self, shape, vars, body, dt, mod="numpy", label=None):
        c = fresh()
        self.S.cells[c] = Cell(shape, vars, body, dt, mod, label, self.loc() if self.stack else None)
        return c

    def mk(self, shape, f, dt, mod="numpy", label=None):
        """new array with element f([index Polys])"""
        shape = tuple(P(d) for d in shape)
        vs = tuple(newidx(d) for d in shape)
        body = f([idx(v) for v in vs])
        c = self.newcell(shape, vs, body, dt, mod, label)
        return self.whole(c)

    def whole(self, c):
        cell = self.S.cells[c]
        return Arr(c, cell.shape, cell.vars, tuple(idx(v) for v in cell.vars))

    def leaf(self, name, shape, dt="c", label=None, mod="numpy"):
        alg.LEAF_REAL[name] = dt in ("f", "i", "b")
        if dt == "i":
            alg.LEAF_INT.add(name)
        return self.mk(shape, lambda ix: el(name, ix), dt, mod, label or name)

    def at(self, a, ixs):
        """element of an array view at the index Polys"""
        if isinstance(a, (ArrT,)):
            return subst(a.body, dict(zip(a.vars, ixs)))
        cell = self.S.cells[a.cell]
        if a.vars == cell.vars and all(len(e.terms) == 1 and e == idx(v) for e, v in zip(a.imap, cell.vars)):
            return subst(cell.body, dict(zip(cell.vars, ixs)))
        m = dict(zip(a.vars, ixs))
        return subst(cell.body, dict(zip(cell.vars, [subst(e, m) for e in a.imap])))

    def dt(self, a):
        if isinstance(a, (ArrT, Masked)):
            return a.dt
        return self.S.cells[a.cell].dt

    def tmpl(self, a):
        vs = tuple(newidx(d) for d in a.shape)
        c = self.S.cells[a.cell]
        return ArrT(a.shape, vs, self.at(a, [idx(v) for v in vs]), c.dt, c.mod)

    def lam(self, a):
        vs = tuple(newidx(d) for d in a.shape)
        return Lam(a.shape, vs, self.at(a, [idx(v) for v in vs]))

    def same_dim(self, a, b):
        """are two axis lengths equal?  True / False"""
        if a == b:
            return True
        d = a - b
        if d.as_frac() is not None:
            return False
        e = eq0(d)
        s = self.simp(e)
        c = s.const()
        if c is not None:
            return not c.iszero()
        # generic sizes: distinct terms stand for sizes that can differ
        return self.branch(e)

    def bshape(self, *shapes):
        n = max(len(s) for s in shapes)
        out = []
        for k in range(n):
            d = POLY1
            for s in shapes:
                j = k - (n - len(s))
                if j < 0:
                    continue
                x = s[j]
                if x == POLY1:
                    continue
                if d == POLY1:
                    d = x
                elif not self.same_dim(d, x):
                    self.raise_("ValueError", f"operands could not be broadcast together: {d} and {x}")
            out.append(d)
        return tuple(out)

    def bat(self, a, ixs):
        """element of a broadcast operand"""
        s = self.sc(a) if not isinstance(a, (Arr, ArrT)) else None
        if s is not None:
            return s.p
        k = len(ixs) - len(a.shape)
        return self.at(a, [ZERO if d == POLY1 else i for d, i in zip(a.shape, ixs[k:])])

    def elementwise(self, f, args, dt, mod=None):
        """apply f on Polys elementwise over scalars/arrays/masked selections"""
        if any(isinstance(a, Top) for a in args):
            return next(a for a in args if isinstance(a, Top))
        ms = [a for a in args if isinstance(a, Masked)]
        if ms:
            m0 = ms[0]
            polys = []
            for a in args:
                if isinstance(a, Masked):
                    mp = dict(zip(a.vars, [idx(v) for v in m0.vars]))
                    if subst(a.mask, mp) != m0.mask:
                        self.undec("different boolean masks combined")
                    polys.append(subst(a.body, mp))
                else:
                    s = self.sc(a)
                    if s is None:
                        self.undec("mask selection combined with array")
                    polys.append(s.p)
            return Masked(m0.shape, m0.vars, m0.mask, f(*polys), dt)
        arrs = [a for a in args if isinstance(a, Arr)]
        if not arrs:
            return self.norm(Sc(f(*[self.poly(a) for a in args]), dt))
        for a in args:
            if not isinstance(a, Arr) and self.sc(a) is None:
                if isinstance(a, Opq):
                    continue
                self.undec(f"operand {a!r}")
        args = [a if isinstance(a, Arr) else Sc(self.poly(a), "c") for a in args]
        shape = self.bshape(*[a.shape for a in arrs])
        mod = mod or self.S.cells[arrs[0].cell].mod
        return self.mk(shape, lambda ix: f(*[self.bat(a, ix) for a in args]), dt, mod)

    # ------------------------------------------------------------------ array stores
    def cast_store(self, body, dt, target):
        """value as stored into an array of element kind `target`"""
        if target == "c" or alg.isreal(body):
            r = body
        else:
            r = fn("real", (body,))
        if target == "i" and not alg.is_int(r):
            r = fn("trunc", (r,))
        if isinstance(target, NarrowK):
            r = self.narrowed(r, target.narrow)
        return r

    def narrowed(self, p, name):
        """p rounded to a narrow element type: unchanged where that is exact, an opaque function of p otherwise"""
        bits = {"int8": 7, "uint8": 7, "int16": 15, "uint16": 15, "float16": 11, "float32": 24, "complex64": 24}.get(name)
        if bits is None:
            return p
        c = p.const()
        if c is not None and not name.startswith(("int", "uint")):
            exact = lambda x: abs(x.numerator) < 2 ** bits and x.denominator & (x.denominator - 1) == 0 and x.denominator < 2 ** 12
            if exact(c.re) and exact(c.im):
                return p
        elif alg.is_int(p):
            lo, hi = bounds_poly(p)
            if lo is not None and hi is not None and -2 ** bits <= lo and hi < 2 ** bits:
                return p
            if lo is not None and lo >= 0 and not name.startswith(("int", "uint")) and name != "float16":
                return p
        f = ("wrap_" if alg.is_int(p) and "int" in name else "rounded_") + name
        if f[:4] == "wrap":
            alg.FN_INT.add(f)
            alg.FN_SIGNED.add(f)
        if alg.isreal(p):
            alg.FN_REAL.add(f)
        return fn(f, (p,))

    def store(self, ref, valf, note=True):
        """ref[...] = value; valf(ixs) gives the element for the view's index Polys"""
        cell = self.S.cells[ref.cell]
        if note:
            self.S.writes.append((ref.cell, cell.label, self.loc()))
        ws = [idx(w) for w in cell.vars]
        if len(ref.vars) == len(cell.vars) and all(e == idx(v) for e, v in zip(ref.imap, ref.vars)) and all(a == b for a, b in zip(ref.shape, cell.shape)):
            body = self.cast_store(valf(ws), None, cell.dt)
            self.S.cells[ref.cell] = cell.with_body(body)
            return
        vs = [newidx(d) for d in ref.shape]
        m = {v: idx(n) for v, n in zip(ref.vars, vs)}
        region = POLY1
        for w, e in zip(ws, ref.imap):
            region = region * eq0(w - subst(e, m))
        val = self.cast_store(valf([idx(v) for v in vs]), None, cell.dt)
        M, V = region, region * val
        for v in vs:
            M = sumover(M, v)
            V = sumover(V, v)
        if M * M != M:
            # overlapping targets: acceptable only if the stored value is the same for all of them
            self.undec("store with overlapping targets")
        self.S.cells[ref.cell] = cell.with_body(cell.body * (POLY1 - M) + V)

    # ------------------------------------------------------------------ keys
    def vkey(self, v):
        if v is None or isinstance(v, (bool, int, str, float)):
            return repr(v)
        if isinstance(v, Sc):
            return v.p.key()
        if isinstance(v, Arr):
            return self.lam(v).key()
        if isinstance(v, tuple):
            return "(" + ",".join(self.vkey(x) for x in v) + ")"
        if isinstance(v, ListR):
            return "[" + ",".join(self.vkey(x) for x in self.S.lists[v.id]) + "]"
        if isinstance(v, DictR):
            return "{" + ",".join(f"{k}:{self.vkey(x)}" for k, x in self.S.dicts[v.id].items()) + "}"
        if isinstance(v, Seg):
            return f"seg({v.length.key()},{self.vkey(v.value)})"
        if isinstance(v, SymStr):
            return v.key()
        if isinstance(v, Opq):
            return v.key
        if isinstance(v, Ext):
            return v.full
        if isinstance(v, DT):
            return "dt:" + v.k
        if isinstance(v, Obj):
            return f"obj{v.id}"
        if isinstance(v, Top):
            return "\u22a4" + v.why
        if isinstance(v, ArrT):
            return Lam(v.shape, v.vars, v.body).key()
        if isinstance(v, SliceV):
            return f"slice({self.vkey(v.a)},{self.vkey(v.b)},{self.vkey(v.c)})"
        if isinstance(v, (Func, Cls)):
            return v.name
        if isinstance(v, LeafFn):
            return "leaffn:" + v.name
        if isinstance(v, Bound):
            return f"bound({self.vkey(v.fn)},{self.vkey(v.self)})"
        return f"{type(v).__name__}@{id(v)}"

    # ------------------------------------------------------------------ value substitution / merge
    def vsubst(self, v, m):
        if isinstance(v, Sc):
            return self.norm(Sc(subst(v.p, m), v.k))
        if isinstance(v, Arr):
            c = self.S.cells[v.cell]
            if (c.body.fv() | set().union(*[e.fv() for e in v.imap], *[d.fv() for d in v.shape])) & m.keys():
                t = self.tmpl(v)
                return self.inst(self.vsubst(t, m))
            return v
        if isinstance(v, ArrT):
            mm = {k: x for k, x in m.items() if k not in v.vars}
            return ArrT(tuple(subst(d, mm) for d in v.shape), v.vars, subst(v.body, mm), v.dt, v.mod)
        if isinstance(v, tuple):
            return tuple(self.vsubst(x, m) for x in v)
        if isinstance(v, Seg):
            return Seg(subst(v.length, m), v.var, self.vsubst(v.value, m))
        if isinstance(v, ListR):
            items = self.S.lists[v.id]
            return self.newlist([self.vsubst(x, m) for x in items])
        if isinstance(v, SymStr):
            return v
        if isinstance(v, SliceV):
            return SliceV(*[self.vsubst(x, m) for x in (v.a, v.b, v.c)])
        return v

    def inst(self, v):
        """array from template"""
        if isinstance(v, ArrT):
            m = dict(zip(v.vars, [None] * len(v.vars)))
            vs = tuple(newidx(d) for d in v.shape)
            body = subst(v.body, dict(zip(v.vars, [idx(x) for x in vs])))
            c = self.newcell(v.shape, vs, body, v.dt, v.mod)
            return self.whole(c)
        if isinstance(v, tuple):
            return tuple(self.inst(x) for x in v)
        return v

    def freeze(self, v):
        """immutable form of a value (for templates)"""
        if isinstance(v, Arr):
            return self.tmpl(v)
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, ListR):
            return tuple(self.freeze(x) for x in self.S.lists[v.id])
        return v

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            sa, sb = self.sc(a), self.sc(b)
            return sa is not None and sb is not None and not isinstance(a, Arr) and not isinstance(b, Arr) and sa.p == sb.p and sa.k == sb.k
        if isinstance(a, (bool, int, str, float)):
            return a == b
        if isinstance(a, Sc):
            return a.p == b.p and a.k == b.k
        if isinstance(a, Arr):
            return a.cell == b.cell and self.vkey_view(a) == self.vkey_view(b)
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, (Obj, ListR, DictR, Ext, DT, SymStr)):
            return a == b
        if isinstance(a, Bound):
            return self.same(a.fn, b.fn) and self.same(a.self, b.self)
        if isinstance(a, Opq):
            return a.key == b.key
        return False

    def vkey_view(self, a):
        m = {v: f"v{k}" for k, v in enumerate(a.vars)}
        return ",".join(e.key(m) for e in a.imap) + "|" + ",".join(d.key() for d in a.shape)

    def phi(self, g, a, b, S1, S2):
        """value: a (of state S1) if g else b (of state S2); self.S is the merged state under construction"""
        if self.same(a, b):
            return a
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and all(x == y for x, y in zip(a.shape, b.shape)):
                cur = self.S
                self.S = S1
                ta = self.tmpl(a)
                self.S = S2
                tb = self.tmpl(b)
                self.S = cur
                ng = POLY1 - g
                return self.mk(ta.shape, lambda ix: g * self.at(ta, ix) + ng * self.at(tb, ix), kjoin(ta.dt, tb.dt), ta.mod)
            sa, sb = (None if isinstance(x, Arr) else self.sc(x) for x in (a, b))
            return Top("join of different values")
        sa, sb = self.sc(a), self.sc(b)
        if sa is not None and sb is not None:
            return self.norm(Sc(g * sa.p + (POLY1 - g) * sb.p, kjoin(sa.k, sb.k)))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.phi(g, x, y, S1, S2) for x, y in zip(a, b))
        return Top("join of different values")

    def merge(self, g, S1, S2):
        """state: S1 if g else S2"""
        M = State()
        self.S = M
        n = min(len(S1.craises), len(S2.craises))
        k = 0
        while k < n and S1.craises[k] is S2.craises[k]:
            k += 1
        M.craises = S1.craises[:k] + [(g * x, r) for x, r in S1.craises[k:]] + [((POLY1 - g) * x, r) for x, r in S2.craises[k:]]
        for attr in ("writes", "attrs", "events"):
            a, b = getattr(S1, attr), getattr(S2, attr)
            n = min(len(a), len(b))
            k = 0
            while k < n and a[k] is b[k]:
                k += 1
            setattr(M, attr, a[:k] + a[k:] + b[k:])
        # cells first
        M.cells = dict(S1.cells)
        for c, x in S2.cells.items():
            y = M.cells.get(c)
            if y is None:
                M.cells[c] = x
            elif y is not x:
                xb = x.body if x.vars == y.vars else subst(x.body, dict(zip(x.vars, [idx(v) for v in y.vars])))
                if y.body is not xb and y.body != xb:
                    M.cells[c] = y.with_body(g * y.body + (POLY1 - g) * xb)
        for f in set(S1.frames) | set(S2.frames):
            a, b = S1.frames.get(f), S2.frames.get(f)
            if a is None or b is None:
                M.frames[f] = dict(a if a is not None else b)
                continue
            d = {}
            for k in list(a) + [x for x in b if x not in a]:
                if k in a and k in b:
                    d[k] = a[k] if a[k] is b[k] else self.phi(g, a[k], b[k], S1, S2)
                else:
                    d[k] = a[k] if k in a else b[k]
            M.frames[f] = d
        for o in set(S1.objs) | set(S2.objs):
            a, b = S1.objs.get(o), S2.objs.get(o)
            if a is None or b is None:
                M.objs[o] = dict(a if a is not None else b)
                continue
            d = {}
            for k in list(a) + [x for x in b if x not in a]:
                if k in a and k in b:
                    d[k] = a[k] if a[k] is b[k] else self.phi(g, a[k], b[k], S1, S2)
                else:
                    d[k] = Top("attribute set on one branch only")
            M.objs[o] = d
        for o in set(S1.lists) | set(S2.lists):
            a, b = S1.lists.get(o), S2.lists.get(o)
            if a is None or b is None:
                M.lists[o] = list(a if a is not None else b)
            elif len(a) == len(b):
                M.lists[o] = [x if x is y else self.phi(g, x, y, S1, S2) for x, y in zip(a, b)]
            else:
                M.lists[o] = [Top("list changed on one branch")]
        for o in set(S1.dicts) | set(S2.dicts):
            a, b = S1.dicts.get(o), S2.dicts.get(o)
            if a is None or b is None:
                M.dicts[o] = dict(a if a is not None else b)
            else:
                d = {}
                for k in list(a) + [x for x in b if x not in a]:
                    d[k] = (a[k] if a[k] is b[k] else self.phi(g, a[k], b[k], S1, S2)) if k in a and k in b else Top("dict changed on one branch")
                M.dicts[o] = d
        return M

    # ------------------------------------------------------------------ containers
    def newlist(self, items, cls=ListR):
        i = fresh()
        self.S.lists[i] = list(items)
        return cls(i)

    def newset(self, items):
        """the distinct ones among items; members whose equality is not decided are kept apart (see set_len)"""
        out = []
        for x in items:
            if isinstance(x, Seg):
                out.append(x)
            elif not any(self.dup(x, y) is True for y in out):
                out.append(x)
        return self.newlist(out, SetR)

    def dup(self, x, y):
        """are these two the same member of a set: bool or Poly"""
        if isinstance(x, Seg) or isinstance(y, Seg):
            self.undec("set of symbolically many members")
        if isinstance(x, (Opq, Top)) or isinstance(y, (Opq, Top)):
            if x is y:
                return True
        r = self.equal(x, y)
        if not isinstance(r, (bool, Poly)):
            self.undec("equality of the members of a set")
        return r

    def set_len(self, items):
        n = ZERO
        for j, x in enumerate(items):
            new = POLY1
            for y in items[:j]:
                r = self.dup(x, y)
                new = new * (POLY1 - (r if isinstance(r, Poly) else P(int(r))))
            n = n + new
        return n

    def set_in(self, x, items):
        out = POLY1
        for y in items:
            r = self.dup(x, y)
            out = out * (POLY1 - (r if isinstance(r, Poly) else P(int(r))))
        return POLY1 - out

    def subset(self, a, b):
        r = POLY1
        for x in a:
            r = r * self.set_in(x, b)
        return r

    def set_compare(self, op, a, b):
        x, y = self.S.lists[a.id], self.S.lists[b.id]
        le, ge = self.subset(x, y), self.subset(y, x)
        return {"Eq": le * ge, "NotEq": POLY1 - le * ge, "LtE": le, "GtE": ge, "Lt": le * (POLY1 - ge), "Gt": ge * (POLY1 - le)}[op]

    def set_op(self, op, a, b):
        """union, intersection, difference, symmetric difference of two lists of members"""
        def inn(x, l):
            c = self.set_in(x, l).const()
            if c is None:
                self.undec("membership in a set")
            return not c.iszero()
        if op == "BitOr":
            return self.newset(list(a) + list(b))
        if op == "BitAnd":
            return self.newset([x for x in a if inn(x, b)])
        if op == "Sub":
            return self.newset([x for x in a if not inn(x, b)])
        return self.newset([x for x in a if not inn(x, b)] + [x for x in b if not inn(x, a)])

    def newdict(self, items=None):
        i = fresh()
        self.S.dicts[i] = dict(items or {})
        if self.loopvars:
            self.born[i] = set(self.loopvars)
        return DictR(i)

    def isidx(self, p):
        return len(p.terms) == 1 and not p.terms[0].bound and len(p.terms[0].fac) == 1 and p.terms[0].fac[0][0][0] == "idx" \
            and p.terms[0].fac[0][1] == 1

    # dictionaries filled once per key in a loop: later iterations with the same key read the first one's value
    def dfind(self, d, k):
        """-> (is there an entry under k, the representative of k)"""
        kk = self.dkey(k)
        items = self.S.dicts[d.id]
        if kk in items:
            return True, kk
        if self.loopvars:
            if (d.id, kk) in self.stale:
                items[kk] = self.stale[d.id, kk]
                return True, kk
            self.probed.add((d.id, kk))
            return False, kk
        # the values of two terms used as keys may coincide
        for k2 in list(items):
            k0 = self.keyvals.get((d.id, k2), k2)
            if type(k0) is type(k) and isinstance(k, (tuple, Sc)) and k0 != k:
                t = self.equal(k0, k)
                if isinstance(t, Poly) and not t.iszero() and all(n in alg.SYM_REAL for n in alg.syms_of(t)) and self.branch(t):
                    return True, k2
        return False, kk

    def dset(self, d, k, val):
        kk = self.dfind(d, k)[1] if not self.loopvars else self.dkey(k)
        if isinstance(kk, tuple) and kk and kk[0] == "key":
            self.keyvals.setdefault((d.id, kk), k)
        self.S.dicts[d.id][kk] = self.memo(d, k, val)
        return self.S.dicts[d.id][kk]

    def unlog(self, d):
        for x in [x for x in self.memolog if x[0] == d.id]:
            del self.memolog[x]

    def memo(self, d, k, val):
        """the value found under key k after `if k not in d: d[k] = val`, for whichever iteration comes first"""
        if not self.loopvars or (d.id, self.dkey(k)) not in self.probed:
            return val
        ks = []

        def flat(x):
            if isinstance(x, tuple):
                r = [flat(y) for y in x]
                return None if None in r else "(" + ",".join(r) + ")"
            if isinstance(x, (Sc, bool, int)):
                ks.append(self.sc(x).p)
                return "#"
            if x is None or isinstance(x, (str, float, Obj, DT, Ext)):
                return repr(x)
            return None
        shape = flat(k)
        if shape is None:
            return val
        g = POLY1
        for q in self.gates:
            g = g * q
        born = self.born.get(d.id, set())
        direct = set().union(*[q.fv() for q in ks if self.isidx(q)] or [set()])
        nth = [0]

        def stale(p):
            nth[0] += 1
            fv = set().union(p.fv(), g.fv(), *[q.fv() for q in ks]) & self.loopvars
            new = (ks, p, g, sorted(fv - born))
            log = self.memolog.setdefault((d.id, shape, nth[0]), [])
            same = [e for e in log if any(v not in self.loopvars for v in e[3])]
            del log[8:]
            log.append(new)
            if not same and p.fv() & self.loopvars <= direct | born:
                return None
            if evalp.determines([new] + same, sorted(born & fv), list(self.pathlog)):
                return None
            nm = "memoised" if alg.isreal(p) else "memoised:c"
            if nm == "memoised":
                alg.FN_REAL.add(nm)
            return nm

        def one(v):
            if isinstance(v, tuple):
                return tuple(one(x) for x in v)
            if isinstance(v, Sc):
                nm = stale(v.p)
                return Sc(fn(nm, tuple(ks)), v.k) if nm else v
            if isinstance(v, Arr):
                t = self.tmpl(v)
                nm = stale(t.body)
                if nm:
                    return self.inst(ArrT(t.shape, t.vars, fn(nm, tuple(ks) + tuple(idx(x) for x in t.vars)), t.dt, t.mod))
            return v
        r = one(val)
        if r is not val and not (isinstance(r, tuple) and all(x is y for x, y in zip(r, val))):
            self.stale[d.id, self.dkey(k)] = r
        return r

    def dkey(self, k):
        """dictionary key: hashable python representative"""
        k = self.norm(k) if isinstance(k, Sc) else k
        if k is None or isinstance(k, (bool, int, str, float, Obj, SymStr, DT, Ext)):
            return k
        return ("key", self.vkey(k))

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        n = len(self.gates)
        try:
            return self.block_(stmts, fr)
        finally:
            del self.gates[n:]

    def block_(self, stmts, fr):
        exits = []
        alive = POLY1
        for st in stmts:
            self.node = st
            if self.deadline and time.time() > self.deadline:
                self.undec("the general analysis takes too long", st)
            r = self.stmt(st, fr)
            if r is None:
                continue
            ex, cont = r
            for e in ex:
                exits.append(Exit(alive * e.gate, e.state, e.flow, e.val))
            if cont is None:
                return exits, None
            if cont is not POLY1 and cont != POLY1:
                alive = alive * cont
                self.gates.append(cont)
        return exits, alive

    def stmt(self, st, fr):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            self.undec(f"statement {type(st).__name__}", st)
        return m(st, fr)

    def s_Pass(self, st, fr):
        return None

    def s_Global(self, st, fr):
        fr.globals_ |= set(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return None
        self.ev(st.value, fr)

    def s_Import(self, st, fr):
        for a in st.names:
            if a.name in stubs.SRC:
                self.bind(fr, a.asname or a.name, self.module(a.name))
                continue
            if a.name.split(".")[0] == PKG:
                m = self.module(a.name)
                if a.asname:
                    self.bind(fr, a.asname, m)
                else:
                    self.bind(fr, PKG, self.module(PKG))
            else:
                parts = a.name.split(".")
                if a.asname:
                    self.bind(fr, a.asname, Ext(parts[0], ".".join(parts[1:])))
                else:
                    self.bind(fr, parts[0], Ext(parts[0]))

    def s_ImportFrom(self, st, fr):
        name = st.module or ""
        if st.level:
            base = fr.mod.name.split(".")
            ispkg = self.program.mods[fr.mod.name][2]
            up = st.level - (1 if ispkg else 0)
            base = base[: len(base) - up] if up else base
            name = ".".join(base + ([name] if name else []))
        if name == "__future__":
            return None
        if name.split(".")[0] == PKG or name in stubs.SRC:
            m = self.module(name)
            for a in st.names:
                if a.name == "*":
                    for k, v in list(self.S.frames[m.frame].items()):
                        if not k.startswith("_"):
                            self.bind(fr, k, v)
                    continue
                d = self.S.frames[m.frame]
                if a.name in d:
                    v = d[a.name]
                elif name + "." + a.name in self.program.mods:
                    v = self.module(name + "." + a.name)
                else:
                    self.raise_("ImportError", f"cannot import name {a.name} from {name}")
                self.bind(fr, a.asname or a.name, v)
        else:
            parts = name.split(".")
            for a in st.names:
                self.bind(fr, a.asname or a.name, self.np.extconst(self, Ext(parts[0], ".".join(parts[1:] + [a.name]))))

    def makefunc(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Func(node, fr.mod, defaults, kwd, fr.chain, None, name)

    def s_FunctionDef(self, st, fr):
        f = self.makefunc(st, fr, st.name)
        if fr.name.startswith("<class "):
            f.cls = fr.cls
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, fr)
        self.bind(fr, st.name, v)

    def decorate(self, d, v, fr):
        # property setters refer to the name in the class frame
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.ev(d.value, fr)
            if isinstance(p, Prop):
                if d.attr == "setter":
                    return Prop(p.get, v, p.dele)
                if d.attr == "getter":
                    return Prop(v, p.set, p.dele)
                return Prop(p.get, p.set, v)
        dv = self.ev(d, fr)
        return self.call(dv, [v], {})

    def s_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        for b in bases:
            if not isinstance(b, Cls) and not (isinstance(b, Ext)):
                self.undec("class base", st)
        fid = fresh()
        self.S.frames[fid] = {}
        cls = Cls(st.name, fr.mod, bases, {}, st)
        cf = Frame(fid, fr.chain + (fid,), fr.mod, cls=cls, name=f"<class {st.name}>")
        # functions defined in a class body do not see the class scope
        cf.chain = (fid,) + fr.chain
        self.stack.append(cf)
        try:
            self.block(st.body, cf)
        finally:
            self.stack.pop()
        cls.ns = self.S.frames[fid]
        for k, v in cls.ns.items():
            for f in self._funcs(v):
                if fid in f.frames:
                    f.cls = cls
                    f.frames = tuple(x for x in f.frames if x != fid)
        v = cls
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.bind(fr, st.name, v)

    def _funcs(self, v):
        if isinstance(v, Func):
            return [v]
        if isinstance(v, (Static, ClassM)):
            return self._funcs(v.fn)
        if isinstance(v, Prop):
            return self._funcs(v.get) + self._funcs(v.set) + self._funcs(v.dele)
        return []

    def s_Return(self, st, fr):
        v = self.ev(st.value, fr) if st.value is not None else None
        return [Exit(POLY1, self.S, "return", v)], None

    def s_Break(self, st, fr):
        return [Exit(POLY1, self.S, "break")], None

    def s_Continue(self, st, fr):
        return [Exit(POLY1, self.S, "continue")], None

    def s_Raise(self, st, fr):
        name, msg = "Exception", ""
        if st.exc is not None:
            e = st.exc
            v = self.ev(e.func if isinstance(e, ast.Call) else e, fr)
            if isinstance(v, Ext):
                name = v.path or v.root
            elif isinstance(v, Cls):
                name = v.name
            elif isinstance(v, PyFn):
                name = v.name
            elif isinstance(v, Opq):
                name = v.key
            if isinstance(e, ast.Call):
                for a in e.args:
                    try:
                        self.ev(a, fr)
                    except Undecided:
                        pass
            name = name.split(".")[-1]
        else:
            cur = getattr(self, "handling", None)
            if cur:
                raise cur
        self.node = st
        raise Raised(name, msg, self.loc(st))

    def s_Assert(self, st, fr):
        t = self.truth(self.ev(st.test, fr))
        self.node = st
        b = t if isinstance(t, bool) else self.branch(t)
        if b is None:
            self.S.craises.append((POLY1 - t, Raised("AssertionError", ast.unparse(st.test)[:80], self.loc(st))))
            return [], POLY1
        if not b:
            raise Raised("AssertionError", ast.unparse(st.test)[:120], self.loc(st))

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.S.frames[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Obj):
                    self.S.objs[o.id].pop(t.attr, None)
                    self.S.attrs.append((o.id, t.attr, self.loc(st)))
                else:
                    self.undec("del attribute", st)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                if isinstance(o, DictR):
                    self.S.dicts[o.id].pop(self.dkey(k), None)
                    self.unlog(o)
                else:
                    self.undec("del item", st)

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.ev(st.value, fr)
            self.node = st
            self.bind(fr, t.id, self.inplace(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value, fr)
            self.node = st
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.evslice(t.slice, fr)
            cur = self.getitem(o, k)
            v = self.ev(st.value, fr)
            self.node = st
            if isinstance(cur, (ListR,)) and op == "Add":
                self.setitem(o, k, self.inplace(op, cur, v))
            else:
                self.check_inplace(cur, v)
                self.setitem(o, k, self.binop(op, cur, v))
        else:
            self.undec("augmented assignment", st)

    def check_inplace(self, cur, v):
        if isinstance(cur, Arr) and self.dt(cur) != "c":
            k = self.dt(v) if isinstance(v, (Arr, Masked)) else getattr(self.sc(v), "k", None) if self.sc(v) else None
            if k == "c":
                self.raise_("TypeError", "cannot cast in-place result from complex to real")

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr):
            self.check_inplace(cur, v)
            new = self.binop(op, cur, v)
            if isinstance(new, Top):
                return new
            if not isinstance(new, Arr):
                self.undec("in-place operation")
            if len(new.shape) != len(cur.shape) or not all(self.same_dim(a, b) for a, b in zip(new.shape, cur.shape)):
                self.raise_("ValueError", "non-broadcastable output operand")
            t = self.tmpl(new)
            self.store(cur, lambda ix: self.at(t, ix))
            return cur
        if isinstance(cur, ListR) and op == "Add":
            self.S.lists[cur.id].extend(self.list_items(v))
            return cur
        return self.binop(op, cur, v)

    def s_If(self, st, fr):
        t = self.truth(self.ev(st.test, fr))
        b = t if isinstance(t, bool) else self.branch(t)
        if b is None:
            g = self.simp(t)
            return self.gated_if(g, st.body, st.orelse, fr)
        return self.block(st.body if b else st.orelse, fr)

    def run_gated(self, stmts, fr, assume, gate=POLY1):
        n = len(self.facts)
        self.gates.append(gate)
        saved = dict(self.path)
        for a, v in assume:
            self.assume_gate(a, v)
        try:
            try:
                return self.block(stmts, fr)
            except Raised as r:
                return [Exit(POLY1, self.S, "raise", r)], None
        finally:
            self.gates.pop()
            del self.facts[n:]
            # path decisions taken inside must persist, local assumptions must not
            extra = {alg.akey(a, {}): None for a, v in assume}
            for k in extra:
                if k in saved:
                    self.path[k] = saved[k]
                else:
                    self.path.pop(k, None)

    def gate_atoms(self, g):
        """(list of (atom, value)) implied by g = 1 when g is a product of gates / single negation"""
        if len(g.terms) == 1 and g.terms[0].coef.isone() and not g.terms[0].bound:
            return [(a, True) for a, e in g.terms[0].fac if alg.is_gate(a)]
        for a in [a for t in g.terms for a, e in t.fac if alg.is_gate(a)]:
            if self.setgate(g, a, 0) == POLY1 and self.setgate(g, a, 1).iszero():
                return [(a, False)]
        return []

    def gated_if(self, g, body, orelse, fr):
        S0 = self.S.snap()
        ng = POLY1 - g
        ex1, c1 = self.run_gated(body, fr, self.gate_atoms(g), g)
        S1 = self.S
        self.S = S0
        ex2, c2 = self.run_gated(orelse, fr, self.gate_atoms(ng), ng)
        S2 = self.S
        exits = [Exit(g * e.gate, e.state, e.flow, e.val) for e in ex1] + [Exit(ng * e.gate, e.state, e.flow, e.val) for e in ex2]
        if c1 is None and c2 is None:
            return exits, None
        if c1 is None:
            self.S = S2
            return exits, ng * c2
        if c2 is None:
            self.S = S1
            return exits, g * c1
        self.merge(g, S1, S2)
        return exits, g * c1 + ng * c2

    def s_With(self, st, fr):
        fds = []
        ends = []
        for n, it in enumerate(st.items):
            v = self.ev(it.context_expr, fr)
            r = v
            if isinstance(v, CtxR):
                return self.with_generator(st, n, v, fr, ends, fds)
            if isinstance(v, Obj):
                r = self.call(self.getattr(v, "__enter__"), [], {})
                ends.append(lambda v=v: self.call(self.getattr(v, "__exit__"), [None, None, None], {}))
            if isinstance(v, Opq) and v.key.startswith("ctx:"):
                enter, leave = self.ctxs[v.key]
                r = enter()
                ends.append(leave)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, fr)
            if isinstance(v, Opq) and v.key.startswith("fd:"):
                fds.append(v.key[3:])
        try:
            res = self.block(st.body, fr)
        except Raised:
            for e in reversed(ends):
                e()
            raise
        for e in reversed(ends):
            e()
        for k in reversed(fds):
            self.S.events.append(("close", k, self.loc(st)))
        return res

    def with_generator(self, st, n, cm, fr, ends, fds):
        """with-statement on a @contextmanager function: its body runs with the block in place of the yield"""
        it = st.items[n]
        if ends or fds:
            self.undec("mixed context managers", st)
        res = []

        def cb(v):
            if res:
                self.undec("context manager yields twice", st)
            stack, self.stack = self.stack, saved
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                if n + 1 < len(st.items):
                    rest = ast.copy_location(ast.With(items=st.items[n + 1:], body=st.body), st)
                    ex, c = self.s_With(rest, fr) or ([], POLY1)
                else:
                    ex, c = self.block(st.body, fr)
            finally:
                self.stack = stack
            if ex and c is not None:
                self.undec("conditional exit from a with block", st)
            res.append((ex, c))
            if c is None:
                if len(ex) != 1 or ex[0].flow != "return":
                    self.undec("exit from a with block", st)
                self.S = ex[0].state
        saved = list(self.stack)
        self.yields.append(cb)
        try:
            self._callfunc(cm.fn, cm.args, cm.kw)
        finally:
            self.yields.pop()
        if not res:
            self.undec("context manager that does not yield", st)
        ex, c = res[0]
        if c is None:
            return [Exit(POLY1, self.S, "return", ex[0].val)], None
        return [], c

    def s_Try(self, st, fr):
        snap = None
        try:
            r = self.block(st.body, fr)
            if r[1] is not None and st.orelse:
                ex, c = self.block(st.orelse, fr)
                r = (r[0] + ex, c)
        except Raised as e:
            for h in st.handlers:
                if self.matches(h, e, fr):
                    if h.name:
                        self.bind(fr, h.name, Opq("exception:" + e.exc))
                    old = getattr(self, "handling", None)
                    self.handling = e
                    try:
                        r = self.block(h.body, fr)
                    finally:
                        self.handling = old
                    break
            else:
                if st.finalbody:
                    self.block(st.finalbody, fr)
                raise
        if st.finalbody:
            S = self.S
            ex, c = self.block(st.finalbody, fr)
            if c is None or ex:
                return ex, c
        return r

    def matches(self, h, e, fr):
        if h.type is None:
            return True
        names = []
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            names.append(ast.unparse(t).split(".")[-1])
        import builtins
        cls = getattr(builtins, e.exc, None)
        for n in names:
            if n == e.exc or n in ("Exception", "BaseException"):
                return True
            b = getattr(builtins, n, None)
            if isinstance(cls, type) and isinstance(b, type) and issubclass(cls, b):
                return True
        return False

    # ------------------------------------------------------------------ loops
    def s_For(self, st, fr):
        it = self.iterate(self.ev(st.iter, fr))
        if it.items is not None:
            if len(it.items) > self.maxunroll:
                self.undec("long loop", st)
            exits, alive = [], POLY1
            brk = False
            for v in it.items:
                self.assign(st.target, v, fr)
                ex, c = self.block(st.body, fr)
                conts = [e for e in ex if e.flow == "continue"]
                brks = [e for e in ex if e.flow == "break"]
                for e in ex:
                    if e.flow in ("return", "raise"):
                        exits.append(Exit(alive * e.gate, e.state, e.flow, e.val))
                if brks:
                    if c is None and len(brks) == 1 and not conts and brks[0].gate == POLY1:
                        self.S = brks[0].state
                        brk = True
                        break
                    self.undec("conditional break", st)
                c = self.join_continue(conts, c)
                if c is None:
                    return exits, None
                if c != POLY1:
                    alive = alive * c
            if not brk and st.orelse:
                ex, c = self.block(st.orelse, fr)
                exits += [Exit(alive * e.gate, e.state, e.flow, e.val) for e in ex]
                if c is None:
                    return exits, None
                alive = alive * c
            return exits, alive
        self.sym_loop(st, fr, it)
        if st.orelse:
            return self.block(st.orelse, fr)

    def join_continue(self, conts, c):
        """merge 'continue' exits with the normal end; returns the gate of the joined state"""
        parts = [(e.gate, e.state) for e in conts]
        if c is not None:
            parts.append((c, self.S))
        if not parts:
            return None
        g, S = parts[-1]
        tot = g
        self.S = S
        for g2, S2 in reversed(parts[:-1]):
            self.merge(g2, S2, self.S)
            tot = tot + g2
        return tot

    def sym_loop(self, st, fr, it):
        def body():
            ex, c = self.block(st.body, fr)
            bad = [e for e in ex if e.flow in ("break", "return")]
            if bad:
                self.undec(f"{bad[0].flow} out of a loop of symbolic length", st)
            for e in ex:
                if e.flow == "raise":
                    self.S.craises.append((e.gate, e.val))
            c = self.join_continue([e for e in ex if e.flow == "continue"], c)
            if c is None:
                self.undec("loop body always leaves the loop", st)
        self.run_sym_loop(it, lambda v: self.assign(st.target, v, fr), body, st, fr)

    def diff(self, S0, S1):
        """locations of S0 whose content changed in S1"""
        d = {"name": [], "attr": [], "cell": [], "list": [], "dict": [], "newname": []}
        for f, fr in S0.frames.items():
            now = S1.frames.get(f, {})
            for k, v in now.items():
                if k in fr:
                    if fr[k] is not v and not self.same(fr[k], v):
                        d["name"].append((f, k))
                else:
                    d["newname"].append((f, k))
        for o, at in S0.objs.items():
            now = S1.objs.get(o, {})
            for k, v in now.items():
                if k not in at or (at[k] is not v and not self.same(at[k], v)):
                    d["attr"].append((o, k))
        for c, x in S0.cells.items():
            if S1.cells.get(c) is not x:
                d["cell"].append(c)
        for l, x in S0.lists.items():
            y = S1.lists.get(l, x)
            if len(x) != len(y) or any(a is not b for a, b in zip(x, y)):
                d["list"].append(l)
        for l, x in S0.dicts.items():
            y = S1.dicts.get(l, x)
            if len(x) != len(y) or any(y.get(k) is not v for k, v in x.items()):
                d["dict"].append(l)
        return d

    def placeholder(self, v, tag):
        """symbolic unknown of the same form as v (None if impossible)"""
        s = None if isinstance(v, Arr) else self.sc(v)
        if s is not None:
            name = f"\u27e8{tag}{fresh()}\u27e9"
            self.phsyms.add(name)
            if s.k in ("i", "b"):
                alg.SYM_INT.add(name)
            return Sc(sym(name, real=s.k != "c", integer=s.k in ("i", "b")), s.k), name
        if isinstance(v, Arr):
            name = f"\u27e8{tag}{fresh()}\u27e9"
            self.phsyms.add(name)
            k = self.dt(v)
            alg.LEAF_REAL[name] = k != "c"
            if k == "i":
                alg.LEAF_INT.add(name)
            return self.mk(v.shape, lambda ix: el(name, ix), k, self.S.cells[v.cell].mod), name
        if isinstance(v, tuple):
            out = []
            for x in v:
                r = self.placeholder(x, tag)
                if r is None:
                    return None
                out.append(r[0])
            return tuple(out), None
        return None

    def run_sym_loop(self, it, settarget, body, node, fr):
        R = it.length
        i = newidx(R)
        outer = self.S
        self.loopvars.add(i)
        ph0 = set(self.phsyms)
        try:
            S0 = outer.snap()
            n0 = len(outer.lists)
            settarget(it.fn(idx(i)))
            body()
            S1 = self.S
            d = self.diff(S0, S1)
            # placeholder pass
            self.S = S0.snap()
            base = self.S
            settarget(it.fn(idx(i)))
            tnames = {k for f, k in self.diff(S0, self.S)["name"] if f == fr.fid}
            ph = {}
            for f, k in d["name"]:
                if f == fr.fid and k in tnames:
                    continue
                r = self.placeholder(S0.frames[f][k], "c")
                if r:
                    self.S.frames[f][k] = r[0]
                    ph[("name", f, k)] = r
            for o, k in d["attr"]:
                if k in S0.objs[o]:
                    r = self.placeholder(S0.objs[o][k], "c")
                    if r:
                        self.S.objs[o][k] = r[0]
                        ph[("attr", o, k)] = r
            for c in d["cell"]:
                cell = S0.cells[c]
                name = f"\u27e8m{fresh()}\u27e9"
                self.phsyms.add(name)
                alg.LEAF_REAL[name] = cell.dt != "c"
                if cell.dt == "i":
                    alg.LEAF_INT.add(name)
                self.S.cells[c] = cell.with_body(el(name, [idx(v) for v in cell.vars]))
                ph[("cell", c)] = (None, name)
            start = self.S.snap()
            body()
            S2 = self.S
            d2 = self.diff(start, S2)
        finally:
            self.loopvars.discard(i)
        self.untouched(S0, start, S2, d, d2, ph, i)
        # build the state after the loop
        res = S2
        self.S = res
        last = {i: R - 1}
        nonempty = ge0(R - 1)
        parinfo = {"node": node, "loc": self.loc(node), "issues": []}

        def fin(v0, r, v2):
            """final value of a carried location: initial v0, placeholder r, one-iteration value v2"""
            if r is None:
                if self.same(v0, v2):
                    return v0
                v2s = self.vsubst(v2, last)
                if nonempty == POLY1 or not isinstance(v0, (int, bool, Sc, Arr, float)):
                    return v2s
                return self.phi(nonempty, v2s, v0, self.S, self.S)
            phv, name = r
            if isinstance(v0, tuple):
                return Top("tuple carried around a loop")
            s2 = None if isinstance(v2, Arr) else self.sc(v2)
            if s2 is not None and not isinstance(v0, Arr):
                s0 = self.sc(v0)
                p = self.fin_scalar(s0.p, name, s2.p, i, R, parinfo)
                return self.norm(Sc(p, kjoin(s0.k, s2.k)))
            if isinstance(v2, Arr) and isinstance(v0, Arr):
                t2 = self.tmpl(v2)
                t0v = self.tmpl_of(v0, S0)
                if len(t0v.shape) != len(t2.shape) or not all(a == b for a, b in zip(t0v.shape, t2.shape)):
                    if name in self.names_in(t2.body):
                        return Top("array changing shape in a loop")
                    return self.vsubst(v2, last)
                if name in self.names_in(t2.body):
                    b0 = subst(t0v.body, dict(zip(t0v.vars, [idx(v) for v in t2.vars])))
                    p = self.fin_cell(b0, name, t2.vars, t2.body, i, R, parinfo)
                    return self.inst(ArrT(t2.shape, t2.vars, p, t2.dt, t2.mod))
                return self.vsubst(v2, last)
            if self.same(v2, phv):
                return v0
            return self.vsubst(v2, last) if not self.mentions_ph(v2, name) else Top("value carried around a loop")

        newvals = {}
        # contents of cells (must be finished before values referring to them are frozen)
        cellbody = {}
        for c in set(d["cell"]) | set(d2["cell"]):
            cell0, cell2 = S0.cells[c], S2.cells[c]
            r = ph.get(("cell", c))
            b2 = cell2.body
            if r is None:
                if c in d["cell"]:
                    continue
                # written only in the second pass: cannot happen for deterministic analysis
                cellbody[c] = fn("?loop", (cell0.body,))
                continue
            cellbody[c] = self.fin_cell(cell0.body, r[1], cell2.vars, b2, i, R, parinfo)
            if it.par:
                parinfo.setdefault("cells", []).append(c)
        for f, k in d["name"]:
            if ("name", f, k) in ph:
                newvals[("name", f, k)] = fin(S0.frames[f][k], ph[("name", f, k)], S2.frames[f][k])
            else:
                newvals[("name", f, k)] = fin(S0.frames[f][k], None, S2.frames[f][k])
        for f, k in d2["newname"] + d["newname"]:
            if k in S2.frames[f]:
                v = S2.frames[f][k]
                newvals[("name", f, k)] = self.vsubst(v, last)
        for o, k in set(d["attr"]) | set(d2["attr"]):
            v2 = S2.objs[o].get(k)
            if ("attr", o, k) in ph:
                newvals[("attr", o, k)] = fin(S0.objs[o][k], ph[("attr", o, k)], v2)
            else:
                newvals[("attr", o, k)] = self.vsubst(v2, last)
        for l in set(d["list"]) | set(d2["list"]):
            a, b = S0.lists[l], S2.lists[l]
            if len(b) >= len(a) and all(x is y for x, y in zip(a, b)):
                newvals[("list", l)] = a + self.repeat_items(b[len(a):], i, R)
                parinfo["issues"].append("list grows in the loop")
            elif len(a) == len(b):
                out = []
                for x, y in zip(a, b):
                    out.append(x if x is y else Top("list element changed in a loop"))
                newvals[("list", l)] = out
            else:
                newvals[("list", l)] = [Top("list changed in a loop")]
        for l in set(d["dict"]) | set(d2["dict"]):
            newvals[("dict", l)] = {k: (v if S0.dicts[l].get(k) is v else Top("dict changed in a loop")) for k, v in S2.dicts[l].items()}
        for key, v in newvals.items():
            if key[0] == "name":
                res.frames[key[1]][key[2]] = v
            elif key[0] == "attr":
                res.objs[key[1]][key[2]] = v
            elif key[0] == "list":
                res.lists[key[1]] = v
            else:
                res.dicts[key[1]] = v
        for c, b in cellbody.items():
            res.cells[c] = res.cells[c].with_body(b)
        if it.par:
            for key, r in ph.items():
                if key[0] != "name" or not isinstance(r, tuple) or not isinstance(r[1], str):
                    continue
                users = [k for k, b in ((("cell", c), S2.cells[c].body) for c in cellbody) if r[1] in self.names_in(b)]
                if users:
                    parinfo.setdefault("races", []).append(f"the value of {key[2]} left by another iteration decides what is written")
            self.par.append(parinfo)
        self.phsyms = ph0

    def untouched(self, S0, start, S2, d, d2, ph, i):
        """elements of a carried array that no iteration writes keep their initial value: use it where the iteration reads them"""
        m, keep = {}, {}
        names = {r[1] for r in ph.values() if r and r[1]}
        for c in d["cell"]:
            name = ph[("cell", c)][1]
            b2, vars = S2.cells[c].body, S2.cells[c].vars
            own = tuple(idx(v) for v in vars)
            if name not in self.names_in(b2):
                continue
            isph = lambda a: a[0] == "el" and a[1] == name
            # reads of other elements belong to what is written
            a, e = self.split_own(b2, isph, vars)
            if a == POLY1 or a.iszero() or i in a.fv() or self.names_in(a) & names or a * a != a:
                continue
            b0 = subst(S0.cells[c].body, dict(zip(S0.cells[c].vars, own)))

            def value(args, a=a, b0=b0, vars=vars, name=name):
                mm = dict(zip(vars, args))
                g = subst(a, mm)
                return g * subst(b0, mm) + (POLY1 - g) * el(name, args)
            m["leaf:" + name] = value
            keep[c] = a * el(name, own), e
        if not m:
            return
        keys = {k[5:] for k in m}

        def rw(p):
            return subst(p, {}, m) if self.names_in(p) & keys else p

        def val(v):
            if isinstance(v, Sc):
                q = rw(v.p)
                return v if q is v.p else self.norm(Sc(q, v.k))
            if isinstance(v, tuple):
                return tuple(val(x) for x in v)
            return v
        for f, k in d2["name"] + d2["newname"]:
            S2.frames[f][k] = val(S2.frames[f][k])
        for o, k in d2["attr"]:
            S2.objs[o][k] = val(S2.objs[o][k])
        for c, x in list(S2.cells.items()):
            if start.cells.get(c) is not x:
                q = rw(x.body) if c not in keep else keep[c][0] + rw(keep[c][1])
                if q is not x.body:
                    S2.cells[c] = x.with_body(q)
        for l in d2["list"]:
            S2.lists[l] = [val(x) for x in S2.lists[l]]
        for l in d2["dict"]:
            S2.dicts[l] = {k: val(x) for k, x in S2.dicts[l].items()}
        for k in range(len(start.craises), len(S2.craises)):
            S2.craises[k] = (rw(S2.craises[k][0]),) + tuple(S2.craises[k][1:])

    def tmpl_of(self, v, S):
        cur = self.S
        self.S = S
        try:
            return self.tmpl(v)
        finally:
            self.S = cur

    def names_in(self, p):
        s = set()
        for x in alg.syms_of(p):
            s.add(x[5:] if x.startswith("leaf:") else x)
        return s

    def mentions_ph(self, v, name):
        if isinstance(v, Sc):
            return name in self.names_in(v.p)
        if isinstance(v, Arr):
            return name in self.names_in(self.tmpl(v).body)
        if isinstance(v, tuple):
            return any(self.mentions_ph(x, name) for x in v)
        return False

    def split_linear(self, p, pred):
        """p = a * X + e  where X is the (single) atom selected by pred; None if not linear"""
        a, e = [], []
        for t in p.terms:
            hit = [(x, ex) for x, ex in t.fac if pred(x)]
            if hit:
                if len(hit) > 1 or hit[0][1] != 1:
                    return None
                a.append(alg.Term(t.coef, t.bound, tuple((x, ex) for x, ex in t.fac if not pred(x))))
            else:
                e.append(t)
        return Poly.merge(a), Poly.merge(e)

    def fin_scalar(self, p0, name, p2, i, R, info):
        if name not in self.names_in(p2):
            if i not in p2.fv() and p2 == p0:
                return p0
            last = subst(p2, {i: R - 1})
            g = ge0(R - 1)
            info["issues"].append("scalar overwritten")
            return last if g == POLY1 else g * last + (POLY1 - g) * p0
        r = self.split_linear(p2, lambda a: a[0] == "sym" and a[1] == name)
        if r and name not in self.names_in(r[0]) and name not in self.names_in(r[1]):
            a, e = r
            if a == POLY1:
                return p0 + sumover(e, i)
            if e.iszero():
                if i not in a.fv():
                    return p0 * power(a, R)
                return p0 * fn("prod", (Lam((R,), (i,), a),))
        info["issues"].append("scalar recurrence")
        body = subst(p2, {}, {name: sym("\u27e8mu\u27e9", real=False)})
        return fn("?mu", (p0, Lam((R,), (i,), body)))

    def fin_cell(self, b0, name, vars, b2, i, R, info):
        """content after all iterations; b2 is the content after one iteration in terms of leaf `name`"""
        def isph(a):
            return a[0] == "el" and a[1] == name
        r = self.split_linear(b2, isph)
        same = r is not None
        if same:
            for t in b2.terms:
                for a, e in t.fac:
                    if isph(a) and tuple(a[2]) != tuple(idx(v) for v in vars):
                        g = Poly.merge([alg.Term(alg.ONE, (), tuple((x, ex) for x, ex in t.fac if alg.is_gate(x)))])
                        same = same and not t.bound and len(a[2]) == len(vars) and all(
                            x == idx(v) or g * eq0(x - idx(v)) == g for x, v in zip(a[2], vars))
        if name not in self.names_in(b2):
            if i not in b2.fv():
                return b2
            info["issues"].append("array overwritten in every iteration")
            info.setdefault("races", []).append("every iteration overwrites the same shared array with its own values")
            last = subst(b2, {i: R - 1})
            g = ge0(R - 1)
            return last if g == POLY1 else g * last + (POLY1 - g) * b0
        if same and name not in self.names_in(r[0]) and name not in self.names_in(r[1]):
            a, e = r
            if a == POLY1:
                if i in e.fv():
                    info.setdefault("accumulate", []).append(name)
                return b0 + sumover(e, i)
            m = POLY1 - a
            if (m * e) == e and m * m == m:
                if i not in m.fv():
                    info["issues"].append("same elements written in every iteration")
                    if i in e.fv():
                        info.setdefault("races", []).append("every iteration overwrites the same elements of a shared array with its own values")
                    last = subst(e, {i: R - 1})
                    g = ge0(R - 1)
                    return b0 * (POLY1 - m * g) + g * last
                j = newidx(R)
                mj = subst(m, {i: idx(j)})
                if (m * mj * (POLY1 - eq0(idx(i) - idx(j)))).iszero():
                    return b0 * (POLY1 - sumover(m, i)) + sumover(e, i)
                info["issues"].append("overlapping writes of different iterations")
                info.setdefault("overlaps", []).append((m * mj * (e - subst(e, {i: idx(j)})), i, j))
        else:
            info["issues"].append("iterations depend on each other")
        body = b2
        return fn("?loop", (b0, Lam((R,), (i,), self.rename_leaf(b2, name)),) + tuple(idx(v) for v in vars))

    def own_args(self, t, a, vars):
        """are the arguments of atom a (of term t) forced to be the variables?"""
        if tuple(a[2]) == tuple(idx(v) for v in vars):
            return True
        g = Poly.merge([alg.Term(alg.ONE, (), tuple((x, ex) for x, ex in t.fac if alg.is_gate(x)))])
        return not t.bound and len(a[2]) == len(vars) and all(x == idx(v) or g * eq0(x - idx(v)) == g for x, v in zip(a[2], vars))

    def split_own(self, p, isph, vars):
        """p = a * X[vars] + e with every linear occurrence of X at vars in a"""
        a, e = [], []
        for t in p.terms:
            hit = [(x, ex) for x, ex in t.fac if isph(x)]
            if len(hit) == 1 and hit[0][1] == 1 and self.own_args(t, hit[0][0], vars):
                a.append(alg.Term(t.coef, t.bound, tuple((x, ex) for x, ex in t.fac if not isph(x))))
            else:
                e.append(t)
        return Poly.merge(a), Poly.merge(e)

    def rename_leaf(self, p, name):
        out = []
        for t in p.terms:
            out.append(alg.Term(t.coef, t.bound, tuple(((("el", "\u27e8mu\u27e9", a[2], a[3]) if a[0] == "el" and a[1] == name else a), e) for a, e in t.fac)))
        return Poly.merge(out)

    def repeat_items(self, items, i, R):
        """the elements `items` (depending on loop index i) appended once per iteration"""
        if not items:
            return []
        r = R.as_int()
        fz = [self.freeze(x) if not isinstance(x, Seg) else x for x in items]
        if len(items) == 1 and not isinstance(items[0], Seg):
            v = newidx(R)
            return [Seg(R, v, self.vsubst(fz[0], {i: idx(v)}))]
        if len(items) == 1 and isinstance(items[0], Seg):
            s = items[0]
            if i in s.length.fv():
                return [Top("list with segments of varying length")]
            n = R * s.length
            v = newidx(n)
            val = self.vsubst(s.value, {i: fdiv(idx(v), s.length), s.var: fmod(idx(v), s.length)})
            return [Seg(n, v, val)]
        if all(not isinstance(x, Seg) for x in items):
            k = len(items)
            if all(self.sc(x) is not None and not isinstance(x, Arr) for x in items):
                n = R * k
                v = newidx(n)
                tot, kind = ZERO, "b"
                for j, x in enumerate(items):
                    s = self.sc(x)
                    tot = tot + eq0(fmod(idx(v), const(k)) - j) * subst(s.p, {i: fdiv(idx(v), const(k))})
                    kind = kjoin(kind, s.k)
                return [Seg(n, v, Sc(tot, kind))]
        return [Top("list built in a loop")]

    def s_While(self, st, fr):
        n = 0
        while True:
            S_try = self.S
            t = self.truth(self.ev(st.test, fr))
            if not isinstance(t, bool):
                t = self.simp(t)
                c = t.const()
                if c is None:
                    return self.sym_while(st, fr)
                t = not c.iszero()
            if not t:
                if st.orelse:
                    return self.block(st.orelse, fr)
                return None
            ex, c = self.block(st.body, fr)
            conts = [e for e in ex if e.flow == "continue"]
            brks = [e for e in ex if e.flow == "break"]
            rets = [e for e in ex if e.flow in ("return", "raise")]
            if rets:
                if c is None and len(ex) == 1 and rets[0].gate == POLY1:
                    return rets, None
                self.undec("conditional return in while", st)
            if brks:
                if c is None and len(ex) == 1 and brks[0].gate == POLY1:
                    self.S = brks[0].state
                    return None
                self.undec("conditional break in while", st)
            c = self.join_continue(conts, c)
            n += 1
            if n > self.maxunroll:
                self.undec("while loop too long to unroll", st)

    def sym_while(self, st, fr):
        """while cond: body  with closed-form (polynomial) evolution of the carried scalars"""
        outer = self.S
        S0 = outer.snap()
        big = newidx(sym("\u221e", integer=True, lo=1))
        ph0 = set(self.phsyms)
        self.loopvars.add(big)

        def run():
            ex, c = self.block(st.body, fr)
            if ex and any(e.flow != "continue" for e in ex):
                self.undec("exit from a while loop", st)
            self.join_continue([e for e in ex if e.flow == "continue"], c)
        try:
            # analyse the body with every decision gated
            probe = newidx(sym("\u221e", integer=True, lo=1))
            d = None
            self.S = S0.snap()
            assigned = []
            for n in ast.walk(ast.Module(body=st.body, type_ignores=[])):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in assigned:
                    assigned.append(n.id)
            ph = {}
            for k in assigned:
                if k in self.S.frames[fr.fid]:
                    r = self.placeholder(self.S.frames[fr.fid][k], "w")
                    if r is None or r[1] is None:
                        self.undec("while loop carries a non-scalar", st)
                    self.S.frames[fr.fid][k] = r[0]
                    ph[k] = r[1]
            cond = self.truth(self.ev(st.test, fr))
            if isinstance(cond, bool):
                self.undec("while condition", st)
            pre = self.S.snap()
            run()
            d = self.diff(pre, self.S)
            if d["attr"] or d["cell"] or d["list"] or d["dict"]:
                self.undec("while loop with heap effects", st)
            nxt = {k: self.sc(self.S.frames[fr.fid][k]) for k in ph}
            if any(v is None or isinstance(v, Arr) for v in nxt.values()):
                self.undec("while loop carries a non-scalar", st)
        finally:
            self.loopvars.discard(big)
            self.phsyms = ph0
        init = {k: self.sc(S0.frames[fr.fid][k]).p for k in ph}
        kv = newidx(sym("\u221e", integer=True, lo=1))
        sol = {}
        names = {ph[k]: k for k in ph}

        def atstep(p, K):
            return subst(p, {}, {ph[k]: subst(sol[k], {kv: K}) for k in sol})
        changed = True
        todo = set(ph)
        while todo and changed:
            changed = False
            for k in sorted(todo):
                p = nxt[k].p
                used = {names[x] for x in self.names_in(p) if x in names}
                if used - {k} <= set(sol):
                    if k not in used:
                        if used:
                            prev = atstep(p, idx(kv) - 1)
                            if subst(prev, {kv: ZERO}) == init[k]:
                                sol[k] = prev
                            else:
                                g = eq0(idx(kv))
                                sol[k] = g * init[k] + (POLY1 - g) * prev
                        else:
                            if p == init[k]:
                                sol[k] = p
                            else:
                                g = eq0(idx(kv))
                                sol[k] = g * init[k] + (POLY1 - g) * p
                    else:
                        r = self.split_linear(p, lambda a: a[0] == "sym" and a[1] == ph[k])
                        if not r or r[0] != POLY1 or ph[k] in self.names_in(r[1]):
                            continue
                        j = newidx(idx(kv))
                        sol[k] = init[k] + sumover(atstep(r[1], idx(j)), j)
                    todo.discard(k)
                    changed = True
        self.S = outer
        if todo:
            # mutually dependent: e.g. (a, b) = (b, a + c): try the substitution a = b(k-1)
            self.undec("while loop without closed form", st)
        cond_k = atstep(cond, idx(kv))
        kname = "firstfalse"
        alg.FN_INT.add(kname)
        alg.FN_REAL.add(kname)
        K = fn(kname, (Lam((sym("\u221e", integer=True, lo=1),), (kv,), cond_k),))
        for h in self.trips:
            if self.trip_count(cond_k, kv, h):
                K = h
                break
        for k in ph:
            v = Sc(subst(sol[k], {kv: K}), kjoin(nxt[k].k, self.sc(S0.frames[fr.fid][k]).k))
            self.S.frames[fr.fid][k] = self.norm(v)
        self.whiles.append({"loc": self.loc(st), "cond": cond_k, "kv": kv, "K": K, "sol": dict(sol)})
        if st.orelse:
            return self.block(st.orelse, fr)
        return None

    def trip_count(self, cond, kv, h):
        """is h the first step at which cond is false? cond has to be one inequality in a quantity decreasing with the step"""
        for e in self.ge_forms(cond):
            lo = lambda p: bounds_poly(p)[0]
            nneg = lambda p: lo(p) is not None and lo(p) >= 0
            step = subst(e, {kv: idx(kv)}) - subst(e, {kv: idx(kv) + 1})
            if not nneg(h) or not nneg(step) or not nneg(-subst(e, {kv: h}) - 1):
                continue
            if h.iszero() or nneg(subst(e, {kv: h - 1})):
                return True
        return False

    def ge_forms(self, cond):
        """integer terms e with cond == [e >= 0]"""
        out = []
        for q, pos in ((cond, True), (POLY1 - cond, False)):
            q = self.simp(q)
            if len(q.terms) == 1 and q.terms[0].coef.isone() and not q.terms[0].bound and len(q.terms[0].fac) == 1:
                a, x = q.terms[0].fac[0]
                if a[0] == "ge" and x == 1 and alg.is_int(a[1]):
                    out.append(a[1] if pos else -a[1] - 1)
        return out

    # ------------------------------------------------------------------ names
    def bind(self, fr, name, v):
        if name in fr.globals_:
            self.S.frames[fr.mod.frame][name] = v
        elif name in fr.nonlocals:
            for f in fr.chain[1:] if fr.chain and fr.chain[0] == fr.fid else fr.chain:
                if name in self.S.frames[f]:
                    self.S.frames[f][name] = v
                    return
            self.undec("nonlocal")
        else:
            self.S.frames[fr.fid][name] = v

    def lookup(self, name, fr):
        if name in fr.globals_:
            d = self.S.frames[fr.mod.frame]
            if name in d:
                return d[name]
        else:
            for f in fr.chain:
                d = self.S.frames[f]
                if name in d:
                    return d[name]
            if fr.mod is not None:
                d = self.S.frames[fr.mod.frame]
                if name in d:
                    return d[name]
        b = self.np.builtin(self, name)
        if b is not None:
            return b[0]
        # a local assigned only on a path not taken
        self.raise_("NameError", name)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.bind(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, None if star else len(t.elts))
            if star:
                s = star[0]
                after = len(t.elts) - s - 1
                if len(vals) < len(t.elts) - 1:
                    self.raise_("ValueError", "not enough values to unpack")
                vals = vals[:s] + [self.newlist(vals[s: len(vals) - after])] + vals[len(vals) - after:]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(vals) != len(t.elts):
                self.raise_("ValueError", f"cannot unpack {len(vals)} values into {len(t.elts)}")
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.evslice(t.slice, fr)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            self.undec("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Top):
            if n is None:
                raise Undecided(v.why)
            return [v] * n
        if isinstance(v, Opq):
            if v.shape is None:
                if n is None:
                    self.undec("unpack opaque")
                return [Opq(f"{v.key}[{k}]") for k in range(n)]
        if isinstance(v, Arr) and n is not None and v.shape and v.shape[0].as_int() is None:
            if not self.same_dim(v.shape[0], const(n)):
                self.raise_("ValueError", "unpack")
            return [self.getitem(v, k) for k in range(n)]
        it = self.iterate(v)
        if it.items is None:
            if n is not None and self.same_dim(it.length, const(n)):
                return [it.fn(const(k)) for k in range(n)]
            self.undec("unpacking a sequence of symbolic length")
        return list(it.items)

    def list_items(self, v):
        """list entries (values or Seg) of any iterable"""
        if isinstance(v, ListR):
            return list(self.S.lists[v.id])
        it = self.iterate(v)
        if it.items is not None:
            return list(it.items)
        k = newidx(it.length)
        return [Seg(it.length, k, self.freeze(it.fn(idx(k))))]

    def iterate(self, v):
        if isinstance(v, Iter):
            return v
        if isinstance(v, tuple):
            return Iter(items=list(v))
        if isinstance(v, str):
            return Iter(items=list(v))
        if isinstance(v, ListR):
            items = self.S.lists[v.id]
            if any(isinstance(x, Seg) for x in items):
                if len(items) == 1:
                    s = items[0]
                    return Iter(length=s.length, fn=lambda k: self.inst(self.vsubst(s.value, {s.var: k})))
                self.undec("iteration over a mixed list")
            if any(isinstance(x, Top) for x in items) and len(items) == 1:
                raise Undecided(items[0].why)
            return Iter(items=list(items))
        if isinstance(v, DictR):
            return Iter(items=[k for k in self.S.dicts[v.id]])
        if isinstance(v, Arr):
            if not v.shape:
                self.raise_("TypeError", "iteration over a 0-d array")
            n = v.shape[0].as_int()
            if n is not None and n <= 8:
                return Iter(items=[self.getitem(v, k) for k in range(n)])
            return Iter(length=v.shape[0], fn=lambda k: self.getitem(v, self.norm(Sc(k, "i"))))
        if isinstance(v, Obj):
            f, _ = v.cls.find("__iter__")
            if f is not None:
                return self.iterate(self.call(Bound(f, v), [], {}))
        if isinstance(v, Top):
            raise Undecided(v.why)
        if isinstance(v, ModelObj):
            return v.iterate(self)
        if v is None or isinstance(v, (int, bool)):
            self.raise_("TypeError", "object is not iterable")
        self.undec(f"iteration over {v!r}")

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        """python bool or 0/1 Poly"""
        if v is None:
            return False
        if isinstance(v, (bool, int, str, float, complex)):
            return bool(v)
        if isinstance(v, Sc):
            if v.k == "b":
                c = v.p.const()
                return v.p if c is None else not c.iszero()
            r = POLY1 - eq0(v.p)
            c = r.const()
            return r if c is None else not c.iszero()
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, ListR):
            items = self.S.lists[v.id]
            if items and not any(isinstance(x, Seg) for x in items):
                return True
            if not items:
                return False
            tot = ZERO
            for x in items:
                tot = tot + (x.length if isinstance(x, Seg) else POLY1)
            return POLY1 - eq0(tot)
        if isinstance(v, DictR):
            return bool(self.S.dicts[v.id])
        if isinstance(v, Arr):
            s = self.sc(v)
            if s is not None:
                return self.truth(Sc(s.p, s.k))
            self.raise_("ValueError", "truth value of an array with more than one element is ambiguous")
        if isinstance(v, (Obj,)):
            for m in ("__bool__", "__len__"):
                f, _ = v.cls.find(m)
                if f is not None:
                    return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (Func, Bound, Cls, Ext, Mod, LeafFn, PyFn, DT, Partial)):
            return True
        if isinstance(v, SymStr):
            return True
        if isinstance(v, Opq):
            return bgate("truth:" + v.key)
        if isinstance(v, Top):
            raise Undecided(v.why)
        self.undec(f"truth of {v!r}")

    def boolv(self, t):
        return t if isinstance(t, bool) else self.norm(Sc(t, "b"))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.undec(f"expression {type(e).__name__}", e)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, (float, complex)):
            return self.sc(v)
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, e, fr):
        self.node = e
        return self.lookup(e.id, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.unpack(self.ev(x.value, fr), None))
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.list_items(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return self.newlist(out)

    def e_Set(self, e, fr):
        return self.newset([y for x in e.elts for y in (self.list_items(self.ev(x.value, fr)) if isinstance(x, ast.Starred) else [self.ev(x, fr)])])

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.ev(v, fr)
                if not isinstance(m, DictR):
                    self.undec("** of a non-dict")
                d.update(self.S.dicts[m.id])
            else:
                d[self.dkey(self.ev(k, fr))] = self.ev(v, fr)
        return self.newdict(d)

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, fr)
                spec = self.ev(x.format_spec, fr) if x.format_spec else ""
                parts.append(self.strpart(v, spec))
        return self.mkstr(parts)

    def e_FormattedValue(self, e, fr):
        return self.mkstr([self.strpart(self.ev(e.value, fr))])

    def strpart(self, v, spec=""):
        if isinstance(v, str) and not spec:
            return v
        if isinstance(v, (int, bool)) and not spec:
            return str(v)
        if isinstance(v, SymStr) and not spec:
            return v
        if isinstance(v, (int, str, float)) and isinstance(spec, str):
            try:
                return format(v, spec)
            except ValueError:
                self.raise_("ValueError", "format")
        if isinstance(v, Obj) and not spec:
            for m in ("__str__", "__repr__"):
                f, _ = v.cls.find(m)
                if f is not None:
                    r = self.call(Bound(f, v), [], {})
                    if isinstance(r, (str, SymStr)):
                        return r
        try:
            k = self.vkey(v)
        except Exception:
            k = "?"
        return ("fmt", k + (":" + (spec if isinstance(spec, str) else spec.key()) if spec else ""))

    def mkstr(self, parts):
        flat = []
        for p in parts:
            if isinstance(p, SymStr):
                flat.extend(p.parts)
            else:
                flat.append(p)
        if all(isinstance(p, str) for p in flat):
            return "".join(flat)
        out = []
        for p in flat:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        return SymStr(out)

    def e_Lambda(self, e, fr):
        return self.makefunc(e, fr, "<lambda>")

    def e_IfExp(self, e, fr):
        t = self.truth(self.ev(e.test, fr))
        b = t if isinstance(t, bool) else self.branch(t)
        if b is None:
            g = self.simp(t)
            S0 = self.S.snap()
            self.gates.append(g)
            a = self.ev(e.body, fr)
            S1 = self.S
            self.S = S0
            self.gates[-1] = POLY1 - g
            c = self.ev(e.orelse, fr)
            self.gates.pop()
            S2 = self.S
            self.merge(g, S1, S2)
            return self.phi(g, a, c, S1, S2)
        return self.ev(e.body if b else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        for k, x in enumerate(e.values):
            v = self.ev(x, fr)
            if k == len(e.values) - 1 and acc is None:
                return v
            t = self.truth(v)
            if isinstance(t, bool):
                if isand and not t:
                    return v if acc is None else False
                if not isand and t:
                    return v if acc is None else self.boolv(POLY1)
                if k == len(e.values) - 1:
                    break
                continue
            # symbolic operand: booleans combine as gates
            isb = isinstance(v, Sc) and v.k == "b" or isinstance(v, Arr) or isinstance(v, Opq)
            if not isb:
                b = self.branch(t)
                if b is None:
                    isb = True
                else:
                    if isand and not b or not isand and b:
                        return v
                    if k == len(e.values) - 1:
                        return v
                    continue
            # short circuit: later operands are evaluated under the assumption; decide now unless gated
            b = self.branch(t)
            if b is not None:
                if isand and not b:
                    return False
                if not isand and b:
                    return True
                if k == len(e.values) - 1 and acc is None:
                    return b
                continue
            if acc is None:
                acc = t
            elif isand:
                acc = acc * t
            else:
                acc = acc + t - acc * t
        if acc is None:
            return isand
        return self.boolv(acc)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        self.node = e
        op = type(e.op).__name__
        if op == "Not":
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else self.boolv(POLY1 - t)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, Top):
            return v
        if op == "USub":
            if isinstance(v, int):
                return -v
            return self.elementwise(lambda p: -p, [v], self.kind(v))
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, (Arr, Sc)) and self.kind(v) == "b":
                return self.elementwise(lambda p: POLY1 - p, [v], "b")
            if isinstance(v, int):
                return ~v
            return self.elementwise(lambda p: -p - 1, [v], "i")

    def kind(self, v):
        if isinstance(v, (Arr, Masked, ArrT)):
            return self.dt(v)
        s = self.sc(v)
        return s.k if s is not None else "c"

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        self.node = e
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, ModelObj):
            a = a.attr(self, "values")
        if isinstance(b, ModelObj):
            b = b.attr(self, "values")
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            try:
                if op == "Add":
                    return a + b
                if op == "Sub":
                    return a - b
                if op == "Mult":
                    return a * b
                if op == "FloorDiv":
                    return a // b
                if op == "Mod":
                    return a % b
                if op == "Pow" and b >= 0:
                    return a ** b
                if op == "BitAnd":
                    return a & b
                if op == "BitOr":
                    return a | b
                if op == "BitXor":
                    return a ^ b
                if op == "LShift":
                    return a << b
                if op == "RShift":
                    return a >> b
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError")
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            if op == "Add" and any(isinstance(x, (int, Sc, tuple, ListR, Arr)) or x is None for x in (a, b)):
                self.raise_("TypeError", "concatenation of a string and another value")
            if op == "Add":
                return self.mkstr([a if isinstance(a, (str, SymStr)) else self.strpart(a), b if isinstance(b, (str, SymStr)) else self.strpart(b)])
            if op == "Mod" and isinstance(a, (str, SymStr)):
                vals = b if isinstance(b, tuple) else (b,)
                if isinstance(a, str) and all(isinstance(x, (int, str, float)) for x in vals):
                    try:
                        return a % tuple(vals)
                    except (TypeError, ValueError) as ex:
                        self.raise_(type(ex).__name__, str(ex))
                return self.mkstr([("fmt", a if isinstance(a, str) else a.key()), *[self.strpart(x) for x in vals]])
            if op == "Mult" and isinstance(a, str) and isinstance(b, int):
                return a * b
            if op == "Div" and not isinstance(a, Obj) and not isinstance(b, Obj):
                return Opq(f"path({self.vkey(a)}/{self.vkey(b)})")
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == "Mult":
            return a * b
        if isinstance(b, tuple) and isinstance(a, int) and op == "Mult":
            return b * a
        if op in ("BitOr", "BitAnd", "Sub", "BitXor") and (isinstance(a, SetR) or isinstance(b, SetR)):
            x, y = (self.list_items(v) if isinstance(v, (SetR, Iter)) else None for v in (a, b))
            if x is not None and y is not None:
                return self.set_op(op, x, y)
        if op == "BitOr" and isinstance(a, DictR) and isinstance(b, DictR):
            return self.newdict({**self.S.dicts[a.id], **self.S.dicts[b.id]})
        if isinstance(a, ListR) and isinstance(b, ListR) and op == "Add":
            return self.newlist(self.S.lists[a.id] + self.S.lists[b.id])
        if isinstance(a, ListR) and op == "Mult" or isinstance(b, ListR) and op == "Mult":
            l, n = (a, b) if isinstance(a, ListR) else (b, a)
            if isinstance(n, int):
                return self.newlist(self.S.lists[l.id] * n)
            s = self.sc(n)
            items = self.S.lists[l.id]
            if s is not None and len(items) == 1 and not isinstance(items[0], Seg):
                v = newidx(s.p)
                return self.newlist([Seg(s.p, v, self.freeze(items[0]))])
        for x, y, r in ((a, b, ""), (b, a, "r")):
            if isinstance(x, Obj):
                nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "MatMult": "matmul", "Mod": "mod", "FloorDiv": "floordiv"}.get(op)
                f, _ = x.cls.find(f"__{r}{nm}__") if nm else (None, None)
                if f is not None:
                    return self.call(Bound(f, x), [y], {})
        if a is None or b is None:
            self.raise_("TypeError", f"unsupported operand None for {op}")
        if isinstance(a, (Func, Cls, Bound, LeafFn)) or isinstance(b, (Func, Cls, Bound, LeafFn)):
            self.raise_("TypeError", f"unsupported operand type for {op}")
        # lists act as arrays against arrays
        if isinstance(a, (ListR, tuple)) and isinstance(b, Arr):
            a = self.np.toarray(self, a)
        if isinstance(b, (ListR, tuple)) and isinstance(a, Arr):
            b = self.np.toarray(self, b)
        if isinstance(a, (ListR, DictR)) or isinstance(b, (ListR, DictR)):
            if (isinstance(a, Sc) or isinstance(b, Sc)) :
                self.raise_("TypeError", f"unsupported operand type for {op}: list and number")
        if isinstance(a, Opq) and a.shape is not None:
            a = self.np.opq_array(self, a)
        if isinstance(b, Opq) and b.shape is not None:
            b = self.np.opq_array(self, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            if isinstance(a, (Arr, Masked)) or isinstance(b, (Arr, Masked)):
                return Top(f"operation on opaque value {a!r} {b!r}")
            if self.sc(a) is None and not isinstance(a, Opq) or self.sc(b) is None and not isinstance(b, Opq):
                return Opq(f"({self.vkey(a)}{op}{self.vkey(b)})")
            pa = fn(("?" if not getattr(a, "key", "").startswith("=") else "") + a.key, ()) if isinstance(a, Opq) else self.poly(a)
            pb = fn(("?" if not getattr(b, "key", "").startswith("=") else "") + b.key, ()) if isinstance(b, Opq) else self.poly(b)
            a, b = Sc(pa, "c"), Sc(pb, "c")
        ka, kb = self.kind(a), self.kind(b)
        k = str(kjoin(ka, kb))
        cut = lambda f: f
        nk = [x for x in (ka, kb) if isinstance(x, NarrowK)]
        if nk and k == "i" and all(isinstance(x, NarrowK) or not isinstance(v, Arr) for x, v in ((ka, a), (kb, b))) and len({x.narrow for x in nk}) == 1:
            k, cut = nk[0], lambda f: lambda x, y: self.narrowed(f(x, y), nk[0].narrow)
        if op == "Add":
            return self.elementwise(cut(self.keeps(lambda x, y: x + y)), [a, b], k if k != "b" else "i")
        if op == "Sub":
            return self.elementwise(cut(self.keeps(lambda x, y: x - y)), [a, b], k if k != "b" else "i")
        if op == "Mult":
            return self.elementwise(cut(self.keeps(lambda x, y: x * y)), [a, b], k)
        if op == "Div":
            if not isinstance(b, (Arr, Masked)) and self.poly(b).iszero():
                self.raise_("ZeroDivisionError")
            return self.elementwise(self.div, [a, b], kjoin(k, "f"))
        if op == "Pow":
            return self.elementwise(cut(self.pow), [a, b], k)
        if op == "FloorDiv":
            return self.elementwise(self.floordiv, [a, b], k)
        if op == "Mod":
            return self.elementwise(self.mod, [a, b], k)
        if op == "MatMult":
            return self.np.matmul(self, a, b)
        if op == "BitAnd":
            return self.elementwise(self.bitand, [a, b], k)
        if op == "BitOr":
            return self.elementwise(self.bitor, [a, b], k)
        if op == "BitXor":
            return self.elementwise(self.bitxor, [a, b], k)
        if op == "LShift":
            return self.elementwise(lambda x, y: x * power(const(2), y), [a, b], k)
        if op == "RShift":
            return self.elementwise(lambda x, y: fdiv(x, power(const(2), y)), [a, b], k)
        self.undec(f"operator {op}")

    # leaf arrays of which nothing may be computed at all: their content may be inf or nan, which 0 * x and x - x do not cancel
    volatile = frozenset()

    def keeps(self, f):
        if not self.volatile:
            return f

        def holds(p):
            return any(a[0] == "el" and a[1] in self.volatile or a[0] == "fn" and a[1] == "remains of" for t in p.terms for a, _ in t.fac)

        def g(x, y):
            r = f(x, y)
            if (holds(x) or holds(y)) and not holds(r):
                return r + fn("remains of", (x if holds(x) else y,))
            return r
        return g

    def div(self, x, y):
        if len(y.terms) == 1 and any(alg.is_gate(a) for a, e in y.terms[0].fac):
            # division by a gated value: the quotient exists only where the gate holds
            t = y.terms[0]
            y = Poly((alg.Term(t.coef, t.bound, tuple((a, e) for a, e in t.fac if not alg.is_gate(a))),))
        return x * power(y, F(-1))

    def pow(self, x, y):
        return power(x, y)

    def floordiv(self, x, y):
        if alg.is_int(x) and alg.is_int(y):
            return fdiv(x, y)
        return fn("floor", (x * power(y, F(-1)),))

    def mod(self, x, y):
        if alg.is_int(x) and alg.is_int(y):
            return fmod(x, y)
        return x - y * fn("floor", (x * power(y, F(-1)),))

    def isbit(self, x):
        c = x.as_int()
        if c in (0, 1):
            return True
        lo, hi = alg.bounds_poly(x)
        return alg.is_int(x) and lo is not None and lo >= 0 and hi is not None and hi <= 1

    def bitand(self, x, y):
        for a, b in ((x, y), (y, x)):
            if b == POLY1:
                return fmod(a, const(2))
        if self.isboolp(x) and self.isboolp(y):
            return x * y
        return fn("?and", tuple(sorted((x, y), key=lambda p: p.key())))

    def isboolp(self, x):
        return self.isbit(x) or (x * x == x)

    def bitor(self, x, y):
        if self.isboolp(x) and self.isboolp(y):
            return x + y - x * y
        return fn("?or", tuple(sorted((x, y), key=lambda p: p.key())))

    def bitxor(self, x, y):
        if self.isboolp(x) and self.isboolp(y):
            return x + y - 2 * x * y
        if x == POLY1:
            x, y = y, x
        if y == POLY1:
            return x + 1 - 2 * fmod(x, const(2))
        return fn("?xor", tuple(sorted((x, y), key=lambda p: p.key())))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            self.node = e
            v = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            t = self.truth(v)
            if t is False:
                return False
            if t is not True:
                acc = t if acc is None else acc * t
            left = right
        return True if acc is None else self.boolv(acc)

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            if isinstance(r, Poly):
                return self.boolv(r if op == "Is" else POLY1 - r)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, Poly):
                return self.boolv(r if op == "In" else POLY1 - r)
            return r if op == "In" else not r
        if isinstance(a, SetR) and isinstance(b, SetR):
            r = self.simp(self.set_compare(op, a, b))
            c = r.const()
            return self.boolv(r) if c is None else not c.iszero()
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b)
            if isinstance(r, (Arr, Masked)):
                return r if op == "Eq" else self.elementwise(lambda p: POLY1 - p, [r], "b")
            if isinstance(r, Poly):
                return self.boolv(r if op == "Eq" else POLY1 - r)
            return r if op == "Eq" else not r
        if isinstance(a, Top) or isinstance(b, Top):
            raise Undecided((a if isinstance(a, Top) else b).why)
        if a is None or b is None:
            self.raise_("TypeError", "ordering with None")
        if isinstance(a, Opq) and self.sc(a) is None or isinstance(b, Opq) and self.sc(b) is None:
            return self.boolv(bgate(f"{op}({self.vkey(a)},{self.vkey(b)})"))
        f = {"Lt": lambda x, y: gt0(y - x), "LtE": lambda x, y: ge0(y - x), "Gt": lambda x, y: gt0(x - y), "GtE": lambda x, y: ge0(x - y)}[op]

        def safe(x, y):
            d = x - y
            if not alg.isreal(d):
                return bgate(op, (x, y))
            return f(x, y)
        return self.elementwise(safe, [a, b], "b")

    def is_(self, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, Top):
                raise Undecided(x.why)
            if isinstance(x, Opq) and x.key.startswith("maybe-none:"):
                return bgate("isnone:" + x.key)
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, Sc) and a.k == "b" and isinstance(b, bool):
            return a.p if b else POLY1 - a.p
        if isinstance(b, Sc) and b.k == "b" and isinstance(a, bool):
            return b.p if a else POLY1 - b.p
        if isinstance(a, (Func, Cls, Prop, Mod, LeafFn)):
            return a is b
        if isinstance(a, (Top,)) or isinstance(b, Top):
            raise Undecided("identity of unknown value")
        return self.same(a, b)

    def contains(self, c, x):
        if isinstance(c, DictR):
            return self.dfind(c, x)[0]
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Opq):
            return bgate(f"in({self.vkey(x)},{c.key})")
        it = self.iterate(c)
        if it.items is None:
            self.undec("membership in symbolic sequence")
        acc = None
        for y in it.items:
            r = self.equal(x, y)
            if r is True:
                return True
            if r is False:
                continue
            if not isinstance(r, Poly):
                self.undec("membership")
            acc = r if acc is None else acc + r - acc * r
        return False if acc is None else acc

    def equal(self, a, b):
        """bool, Poly, or elementwise boolean array"""
        if isinstance(a, Top) or isinstance(b, Top):
            raise Undecided((a if isinstance(a, Top) else b).why)
        if isinstance(a, (Arr, Masked)) or isinstance(b, (Arr, Masked)):
            if a is None or b is None:
                return False
            if isinstance(a, (ListR, tuple)):
                a = self.np.toarray(self, a)
            if isinstance(b, (ListR, tuple)):
                b = self.np.toarray(self, b)
            return self.elementwise(lambda x, y: eq0(x - y), [a, b], "b")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            acc = POLY1
            for x, y in zip(a, b):
                r = self.equal(x, y)
                if r is False:
                    return False
                if isinstance(r, Poly):
                    acc = acc * r
            c = acc.const()
            return acc if c is None else not c.iszero()
        if isinstance(a, SetR) and isinstance(b, SetR):
            r = self.simp(self.set_compare("Eq", a, b))
            c = r.const()
            return r if c is None else not c.iszero()
        if isinstance(a, ListR) and isinstance(b, ListR):
            if isinstance(a, SetR) != isinstance(b, SetR):
                return False
            x, y = self.S.lists[a.id], self.S.lists[b.id]
            return self.equal(tuple(x), tuple(y))
        if isinstance(a, Obj):
            f, _ = a.cls.find("__eq__")
            if f is not None:
                return self.truth(self.call(Bound(f, a), [b], {}))
            return a == b
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            if self.vkey(a).strip("'") == self.vkey(b).strip("'"):
                return True
            return bgate(f"streq({self.vkey(a)},{self.vkey(b)})")
        if isinstance(a, DT) and isinstance(b, DT):
            return a == b
        if isinstance(a, (DT, Ext)) and isinstance(b, (DT, Ext)):
            x, y = self.np.todt(self, a), self.np.todt(self, b)
            if x and y:
                return x == y
            return a == b
        if isinstance(a, DT) or isinstance(b, DT):
            x, y = self.np.todt(self, a), self.np.todt(self, b)
            return x is not None and x == y
        if isinstance(a, Opq) or isinstance(b, Opq):
            if a is None or b is None:
                return False
            if isinstance(a, Opq) and isinstance(b, Opq) and a.key == b.key:
                return True
            return bgate("eq(" + ",".join(sorted((self.vkey(a), self.vkey(b)))) + ")")
        sa, sb = self.sc(a), self.sc(b)
        if sa is not None and sb is not None:
            r = eq0(sa.p - sb.p)
            c = r.const()
            return r if c is None else not c.iszero()
        if type(a) is not type(b):
            return False
        return self.same(a, b)

    def e_Attribute(self, e, fr):
        v = self.ev(e.value, fr)
        self.node = e
        return self.getattr(v, e.attr)

    def e_Subscript(self, e, fr):
        v = self.ev(e.value, fr)
        k = self.evslice(e.slice, fr)
        self.node = e
        return self.getitem(v, k)

    def e_Slice(self, e, fr):
        return SliceV(*[self.ev(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def evslice(self, s, fr):
        return self.ev(s, fr)

    def e_Starred(self, e, fr):
        self.undec("starred expression", e)

    def e_ListComp(self, e, fr):
        return self.newlist(self.comp(e, fr))

    def e_GeneratorExp(self, e, fr):
        return self.newlist(self.comp(e, fr))

    def e_SetComp(self, e, fr):
        return self.newset(self.comp(e, fr))

    def e_DictComp(self, e, fr):
        out = {}
        items = self.comp(e, fr, pair=True)
        for it in items:
            if isinstance(it, Seg) or isinstance(it, Top):
                self.undec("dict comprehension over symbolic range", e)
            out[self.dkey(it[0])] = it[1]
        return self.newdict(out)

    def comp(self, e, fr, pair=False):
        fid = fresh()
        self.S.frames[fid] = {}
        cf = Frame(fid, (fid,) + fr.chain, fr.mod, fr.func, fr.cls, fr.self, fr.name)
        acc = self.newlist([])
        gens = e.generators

        def rec(k):
            if k == len(gens):
                v = (self.ev(e.key, cf), self.ev(e.value, cf)) if pair else self.ev(e.elt, cf)
                self.S.lists[acc.id].append(v)
                return
            g = gens[k]
            it = self.iterate(self.ev(g.iter, cf if k else fr))

            def inner():
                for c in g.ifs:
                    t = self.truth(self.ev(c, cf))
                    b = t if isinstance(t, bool) else self.branch(t)
                    if b is None:
                        self.undec("filtered comprehension over symbolic range", e)
                    if not b:
                        return
                rec(k + 1)
            if it.items is not None:
                for v in it.items:
                    self.assign(g.target, v, cf)
                    inner()
            else:
                self.run_sym_loop(it, lambda v: self.assign(g.target, v, cf), inner, e, cf)
        rec(0)
        return self.S.lists[acc.id]

    def e_Call(self, e, fr):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in self.S.frames[fr.fid]:
            if not e.args:
                f = fr
                cls = fr.cls
                selfv = fr.self
                if cls is None or selfv is None:
                    self.raise_("RuntimeError", "super(): no arguments")
                mro = selfv.mro if isinstance(selfv, Cls) else selfv.cls.mro
                return Super(cls, selfv, mro)
            a = [self.ev(x, fr) for x in e.args]
            if len(a) == 2 and isinstance(a[0], Cls):
                mro = a[1].mro if isinstance(a[1], Cls) else a[1].cls.mro
                return Super(a[0], a[1], mro)
            self.undec("super() form", e)
        f = self.ev(e.func, fr)
        args, kw = [], {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                args.extend(self.unpack(v, None))
            else:
                args.append(self.ev(x, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                if isinstance(v, DictR):
                    kw.update({kk: vv for kk, vv in self.S.dicts[v.id].items()})
                else:
                    self.undec("** argument", e)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        self.node = e
        return self.call(f, args, kw)

    def e_Await(self, e, fr):
        self.undec("await", e)

    def e_Yield(self, e, fr):
        self.undec("generator", e)

    def e_YieldFrom(self, e, fr):
        self.undec("generator", e)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Func):
            return self.callfunc(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kw)
        if isinstance(f, PyFn):
            return f.fn(self, args, kw)
        if isinstance(f, Static):
            return self.call(f.fn, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.np.callext(self, f, args, kw)
        if isinstance(f, DT):
            return self.np.cast_scalar(self, f, args)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + list(args), {**f.kw, **kw})
        if isinstance(f, LeafFn):
            return self.np.call_leaffn(self, f, args, kw)
        if isinstance(f, Obj):
            m, _ = f.cls.find("__call__")
            if m is None:
                self.raise_("TypeError", f"{f.cls.name} object is not callable")
            return self.call(Bound(m, f), args, kw)
        if isinstance(f, Opq):
            return self.np.call_opaque(self, f, args, kw)
        if isinstance(f, Top):
            return f
        if f is None or isinstance(f, (int, str, tuple, Sc, Arr, ListR, DictR)):
            self.raise_("TypeError", "object is not callable")
        self.undec(f"call of {f!r}")

    def qualname(self, f):
        return f.mod.name + "." + ((f.cls.name + ".") if f.cls else "") + f.name

    def callfunc(self, f, args, kw):
        q = self.qualname(f)
        if q in self.intercepts:
            h = self.intercepts[q]
            self.hits[q] = self.hits.get(q, 0) + 1
            bound = self.bindargs(f, args, kw)
            r = h(self, bound)
            if r is not NotImplemented:
                return r
        if self.depth > 60:
            self.undec("recursion too deep")
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)) and not isinstance(f.node, ast.Lambda):
            return CtxR(f, args, kw) if f.ctx else self.generator(f, args, kw)
        if f.cached is not None:
            key = (self.vkey(tuple(args)), self.vkey(tuple(kw.items())))
            if key in f.cached:
                return f.cached[key]
            r = self._callfunc(f, args, kw)
            f.cached[key] = r
            return r
        return self._callfunc(f, args, kw)

    def generator(self, f, args, kw):
        """the values a generator function yields, computed when it is called; the result can be iterated over once"""
        out = self.newlist([])
        self.yields.append(lambda v: self.call(self.getattr(out, "append"), [v], {}))
        try:
            self._callfunc(f, args, kw)
        finally:
            self.yields.pop()
        return GenR(out)

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        if not self.yields or self.yields[-1] is None:
            self.undec("yield")
        self.yields[-1](v)
        return None

    def e_YieldFrom(self, e, fr):
        it = self.iterate(self.ev(e.value, fr))
        if it.items is None or not self.yields or self.yields[-1] is None:
            self.undec("yield from")
        for v in it.items:
            self.yields[-1](v)
        return None

    def _callfunc(self, f, args, kw):
        env = self.bindargs(f, args, kw)
        fid = fresh()
        self.S.frames[fid] = env
        first = None
        a = f.node.args
        pos = a.posonlyargs + a.args
        if pos:
            first = env.get(pos[0].arg)
        if f.cls is not None and not (isinstance(first, (Obj, Cls))):
            first = None
        fr = Frame(fid, (fid,) + tuple(f.frames), f.mod, f, f.cls, first, (f.cls.name + "." if f.cls else "") + f.name)
        # methods called through closures: inherit class context for nested functions
        if f.cls is None and self.stack:
            for g in reversed(self.stack):
                if g.fid in f.frames and g.cls is not None:
                    fr.cls, fr.self = g.cls, g.self
                    break
        self.trace.add((f.mod.path, fr.name, f.node.lineno))
        saved = self.node
        self.stack.append(fr)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            exits, alive = self.block(f.node.body, fr)
            return self.join_exits(exits, alive)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.node = saved

    def join_exits(self, exits, alive):
        ex = list(exits)
        if alive is not None:
            ex.append(Exit(alive, self.S, "return", None))
        rs = [e for e in ex if e.flow == "raise"]
        ok = [e for e in ex if e.flow != "raise"]
        if any(e.flow != "return" for e in ok):
            self.undec("loop exit outside a loop")
        if not ok:
            raise rs[0].val
        last = ok[-1]
        self.S = last.state
        val = last.val
        for e in reversed(ok[:-1]):
            S1, S2 = e.state, self.S
            v1, v2 = e.val, val
            self.merge(e.gate, S1, S2)
            val = self.phi(e.gate, v1, v2, S1, S2)
        for e in rs:
            self.S.craises.append((e.gate, e.val))
        return val

    def bindargs(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        name = f.name
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_("TypeError", f"{name}() takes {len(pos)} positional arguments but {len(args)} were given")
            env[a.vararg.arg] = tuple(args[len(pos):])
            args = args[: len(pos)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            env[n] = v
        npos = len(a.posonlyargs)
        for k in list(kw):
            if k in [x.arg for x in a.args] or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    self.raise_("TypeError", f"{name}() got multiple values for argument {k}")
                env[k] = kw.pop(k)
        if kw:
            if a.kwarg is None:
                self.raise_("TypeError", f"{name}() got an unexpected keyword argument {sorted(map(str, kw))[0]}")
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.newdict(kw)
        nd = len(f.defaults)
        for k, n in enumerate(pos):
            if n not in env:
                j = k - (len(pos) - nd)
                if j < 0:
                    self.raise_("TypeError", f"{name}() missing required argument {n}")
                env[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in f.kwdefaults:
                    env[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.raise_("TypeError", f"{name}() missing keyword argument {x.arg}")
        return env

    def blank(self, cls):
        if not isinstance(cls, Cls):
            self.undec("__new__")
        o = Obj(fresh(), cls)
        self.S.objs[o.id] = {}
        return o

    def instantiate(self, cls, args, kw):
        if any(isinstance(b, Ext) and b.path in ("Exception", "ValueError") for c in cls.mro for b in c.bases):
            return Opq("exception:" + cls.name)
        o = Obj(fresh(), cls)
        self.S.objs[o.id] = {}
        new, _ = cls.find("__new__")
        if new is not None:
            self.undec("__new__")
        init, _ = cls.find("__init__")
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            self.raise_("TypeError", f"{cls.name}() takes no arguments")
        return o

    # ------------------------------------------------------------------ attributes
    def descr(self, v, obj, cls):
        if isinstance(v, Func):
            return Bound(v, obj)
        if isinstance(v, Static):
            return v.fn
        if isinstance(v, ClassM):
            return Bound(v.fn, cls)
        if isinstance(v, Prop):
            return self.call(Bound(v.get, obj), [], {})
        if isinstance(v, PyFn):
            return v
        return v

    def getattr(self, v, name):
        if isinstance(v, Obj):
            c, _ = v.cls.find(name)
            if isinstance(c, Prop):
                return self.call(Bound(c.get, v), [], {})
            d = self.S.objs[v.id]
            if name in d:
                return d[name]
            if c is not None or (_ is not None):
                return self.descr(c, v, v.cls)
            if name == "__class__":
                return v.cls
            if name == "__dict__":
                return self.obj_dict(v)
            ga, _ = v.cls.find("__getattr__")
            if ga is not None:
                return self.call(Bound(ga, v), [name], {})
            if name == "__new__":
                return PyFn(lambda I, a, k: I.blank(a[0]))
            if name in dir(object):
                return Top(f"object attribute {name}")
            self.raise_("AttributeError", f"{v.cls.name} object has no attribute {name}")
        if isinstance(v, Cls):
            c, _ = v.find(name)
            if c is None and _ is None:
                if name == "__name__":
                    return v.name
                if name == "__init__":
                    return PyFn(lambda I, a, k: None)
                if name == "__qualname__":
                    return v.name
                if name == "__mro__":
                    return tuple(v.mro)
                if name == "__bases__":
                    return tuple(v.bases)
                if name == "__new__":
                    return PyFn(lambda I, a, k: I.blank(a[0]))
                if name in dir(object) or name in ("__annotations__", "__subclasses__", "__dict__", "__module__", "mro", "__abstractmethods__", "register"):
                    return Top(f"class attribute {name}")
                self.raise_("AttributeError", f"class {v.name} has no attribute {name}")
            if isinstance(c, Static):
                return c.fn
            if isinstance(c, ClassM):
                return Bound(c.fn, v)
            return c
        if isinstance(v, Super):
            mro = v.mro[v.mro.index(v.cls) + 1:] if v.cls in v.mro else []
            for c in mro:
                if name in c.ns:
                    x = c.ns[name]
                    if isinstance(v.obj, Cls):
                        if isinstance(x, Static):
                            return x.fn
                        if isinstance(x, ClassM):
                            return Bound(x.fn, v.obj)
                        return x
                    return self.descr(x, v.obj, v.obj.cls)
            if name == "__init__":
                return PyFn(lambda I, a, k: None)
            if name == "__setattr__":
                return PyFn(lambda I, a, k: I.rawset(v.obj, a[0], a[1]))
            if name == "__new__":
                return PyFn(lambda I, a, k: I.blank(a[0]))
            if name == "__init_subclass__":
                return PyFn(lambda I, a, k: None)
            if name in dir(object):
                return Top(f"object attribute {name}")
            self.raise_("AttributeError", f"super object has no attribute {name}")
        if isinstance(v, Mod):
            d = self.S.frames[v.frame]
            if name in d:
                return d[name]
            if v.name + "." + name in self.program.mods:
                return self.module(v.name + "." + name)
            self.raise_("AttributeError", f"module {v.name} has no attribute {name}")
        if isinstance(v, Prop):
            if name in ("fget", "fset"):
                return v.get if name == "fget" else v.set
        if isinstance(v, Func):
            if name == "__name__":
                return v.name
            if name == "__doc__":
                return ""
            if name == "py_func":
                return v
            d = self.S.objs.get(("func", v.name, id(v.node)), {})
            if name in d:
                return d[name]
            if not name.startswith("__"):
                self.raise_("AttributeError", f"function {v.name} has no attribute {name}")
        if isinstance(v, Bound):
            if name == "__func__":
                return v.fn
            if name == "__self__":
                return v.self
            return self.getattr(v.fn, name)
        if isinstance(v, Top):
            return v
        return self.np.getattr_ext(self, v, name)

    def obj_dict(self, v):
        return DictR(("vars", v.id))

    def rawset(self, v, name, val):
        self.S.objs[v.id][name] = val
        self.S.attrs.append((v.id, name, self.loc()))

    def setattr(self, v, name, val):
        if isinstance(val, DictR):
            self.born.pop(val.id, None)
        if isinstance(v, Obj):
            c, _ = v.cls.find(name)
            if isinstance(c, Prop):
                if c.set is None:
                    self.raise_("AttributeError", f"can't set attribute {name}")
                self.call(Bound(c.set, v), [val], {})
                return
            sa, _ = v.cls.find("__setattr__")
            if sa is not None and not any(fr.func is sa for fr in self.stack):
                self.call(Bound(sa, v), [name, val], {})
                return
            self.rawset(v, name, val)
            return
        if isinstance(v, Super):
            self.rawset(v.obj, name, val)
            return
        if isinstance(v, Cls):
            v.ns[name] = val
            return
        if isinstance(v, Top):
            raise Undecided(v.why)
        self.np.setattr_ext(self, v, name, val)

    # ------------------------------------------------------------------ items
    def getitem(self, v, k):
        if isinstance(v, Top):
            return v
        if isinstance(v, Arr):
            return self.np.index(self, v, k)
        k2 = self.norm(k) if isinstance(k, Sc) else k
        if isinstance(v, (tuple, str)):
            if isinstance(k2, int):
                try:
                    return v[k2]
                except IndexError:
                    self.raise_("IndexError", "index out of range")
            if isinstance(k2, SliceV):
                s = [None if x is None else self.norm(x) for x in (k2.a, k2.b, k2.c)]
                if all(x is None or isinstance(x, int) for x in s):
                    return v[slice(*s)]
            if isinstance(k2, Sc) and isinstance(v, tuple):
                return self.select(list(v), k2)
            self.undec("symbolic tuple index")
        if isinstance(v, ListR):
            items = self.S.lists[v.id]
            if isinstance(k2, SliceV):
                s = [None if x is None else self.norm(x) for x in (k2.a, k2.b, k2.c)]
                if s == [None, None, None]:
                    return self.newlist(items)
                if all(x is None or isinstance(x, int) for x in s) and not any(isinstance(x, Seg) for x in items):
                    return self.newlist(items[slice(*s)])
                self.undec("symbolic list slice")
            if any(isinstance(x, Seg) for x in items):
                if len(items) == 1:
                    s = items[0]
                    p = self.poly(k2)
                    if isinstance(k2, int) and k2 < 0:
                        p = s.length + k2
                    return self.inst(self.vsubst(s.value, {s.var: p}))
                self.undec("index into mixed list")
            if isinstance(k2, int):
                if items and isinstance(items[0], Top) and len(items) == 1:
                    return items[0]
                try:
                    return items[k2]
                except IndexError:
                    self.raise_("IndexError", "list index out of range")
            if isinstance(k2, Sc):
                return self.select(items, k2)
            self.raise_("TypeError", "list indices must be integers")
        if isinstance(v, DictR):
            d = self.S.dicts[v.id]
            ok, kk = self.dfind(v, k2)
            if ok:
                return d[kk]
            self.raise_("KeyError", str(kk))
        if isinstance(v, Obj):
            f, _ = v.cls.find("__getitem__")
            if f is not None:
                return self.call(Bound(f, v), [k], {})
            self.raise_("TypeError", f"{v.cls.name} is not subscriptable")
        if v is None:
            self.raise_("TypeError", "None is not subscriptable")
        return self.np.getitem_ext(self, v, k)

    def select(self, items, k):
        """items[k] with symbolic k"""
        ss = [self.sc(x) for x in items]
        if all(s is not None for s in ss):
            tot, kind = ZERO, "b"
            for j, s in enumerate(ss):
                tot = tot + eq0(k.p - j) * s.p
                kind = kjoin(kind, s.k)
            return Sc(tot, kind)
        return Top("symbolic index into a list")

    def setitem(self, v, k, val):
        if isinstance(v, Top):
            return
        if isinstance(v, Arr):
            return self.np.setindex(self, v, k, val)
        k2 = self.norm(k) if isinstance(k, Sc) else k
        if isinstance(v, ListR):
            items = self.S.lists[v.id]
            if isinstance(k2, int) and not any(isinstance(x, Seg) for x in items):
                try:
                    items[k2] = val
                except IndexError:
                    self.raise_("IndexError", "list assignment index out of range")
                self.S.events.append(("listset", v.id, self.loc()))
                return
            self.undec("symbolic list store")
        if isinstance(v, DictR):
            if isinstance(v.id, tuple):
                self.rawset(Obj(v.id[1], None), self.dkey(k2), val)
                return
            self.dset(v, k2, val)
            return
        if isinstance(v, Obj):
            f, _ = v.cls.find("__setitem__")
            if f is not None:
                self.call(Bound(f, v), [k, val], {})
                return
        if isinstance(v, tuple) or v is None:
            self.raise_("TypeError", "object does not support item assignment")
        return self.np.setitem_ext(self, v, k, val)
