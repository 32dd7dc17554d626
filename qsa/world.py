"""Check framework: analysis scenarios, obligations, verdicts, evidence."""
import json
import os
import signal
import sys
import time

from . import alg, evalp
from .alg import Poly, P, POLY1, ZERO, sym, newidx, idx, subst, sumover, eq0, ge0
from .interp import Program, Interp, explore, Outcome
from .values import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QSA_REPO", "/repo")
Q = "quantum_systems."
NP = Ext("numpy")
PYSCF_LEAVES = ()

CONCRETE = (dict(l=2, n=1, lp=2, g=3), dict(l=3, n=2, lp=2, g=4))


class Sizes:
    def __init__(self, conc=None):
        self.conc = conc
        if conc is None:
            self.l = sym("l", integer=True, lo=2)
            self.n = sym("n", integer=True, lo=1)
            self.lp = sym("lp", integer=True, lo=1)
            self.g = sym("g", integer=True, lo=3)
        else:
            for k, v in {**CONCRETE[0], **conc}.items():
                setattr(self, k, P(v) if isinstance(v, int) else v)
        self.G = self.g + 1

    def __str__(self):
        return "all sizes" if self.conc is None else "sizes " + ",".join(f"{k}={v}" for k, v in self.conc.items())


class Ob:
    __slots__ = ("scn", "name", "status", "detail", "loc", "sizes", "cls")

    def __init__(self, scn, name, status, detail, loc, sizes, cls=None):
        self.scn, self.name, self.status, self.detail, self.loc, self.sizes, self.cls = scn, name, status, detail, loc, sizes, cls


def floc(loc):
    if not loc:
        return "?"
    return f"{loc[0]}:{loc[2]} in {loc[1]}"


def elems(I, v):
    """immutable element function of an array"""
    t = I.tmpl(v)
    return lambda *ix: subst(t.body, dict(zip(t.vars, ix)))


class Scn:
    """helpers available to one analysed scenario on one trace partition"""

    def __init__(self, K, name, I, W):
        self.K, self.name, self.I, self.W = K, name, I, W
        self.pre = []
        I.obs = []
        self.l, self.n, self.lp, self.g, self.G = W.l, W.n, W.lp, W.g, W.G
        I.scn = self
        self.label = ""         # prefix of the names of all input values: other data
        self.others = False     # build an object with other data after each object

    # -- building
    def sc(self, p, k="i"):
        return self.I.norm(Sc(p, k))

    def par(self, name, lo=None, real=True, k="f"):
        return Sc(sym(self.label + name, lo=lo, real=real), k)

    def arr(self, name, shape, dt="c", mod="numpy"):
        return self.I.leaf(self.label + name, shape, dt, mod=mod)

    def const(self, x):
        """array from nested python lists of Fractions/complex"""
        return self.I.call(Ext("numpy", "array"), [self.pylist(x)], {})

    def pylist(self, x):
        if isinstance(x, (list, tuple)):
            return self.I.newlist([self.pylist(y) for y in x])
        if isinstance(x, Poly):
            r = Sc(x, "f" if alg.isreal(x) else "c")
            return self.I.norm(r)
        return x

    def new(self, cls, *args, **kw):
        c = self.I.get(cls if cls.startswith(Q) else Q + cls)
        r = self.I.call(c, [self.v(a) for a in args], {k: self.v(x) for k, x in kw.items()})
        if self.others:
            try:
                self.I.call(c, [self.relabel(self.v(a)) for a in args], {k: self.relabel(self.v(x)) for k, x in kw.items()})
            except Raised:
                pass
        return r

    def relabel(self, v):
        if isinstance(v, Sc) and v.k in ("f", "c"):
            m = {n: sym("later:" + n, real=alg.SYM_REAL.get(n, True), lo=alg.SYM_MIN.get(n))
                 for n in alg.syms_of(v.p) if n in alg.SYM_REAL and n not in alg.SYM_INT and n[:1].isalpha() and n not in ("pi", "INF")}
            return Sc(subst(v.p, {}, m), v.k) if m else v
        return v

    def other(self, f):
        """f() on other data, its obligations and its failure not being of interest"""
        old, oth = self.label, self.others
        self.label, self.others = old + "other:", False
        try:
            f()
        except Raised:
            pass
        finally:
            self.label, self.others = old, oth

    def v(self, a):
        if isinstance(a, Poly):
            return self.I.norm(Sc(a, "i" if alg.is_int(a) else "f"))
        if isinstance(a, F):
            return Sc(P(a), "f")
        return a

    def get(self, o, name):
        return self.I.getattr(o, name)

    def set(self, o, name, val):
        self.I.setattr(o, name, val)

    def call(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), [self.v(a) for a in args], {k: self.v(x) for k, x in kw.items()})

    def assume(self, p, true=True):
        """restrict to inputs with the 0/1 term p true"""
        self.pre.append((p, true))
        self.I.assume_true(p if true else POLY1 - p)

    def basis(self, dim=1, dt="c", spin=False, absent=(), l=None, tag="", cls="basis_set.BasisSet", kw=None):
        l = self.l if l is None else l
        b = self.new(cls, l, dim, np=NP, **({"includes_spin": True} if spin else {}), **(kw or {}))
        sh = self.shapes(l, dim)
        for nm in ("h", "s", "u", "dipole_moment", "spf"):
            if nm not in absent:
                self.set(b, nm, self.arr(nm + tag, sh[nm], dt))
        if "bra_spf" not in absent and "spf" not in absent:
            self.set(b, "bra_spf", self.arr("bra_spf" + tag, sh["bra_spf"], dt))
        if spin:
            for nm in ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"):
                if nm not in absent:
                    self.set(b, nm, self.arr(nm + tag, sh[nm], dt))
        if "grid" not in absent:
            self.set(b, "grid", self.arr("grid" + tag, (self.G,), "f"))
            self.set(b, "nuclear_repulsion_energy", self.par("Enuc" + tag))
        if self.others:
            self.other(lambda: self.basis(dim, dt, spin, absent, l, tag, cls, kw))
        return b

    def shapes(self, l, dim):
        o, t = (l, l), (l,) * 4
        f = (l,) + tuple([self.G] * dim)
        return dict(h=o, s=o, u=t, dipole_moment=(P(dim),) + o, spf=f, bra_spf=f, spin_x=o, spin_y=o, spin_z=o, spin_2=o, spin_2_tb=t)

    def snap(self, o, names):
        """values held now: name -> None | element function"""
        out = {}
        for nm in names:
            v = self.get(o, nm)
            out[nm] = None if v is None else (elems(self.I, self.asarr(v)), self.asarr(v))
        return out

    def asarr(self, v):
        if isinstance(v, (ListR, tuple)):
            return self.I.call(Ext("numpy", "array"), [v], {})
        if isinstance(v, (Sc, int, float, complex)) and not isinstance(v, bool):
            return self.I.call(Ext("numpy", "array"), [v], {})
        return v

    def el(self, arr):
        return elems(self.I, arr)

    def sum(self, dims, f):
        vs = [newidx(P(d)) for d in dims]
        p = f(*[idx(v) for v in vs])
        for v in vs:
            p = sumover(p, v)
        return p

    # -- obligations
    def ob(self, name, status, detail="", loc=None, cls=None):
        if self.label:
            return "proved"
        self.I.obs.append(Ob(self.name, name, status, detail, loc, str(self.W), cls))
        return status

    def conds(self):
        return list(self.pre) + list(self.I.pathlog)

    def feasible(self):
        """is there a valuation satisfying the conditions of this partition?"""
        return feasible(self.conds(), self.K.seed)

    def true(self, name, cond, detail="", loc=None, cls=None):
        if cond:
            return self.ob(name, "proved", detail, loc, cls)
        f = self.feasible()
        return self.ob(name, "violated" if f else "undecided", detail, loc, cls)

    def unknown(self, name, why):
        return self.ob(name, "undecided", why)

    def none(self, name, v, loc=None):
        return self.true(name, v is None, "expected to be absent", loc)

    def wloc(self, arr, obj=None, attr=None):
        """where a value came from"""
        I = self.I
        locs = []
        if obj is not None:
            for o, a, loc in reversed(I.S.attrs):
                if o == obj.id and (a == attr or a == "_" + attr):
                    locs.append(loc)
                    break
        if isinstance(arr, Arr):
            for c, lab, loc in reversed(I.S.writes):
                if c == arr.cell:
                    locs.append(loc)
                    break
            c = I.S.cells[arr.cell]
            if c.loc:
                locs.append(c.loc)
        return locs[0] if locs else None

    def eqdim(self, a, b):
        if a == b:
            return "proved"
        return self.decide(a, b)[0]

    def decide(self, a, b):
        """status of a == b under the partition's conditions"""
        I = self.I
        if self.label:
            return "proved", ""
        a, b = I.simp(a), I.simp(b)
        if a == b:
            return "proved", ""
        bad = unmodelled(a) or unmodelled(b)
        if bad:
            return "undecided", "value not modelled: " + bad
        r, info = evalp.test_equal(a, b, self.conds(), seed=self.K.seed, samples=self.K.samples)
        if r == "equal":
            return "held", f"random interpretation, {info} valuations"
        if r == "different":
            return "violated", info
        return "undecided", info

    def eqs(self, name, val, spec, loc=None, cls=None):
        """scalar equality"""
        if isinstance(val, (Top, Opq)):
            return self.unknown(name, f"value not modelled: {val!r}")
        s = self.I.sc(val)
        if s is None:
            return self.true(name, False, f"not a number: {val!r}", loc, cls)
        st, d = self.decide(s.p, P(spec))
        if st == "violated":
            d = f"computed {short(s.p)}  expected {short(P(spec))}: {d}"
        return self.ob(name, st, d, loc, cls)

    def eq(self, name, val, shape, spec, loc=None, obj=None, attr=None, cls=None, split=True):
        """array equality: val has the shape and element spec(*ix)"""
        I = self.I
        if isinstance(val, (ListR, tuple)):
            try:
                val = self.asarr(val)
            except Undecided as u:
                return self.unknown(name, str(u))
        loc = loc or self.wloc(val, obj, attr)
        if isinstance(val, (Top, Opq)):
            return self.unknown(name, f"value not modelled: {val!r}")
        if val is None:
            return self.true(name, False, "value is absent", loc, cls)
        if not isinstance(val, Arr):
            if not shape and I.sc(val) is not None:
                return self.eqs(name, val, spec(), loc, cls)
            return self.true(name, False, f"not an array: {val!r}", loc, cls)
        shape = tuple(P(d) for d in shape)
        if len(shape) != len(val.shape):
            return self.true(name, False, f"has {len(val.shape)} axes, expected {len(shape)}", loc, cls)
        worst = "proved"
        for k, (a, b) in enumerate(zip(val.shape, shape)):
            st, d = self.decide(a, b)
            if st == "violated":
                return self.ob(name, "violated", f"axis {k} has length {short(a)}, expected {short(b)}: {d}", loc, cls)
            worst = worse(worst, st)
        if worst == "undecided":
            return self.unknown(name, "axis lengths not comparable")
        vs = [newidx(d) for d in shape]
        ix = [idx(v) for v in vs]
        got = I.at(val, ix)
        want = spec(*ix)
        # split even axes into (orbital, spin) and finite axes into their elements
        if self.label:
            return "proved"
        if split and I.simp(got) != I.simp(want) and self.splits(got, want, vs, shape):
            st, d = "proved", "by case split"
        else:
            st, d = self.decide(got, want)
        if st == "violated":
            d = f"element {short(got)}  expected {short(want)}: {d}"
        return self.ob(name, worse(worst, st), d, loc, cls)

    def splits(self, got, want, vs, shape):
        I = self.I
        cases = [(got, want)]
        for v, d in zip(vs, shape):
            n = d.as_int()
            new = []
            if n is not None and n <= 4:
                for a, b in cases:
                    for k in range(n):
                        new.append((subst(a, {v: P(k)}), subst(b, {v: P(k)})))
            else:
                h = alg.exact_div(d, P(2)) if not any(c.coef.re % 2 for c in d.terms) else None
                if h is None or not alg.is_int(h):
                    continue
                k = newidx(h)
                for a, b in cases:
                    for t in (0, 1):
                        e = 2 * idx(k) + t
                        new.append((subst(a, {v: e}), subst(b, {v: e})))
            cases = new
            if len(cases) > 64:
                return False
        return all(I.simp(a) == I.simp(b) for a, b in cases)

    def held_eq(self, name, o, nm, snap, shape=None):
        """attribute nm of o still has the snapshot's value"""
        v = self.get(o, nm)
        return self.same_as(name, v, snap[nm], o, nm)

    def same_as(self, name, v, sn, o=None, nm=None):
        if sn is None:
            return self.none(name, v, self.wloc(v, o, nm) if o is not None else None)
        f, a = sn
        return self.eq(name, v, a.shape, f, obj=o, attr=nm)

    def isobj(self, name, v, w, detail=""):
        return self.true(name, v is w or v == w, detail)


def unmodelled(p):
    for s in alg.syms_of(p):
        t = s.split(":", 1)[1] if s.startswith(("leaf:", "fn:")) else s
        if t[:1] in "?\u22a4\u27e8" or s[:1] in "?\u22a4\u27e8":
            return t
    return None


def short(p, n=260):
    s = alg.show(p)
    return s if len(s) <= n else s[:n] + "..."


ORDER = {"proved": 0, "held": 1, "undecided": 2, "violated": 3}


def worse(a, b):
    return a if ORDER[a] >= ORDER[b] else b


def feasible(conds, seed):
    if not conds:
        return True
    ev = False
    hs = evalp.hints_of(conds)
    for k in range(400):
        v = evalp.Val(f"{seed}:feas:{k}", hints=hs if k % 2 else ())
        v.alias = evalp.aliases(conds)
        try:
            if all((abs(v.poly(c if isinstance(c, Poly) else alg.atom(c))) > 1e-9) == want for c, want in conds):
                return True
        except evalp.Inconclusive:
            continue
    return False


class TooLong(BaseException):
    pass


class Check:
    def __init__(self, prop, tier="quick", seed=1, root=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.root = root or REPO
        self.program = Program(self.root)
        self.obs = []
        self.functions = set()
        self.partitions = 0
        self.scenarios = 0
        self.unmodelled = set()
        self.extra = {}
        self.t0 = time.time()
        self.samples = 60 if tier == "quick" else 400
        self.history = self.cross = True
        self.later = []
        self.nohistory = []     # scenarios for which the variant with other data was not analysed completely
        self.need = []          # anchors that must have been analysed
        self.notes = []
        self.anchors_missing = []
        self.limit = 700 if tier == "quick" else 6000

    # -- scenarios
    def run(self, name, fn, concrete=CONCRETE, max_paths=200, raises_ok=False, symbolic=True, budget=300):
        """analyse fn(S) on every partition; fall back to concrete sizes where the general analysis is undecided"""
        self.scenarios += 1
        if time.time() - self.t0 > self.limit:
            self.obs.append(Ob(name, "analysis", "undecided", "time limit of the check reached", None, "all sizes"))
            return
        t0 = time.time()
        first = self.once(name, fn, Sizes(), max_paths, raises_ok, time.time() + budget) if symbolic else [Ob(name, "analysis", "undecided", "only analysed at fixed sizes", None, "all sizes")]
        und = [o for o in first if o.status == "undecided"]
        if not und or any(o.status == "violated" for o in first):
            self.obs += first
            if not und and all(o.status != "violated" for o in first) and self.history:
                self.later.append((round(time.time() - t0), name, fn, max_paths, raises_ok))
            return
        if os.environ.get("QSA_DEBUG"):
            for o in und:
                print("   general analysis undecided:", o.scn, "/", o.name, "|", o.detail[:600], file=sys.stderr)
        keep = [o for o in first if o.status != "undecided"]
        gen = {o.name for o in und}
        res = {}
        for c in concrete:
            if time.time() - self.t0 > self.limit:
                break
            for o in self.once(name, fn, Sizes(c), max_paths, raises_ok):
                res.setdefault(o.name, []).append(o)
        out = {}
        every = "analysis" in gen
        for nm, os_ in res.items():
            if nm in gen or every or any(o.status == "violated" for o in os_):
                w = max(os_, key=lambda o: ORDER[o.status])
                if w.status == "proved":
                    w.status = "held"
                    w.sizes = "; ".join(sorted({o.sizes for o in os_}))
                out[nm] = w
        for o in und:
            if o.name not in out and not (o.name == "analysis" and out):
                out[o.name] = o
        self.obs += keep + list(out.values())

    def after_other(self, seconds):
        """the same obligations when the same steps, or those of another scenario, were taken before on other data,
        and when objects are built afterwards with other data"""
        if any(o.status == "violated" for o in self.obs):
            return
        n = len(self.later)
        same = [(t, k, k) for k, (t, *_) in enumerate(self.later)]
        next_ = [(t + self.later[(k + 1) % n][0], k, (k + 1) % n) for k, (t, *_) in enumerate(self.later)] if n > 1 and self.cross else []
        for todo in (same, next_):
            end = min(time.time() + seconds, self.t0 + self.limit)
            for _, k, j in sorted(todo):
                _, name, fn, max_paths, raises_ok = self.later[k]
                before = self.later[j][2]
                nm = name + (" (after and before the same steps on other data)" if j == k else f" (after {self.later[j][1]} on other data)")
                if time.time() > end:
                    self.nohistory.append(nm)
                    continue

                def f(S):
                    saved = dict(S.I.intercepts)
                    S.other(lambda: before(S))
                    S.I.intercepts.clear()
                    S.I.intercepts.update(saved)
                    S.others = j == k
                    return fn(S)
                obs = self.once(nm, f, Sizes(), max_paths, raises_ok, end + 15)
                if any(o.status == "undecided" for o in obs):
                    self.nohistory.append(nm)
                    if os.environ.get("QSA_DEBUG"):
                        for o in obs:
                            if o.status == "undecided":
                                print("   history undecided:", o.scn, "/", o.name, "|", o.detail[:600], file=sys.stderr)
                    obs = [o for o in obs if o.status == "violated"]
                self.obs += obs
                if any(o.status == "violated" for o in obs):
                    return

    def once(self, name, fn, W, max_paths, raises_ok, deadline=None):
        obs = []
        deadline = min(deadline or 1e99, self.t0 + self.limit + 60)

        def scenario(I):
            S = Scn(self, name, I, W)
            I.deadline = deadline
            r = fn(S)
            return r
        t = time.time()
        outs = self.timed(deadline, name, W, lambda: explore(self.program, scenario, max_paths=max_paths))
        if outs is None:
            return [Ob(name, "analysis", "undecided", "the analysis takes too long", None, str(W))]
        self.partitions += len(outs)
        for o in outs:
            I = o.I
            self.functions |= I.trace
            self.unmodelled |= I.unmodelled
            S = getattr(I, "scn", None)
            got = list(getattr(I, "obs", []))
            pre = S.pre if S else []
            conds = list(pre) + list(o.path)
            if o.kind == "undecided":
                # obligations recorded before stay; the rest of the scenario is open
                if feasible(conds, self.seed):
                    obs.append(Ob(name, "analysis", "undecided", str(o.value), None, str(W)))
                    obs += got
                continue
            if o.kind == "raise":
                ok = raises_ok(S, o.value) if callable(raises_ok) else raises_ok
                if not ok:
                    if feasible(conds, self.seed):
                        obs += got
                        obs.append(Ob(name, "completes", "violated", f"raises {o.value.exc}: {o.value.msg}" + self.pathtext(o.path), o.value.loc, str(W)))
                    continue
            obs += got
            for gate, r in I.S.craises:
                if raises_ok:
                    continue
                g = I.simp(gate)
                if g.iszero():
                    continue
                st, info = evalp.test_equal(g, ZERO, conds, seed=self.seed)
                if st == "different":
                    obs.append(Ob(name, "completes", "violated", f"raises {r.exc}: {r.msg} when {short(g)} ({info})", r.loc, str(W)))
                elif st == "inconclusive":
                    obs.append(Ob(name, "completes", "undecided", f"raise at {floc(r.loc)}: {info}", None, str(W)))
        if os.environ.get("QSA_DEBUG"):
            print(f"   [{name} @ {W}] {time.time() - t:.2f}s {len(outs)} partitions", file=sys.stderr)
        # several partitions may report one obligation: keep the worst
        best = {}
        for o in obs:
            if o.name not in best or ORDER[o.status] > ORDER[best[o.name].status]:
                best[o.name] = o
        return list(best.values())

    def timed(self, deadline, name, W, f):
        """f() or None when the deadline passes"""
        def late(*a):
            raise TooLong()
        left = deadline - time.time()
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, max(left, 0.01))
        try:
            return f()
        except TooLong:
            alg._bounding.clear()
            evalp.DIGITS[0] = 6
            return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def pathtext(self, path):
        if not path:
            return ""
        return " when " + " and ".join(("" if b else "not ") + short(alg.atom(a), 80) for a, b in path[:6])

    def add(self, scn, name, status, detail="", loc=None, sizes="all sizes"):
        self.obs.append(Ob(scn, name, status, detail, loc, sizes))

    def require(self, *quals):
        """anchors: dotted names that must exist in the package"""
        I = Interp(self.program)
        for q in quals:
            try:
                I.get(q if q.startswith(Q) else Q + q)
            except Exception as ex:          # noqa
                self.anchors_missing.append(f"{q}: {ex}")

    def client(self, name, src):
        """a client program, analysed together with the package"""
        import ast
        self.program.mods[Q + name] = (f"<{name}>", ast.parse(src), False)

    def mentions(self, *names):
        """does any attribute or name of the package's syntax trees have one of these names?"""
        import ast
        return any(getattr(x, "attr", None) in names or getattr(x, "id", None) in names
                   for _, tree, _ in self.program.own.values() for x in ast.walk(tree) if isinstance(x, (ast.Attribute, ast.Name)))

    def has(self, q):
        try:
            Interp(self.program).get(q if q.startswith(Q) else Q + q)
            return True
        except Exception:          # noqa
            return False

    # -- result
    def finish(self, level, rule, level_other=None):
        self.after_other(30 if self.tier == "quick" else 1500)
        known = load_known(self.prop)
        viol, kn = [], []
        for o in self.obs:
            if o.status == "violated":
                key = f"{o.scn}/{o.name}"
                if key in known:
                    kn.append((o, known[key]))
                else:
                    viol.append(o)
        cnt = {k: sum(o.status == k for o in self.obs) for k in ORDER}
        cov = {
            "explanation": rule,
            "rule": rule,
            "obligations": len(self.obs),
            "discharged": cnt["proved"] + cnt["held"],
            "discharged_by_normal_form": cnt["proved"],
            "discharged_by_random_interpretation_or_fixed_sizes": cnt["held"],
            "undecided": cnt["undecided"],
            "violated": cnt["violated"],
            "scenarios": self.scenarios,
            "partitions_analysed": self.partitions,
            "functions_analysed": len(self.functions),
            "functions": sorted({f"{p}:{n}" for p, n, _ in self.functions if not p.startswith("<")}),
            "undecided_obligations": [f"{o.scn}/{o.name}: {o.detail}"[:300] for o in self.obs if o.status == "undecided"][:40],
            "samples": [f"{o.scn}/{o.name}: {o.status} ({o.sizes}) {o.detail}"[:300] for o in self.obs[:: max(1, len(self.obs) // 12)]][:14],
            "checker_cmd": f"python3 /verif/check.py {self.prop} --tier {self.tier}",
            "trusted_base": "the dataflow analyser in /verif/qsa (transfer functions for numpy/scipy/sympy/pandas/pyscf calls, term normal form), the specification terms in /verif/qsa/checks",
        }
        if self.nohistory:
            cov["scenarios_without_other_data_variant"] = self.nohistory
        cov.update(self.extra)
        if self.unmodelled:
            cov["unmodelled_calls"] = sorted(self.unmodelled)[:40]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", f"{self.prop}.violations.txt")
        if os.path.exists(rp):
            os.remove(rp)
        if self.anchors_missing:
            ev["coverage"]["anchors_missing"] = self.anchors_missing
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.prop}: {len(self.obs)} obligations, {cnt['proved']} proved, {cnt['held']} held, {cnt['undecided']} undecided, {cnt['violated']} violated; "
              f"{len(self.functions)} functions, {self.partitions} partitions, {ev['wall_s']} s")
        for o, txt in kn:
            print(f"KNOWN-FINDING: property={self.prop} {txt}")
        if os.environ.get("QSA_DEBUG"):
            for o in self.obs:
                if o.status != "proved" or os.environ["QSA_DEBUG"] == "2":
                    print("  ", o.status, o.scn, "/", o.name, "|", o.detail[:400], "|", floc(o.loc), "|", o.sizes)
        if viol:
            lines = []
            for o in viol:
                lines.append(f"{o.scn} / {o.name}\n  at {floc(o.loc)}\n  {o.detail}\n  ({o.sizes})\n")
            with open(rp, "w") as f:
                f.write(f"property {self.prop}: {len(viol)} violated obligation(s)\nrule: {rule}\nreproduce: cd /verif && python3 check.py {self.prop}\n\n" + "\n".join(lines))
            for ln in lines[:12]:
                print(ln)
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        if self.anchors_missing:
            print("ANALYSIS BROKEN: anchors not found: " + "; ".join(self.anchors_missing))
            return 2
        if not self.obs or cnt["proved"] + cnt["held"] == 0:
            print("ANALYSIS BROKEN: no obligation could be decided")
            return 2
        return 0


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith(f"known: property={prop} key="):
                rest = ln.strip().split(" key=", 1)[1]
                key, _, txt = rest.partition(" ")
                out[key.replace("%20", " ")] = txt
    return out
