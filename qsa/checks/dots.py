"""Quantum dots in one and two dimensions, sinc-DVR, potentials."""
from . import check
from .core import *
from .systems import *
from ..alg import conj, fn, bgate, power, Lam
from ..frames import Frame

OD = "quantum_dots.one_dim.one_dim_qd."
PI = sym("pi")


def lam2(n, f):
    i, j = newidx(n), newidx(n)
    return Lam([n, n], [i, j], f(idx(i), idx(j)))


def gridx(L, G):
    return lambda i: -L + 2 * L * i * power(G - 1, F(-1))


def pot_value(S, name):
    """documented expression of each potential"""
    s = lambda n, lo=None: sym(n, lo=lo)
    gauss = lambda x: -s("pw") * fn("exp", (-(x - s("pc")) ** 2 * power(s("pd", 0), F(-2)) * F(1, 2),))
    return {
        "HOPotential": lambda x: F(1, 2) * s("om") ** 2 * x ** 2,
        "DWPotential": lambda x: F(1, 2) * s("om") ** 2 * (x ** 2 + F(1, 4) * s("pl") ** 2 - s("pl") * fn("abs", (x,))),
        "DWPotentialSmooth": lambda x: F(1, 2) * power(s("pa", 0), F(-2)) * (x + F(1, 2) * s("pa", 0)) ** 2 * (x - F(1, 2) * s("pa", 0)) ** 2,
        "SymmetricDWPotential": lambda x: s("pa") * x ** 6 + s("pb") * x ** 4 + s("pc") * x ** 2,
        "AsymmetricDWPotential": lambda x: s("pa") * x ** 4 + s("pb") * x ** 3 + s("pc") * x ** 2,
        "GaussianPotential": gauss,
        "GaussianPotentialHardWall": lambda x: gauss(x) + 100000 * alg.gt0(fn("abs", (x,)) - s("px", 0)),
        "AtomicPotential": lambda x: -s("pz") * power(x ** 2 + s("pc", 0), F(-1, 2)),
    }[name]


@check("C15", "dataflow terms of grid, h, s, spf, u and dipole moment extracted from the constructors of the one-dimensional dots equal the documented grid formulas, for every "
              "length, number of points, potential and screening/strength parameters")
def c15(K):
    K.require("ODQD", "quantum_dots.one_dim.one_dim_qd.ODHO")

    def common(S, b, L, G, al, a):
        S.eq("grid spans [-L, L] uniformly", S.get(b, "grid"), (G,), gridx(L, G), obj=b, attr="grid")
        S.eqs("l", S.get(b, "l"), S.l)
        S.eq("unit overlap", S.get(b, "s"), (S.l, S.l), lambda p, q: eq0(p - q), obj=b, attr="s")
        en = S.get(b, "eigen_energies")
        e = S.el(S.asarr(en))
        S.eq("h is diagonal with the single-particle energies", S.get(b, "h"), (S.l, S.l), lambda p, q: eq0(p - q) * e(p), obj=b, attr="h")
        x = gridx(L, G)
        dx = 2 * L * power(G - 1, F(-1))
        f = S.el(S.get(b, "spf"))
        w = lambda y, z: al * power((y - z) ** 2 + a ** 2, F(-1, 2))

        def trap(g):
            return dx * F(1, 2) * S.sum((G - 1,), lambda i: g(i) + g(i + 1))

        def u(p, q, r, s):
            inner = lambda i: trap(lambda j: conj(f(q, j)) * w(x(i), x(j)) * f(s, j))
            return trap(lambda i: conj(f(p, i)) * inner(i) * f(r, i))
        S.eq("u is the double trapezoidal integral with the shielded Coulomb kernel", S.get(b, "u"), (S.l,) * 4, u, obj=b, attr="u")
        return x, f, trap

    def par(S):
        return sym("L", lo=0), sym("alpha"), sym("a"), sym("beta")

    def args(S):
        return dict(a=S.par("a"), alpha=S.par("alpha"), beta=S.par("beta"))

    def odqd(pot):
        def go(S):
            S.assume(ge0(S.G - 2 - S.l))
            L, al, a, be = par(S)
            G = S.G
            kw = args(S)
            if pot:
                kw["potential"] = potentials(S)[pot]()
                V = pot_value(S, pot)
            else:
                V = lambda x: x ** 2 * F(1, 32)
            b = S.new("ODQD", S.l, S.par("L", lo=0), S.G, **kw)
            x, f, trap = common(S, b, L, G, al, a)
            dx = 2 * L * power(G - 1, F(-1))
            H = lam2(G - 2, lambda i, j: eq0(i - j) * (dx ** -2 + V(x(i + 1))) - F(1, 2) * dx ** -2 * (eq0(i - j - 1) + eq0(j - i - 1)))
            S.eq("energies are the lowest eigenvalues of the finite-difference Hamiltonian", S.get(b, "eigen_energies"), (S.l,), lambda p: fn("eigh_w", (H, p)), obj=b, attr="eigen_energies")
            fv = "eigh_v:real"
            inside = lambda k: alg.gt0(k) * alg.gt0(G - 1 - k)
            S.eq("orbitals are the eigenvectors normalised on the grid", S.get(b, "spf"), (S.l, G),
                 lambda p, k: inside(k) * fn(fv, (H, k - 1, p)) * power(dx, F(-1, 2)), obj=b, attr="spf")
            S.eq("dipole elements are the trapezoidal integral of x + beta x^2", S.get(b, "dipole_moment"), (P(1), S.l, S.l),
                 lambda k, p, q: trap(lambda i: conj(f(p, i)) * (x(i) + be * x(i) ** 2) * f(q, i)), obj=b, attr="dipole_moment")
        return go
    K.run("ODQD[default potential]", odqd(None))
    for pot in ("HOPotential", "DWPotential", "DWPotentialSmooth", "SymmetricDWPotential", "AsymmetricDWPotential", "GaussianPotential", "GaussianPotentialHardWall", "AtomicPotential"):
        K.run(f"ODQD[{pot}]", odqd(pot))

    def odho(S):
        L, al, a, be = par(S)
        G, om = S.G, sym("omega", lo=0)
        b = S.new(OD + "ODHO", S.l, S.par("L", lo=0), S.G, omega=S.par("omega", 0), **args(S))
        x, f, trap = common(S, b, L, G, al, a)
        S.eq("energies omega (n + 1/2)", S.get(b, "eigen_energies"), (S.l,), lambda p: om * (p + F(1, 2)), obj=b, attr="eigen_energies")
        nrm = lambda n: power(power(P(2), n) * fn("factorial", (n,)), F(-1, 2)) * power(om * power(PI, F(-1)), F(1, 4))
        S.eq("orbitals are the analytic oscillator functions", S.get(b, "spf"), (S.l, G),
             lambda p, k: nrm(p) * fn("exp", (-om * x(k) ** 2 * F(1, 2),)) * fn("hermite", (p, power(om, F(1, 2)) * x(k))), obj=b, attr="spf")
        S.eq("dipole elements are the oscillator position elements", S.get(b, "dipole_moment"), (P(1), S.l, S.l),
             lambda k, p, q: eq0(q - p - 1) * power((p + 1) * power(2 * om, F(-1)), F(1, 2)) + eq0(p - q - 1) * power((q + 1) * power(2 * om, F(-1)), F(1, 2)),
             obj=b, attr="dipole_moment")
    K.run("ODHO", odho)

    def defaults(S):
        S.assume(ge0(S.G - 2 - S.l))
        b = S.new("ODQD", S.l, S.par("L", lo=0), S.G)
        for nm, v in (("a", F(1, 4)), ("alpha", F(1)), ("beta", F(0))):
            S.eqs("default " + nm, S.get(b, nm), v)
        b = S.new(OD + "ODHO", S.l, S.par("L", lo=0), S.G)
        for nm, v in (("a", F(1, 4)), ("alpha", F(1)), ("beta", F(0)), ("omega", F(1, 4))):
            S.eqs("ODHO default " + nm, S.get(b, nm), v)
    K.run("defaults", defaults)


TD = "quantum_dots.two_dim.two_dim_ho."
TH = Q + "quantum_dots.two_dim.two_dim_helper."


def half(x):
    return power(x, F(1, 2))


def qn(p):
    return fn("qn_n", (p,)), fn("qn_m", (p,))


class TwoDim:
    """reference terms of the two-dimensional oscillator of mass M and frequency om, with quantum numbers nm(p)"""

    def __init__(self, S, M, om, nm):
        self.S, self.M, self.om, self.nm = S, M, om, nm
        self.a = half(M * om)

    def norm(self, p):
        n, m = self.nm(p)
        am = fn("abs", (m,))
        return self.a * half(fn("factorial", (n,)) * power(PI * fn("factorial", (n + am,)), F(-1)))

    def radial(self, p, r):
        n, m = self.nm(p)
        am = fn("abs", (m,))
        return power(self.a * r, am) * fn("laguerre", (n, am, self.a ** 2 * r ** 2)) * fn("exp", (-self.a ** 2 * r ** 2 * F(1, 2),))

    def spf(self, p, r, t):
        n, m = self.nm(p)
        return self.norm(p) * fn("exp", (const_i() * m * t,)) * self.radial(p, r)

    def rint(self, p, q, order=1):
        """radial matrix element of r**order: the transfer function of sympy.integrate on the reference integrand"""
        r = self.S.I.call(Ext("sympy", "Symbol"), ["r"], {})
        x = self.S.I.poly(r)
        body = x * x ** order * self.radial(p, x) * self.radial(q, x)
        oo = self.S.I.getattr(Ext("sympy"), "oo")
        return self.S.I.poly(self.S.I.call(Ext("sympy", "integrate"), [Sc(body, "f"), (r, 0, oo)], {}))

    def dipole(self, k, p, q):
        d = self.nm(p)[1] - self.nm(q)[1]
        one = eq0(d - 1) + eq0(d + 1)
        base = self.norm(p) * self.norm(q) * self.rint(p, q) * one * PI
        return base * (eq0(k) - const_i() * d * eq0(k - 1))


def const_i():
    return Poly((alg.Term(alg.Q(0, 1), (), ()),))


def shell(nm, p):
    n, m = nm(p)
    return 2 * n + fn("abs", (m,)) + 1


@check("C16", "dataflow terms of h, u, s, spf and dipole moment extracted from the constructors of the two-dimensional dots equal the scaled reference terms, for every frequency, "
              "mass, barrier strength, axis and magnetic frequency")
def c16(K):
    K.require("TwoDimensionalHarmonicOscillator", "TwoDimensionalDoubleWell", "TwoDimHarmonicOscB")

    def common(S, b, R, x):
        l, G = S.l, S.G
        if not stubbed(S, *(["get_indices_nm", "get_coulomb_elements"] if x.nm is qn else ["construct_dataframe"])):
            raise Undecided("orbital numbering is not obtained through the expected functions")
        S.eqs("l", S.get(b, "l"), l)
        S.eq("unit overlap", S.get(b, "s"), (l, l), lambda p, q: eq0(p - q), obj=b, attr="s")
        S.eq("radial grid", S.get(b, "radius"), (G,), lambda i: R * i * power(G - 1, F(-1)))
        S.eq("angular grid", S.get(b, "theta"), (G,), lambda i: 2 * PI * i * power(G - 1, F(-1)))
        rr, tt = S.el(S.get(b, "R")), S.el(S.get(b, "T"))
        S.eq("grid points R", S.get(b, "R"), (G, G), lambda i, j: R * j * power(G - 1, F(-1)))
        S.eq("grid points T", S.get(b, "T"), (G, G), lambda i, j: 2 * PI * i * power(G - 1, F(-1)))
        S.eq("orbitals of that mass and frequency", S.get(b, "spf"), (l, G, G), lambda p, i, j: x.spf(p, rr(i, j), tt(i, j)), obj=b, attr="spf")
        S.eq("dipole elements of that mass and frequency", S.get(b, "dipole_moment"), (P(2), l, l), x.dipole, obj=b, attr="dipole_moment")

    def args(S):
        return (S.l, S.par("Rmax", lo=0), S.G), dict(omega=S.par("omega", 0), mass=S.par("mass", 0))

    om, M = sym("omega", lo=0), sym("mass", lo=0)

    def ho(S):
        two_dim_stubs(S)
        a, kw = args(S)
        b = S.new("TwoDimensionalHarmonicOscillator", *a, **kw)
        x = TwoDim(S, M, om, qn)
        common(S, b, sym("Rmax", lo=0), x)
        S.eq("h = omega * shell energy", S.get(b, "h"), (S.l, S.l), lambda p, q: eq0(p - q) * om * shell(qn, p), obj=b, attr="h")
        S.eq("u = sqrt(omega) * Coulomb elements", S.get(b, "u"), (S.l,) * 4, lambda *ix: half(om) * el("coulomb", ix), obj=b, attr="u")
    K.run("TwoDimensionalHarmonicOscillator", ho)

    def ho_default(S):
        two_dim_stubs(S)
        b = S.new("TwoDimensionalHarmonicOscillator", S.l, S.par("Rmax", lo=0), S.G)
        x = TwoDim(S, P(1), P(1), qn)
        common(S, b, sym("Rmax", lo=0), x)
        S.eq("h", S.get(b, "h"), (S.l, S.l), lambda p, q: eq0(p - q) * shell(qn, p), obj=b, attr="h")
        S.eq("u", S.get(b, "u"), (S.l,) * 4, lambda *ix: el("coulomb", ix), obj=b, attr="u")
    K.run("TwoDimensionalHarmonicOscillator[default omega and mass]", ho_default)

    def dw(axis):
        def f(S):
            two_dim_stubs(S)
            a, kw = args(S)
            if axis is not None:
                kw["axis"] = axis
            bs = sym("barrier")
            b = S.new("TwoDimensionalDoubleWell", *a, barrier_strength=S.par("barrier"), **kw)
            x = TwoDim(S, M, om, qn)
            common(S, b, sym("Rmax", lo=0), x)

            def h(p, q):
                d = qn(p)[1] - qn(q)[1]
                even = POLY1 - alg.fmod(d, P(2))
                th = 4 * power(1 - d ** 2, F(-1)) * even
                if not axis:
                    th = th * (POLY1 - 2 * alg.fmod(alg.fdiv(d, P(2)), P(2)))
                return eq0(p - q) * (om * shell(qn, p) + om ** 2 * bs ** 2 * F(1, 8)) - F(1, 2) * om ** 2 * bs * x.norm(p) * x.norm(q) * x.rint(p, q) * th
            S.eq("h = oscillator + omega^2 b^2/8 - omega^2 b/2 |x_axis|", S.get(b, "h"), (S.l, S.l), h, obj=b, attr="h")
            S.eq("u = sqrt(omega) * Coulomb elements", S.get(b, "u"), (S.l,) * 4, lambda *ix: half(om) * el("coulomb", ix), obj=b, attr="u")
        return f
    K.run("TwoDimensionalDoubleWell[axis 0]", dw(0))
    K.run("TwoDimensionalDoubleWell[axis 1]", dw(1))
    K.run("TwoDimensionalDoubleWell[default axis]", dw(None))

    def bfield(S):
        bstubs(S)
        a, kw = args(S)
        wc = sym("omega_c")
        b = S.new("TwoDimHarmonicOscB", *a, omega_c=S.par("omega_c"), **kw)
        w = half(om ** 2 + wc ** 2 * F(1, 4))
        x = TwoDim(S, M, w, bqn)
        common(S, b, sym("Rmax", lo=0), x)
        S.eq("h = shell energy at the effective frequency - omega_c m / 2", S.get(b, "h"), (S.l, S.l),
             lambda p, q: eq0(p - q) * (w * shell(bqn, p) - wc * bqn(p)[1] * F(1, 2)), obj=b, attr="h")
        S.eq("u = sqrt(effective frequency) * Coulomb elements", S.get(b, "u"), (S.l,) * 4,
             lambda p, q, r, s: half(w) * coulomb_int(bqn(p) + bqn(q) + bqn(r) + bqn(s)), obj=b, attr="u")
    K.run("TwoDimHarmonicOscB", bfield)

    def table(S, NS=(0, 1), MS=(-2, -1, 0, 1)):
        """construct_dataframe: each row's energy belongs to its quantum numbers, rows are sorted by energy"""
        I = S.I
        w, wc = sym("w", lo=0), sym("wc")
        ns, ms = I.newlist(list(NS)), I.newlist(list(MS))
        df = I.call(I.get(TH + "construct_dataframe"), [ns, ms], {"omega_c": Sc(wc, "f"), "omega": Sc(w, "f")})
        if not isinstance(df, Frame):
            S.unknown("table of states", f"{df!r}")
            return
        seen = {}
        for i, r in df.rows.items():
            n, m = I.poly(r["n"]).as_int(), I.poly(r["m"]).as_int()
            seen[n, m] = seen.get((n, m), 0) + 1
            S.eqs(f"energy of state n={n} m={m}", r["E"], w * (2 * n + abs(m) + 1) - wc * m * F(1, 2))
        S.true("each state occurs once", seen == {(n, m): 1 for n in NS for m in MS}, f"{seen}", anchor(S, TH[len(Q):] + "construct_dataframe"))
        S.true("rows are in order of increasing energy", df.order is not None and df.order[0] == ("E", True), f"sort order {df.order}", anchor(S, TH[len(Q):] + "construct_dataframe"))
        S.true("rows are renumbered", df.reset, "row labels do not follow the order", anchor(S, TH[len(Q):] + "construct_dataframe"))
    K.run("construct_dataframe", table, symbolic=True)
    K.run("construct_dataframe, high states", lambda S: table(S, (9, 33), (-45, 0, 18)), symbolic=True)

    def cand(L):
        def f(S):
            got = {}
            bstubs(S, got)
            try:
                S.new("TwoDimHarmonicOscB", P(L), S.par("Rmax", lo=0), P(2), omega=S.par("omega", 0), omega_c=S.par("omega_c"))
            except Captured:
                pass
            I = S.I
            if "n_array" not in got:
                S.unknown("candidate states", "table of states not built by construct_dataframe")
                return
            ns = {I.poly(x).as_int() for x in concrete_items(I, got["n_array"])}
            ms = {I.poly(x).as_int() for x in concrete_items(I, got["m_array"])}
            if None in ns or None in ms:
                S.unknown("candidate states", "ranges not constant")
                return
            # zero field: the first L states in shell order; very strong field either way: n = 0 and m = 0..L-1
            need = sorted((2 * n + abs(m), n, m) for n in range(L + 1) for m in range(-L, L + 1))[:L]
            top = need[-1][0]
            need = {(n, m) for e, n, m in need if e < top} | {(0, m) for m in range(-(L - 1), L)}
            miss = sorted((n, m) for n, m in need if n not in ns or m not in ms)
            S.true(f"the {L} lowest states are among the candidates", not miss, f"missing (n, m) = {miss}", anchor(S, TD + "TwoDimHarmonicOscB.setup_basis"))
        return f
    for L in (1, 2, 3, 7, 24):
        K.run(f"TwoDimHarmonicOscB candidates l={L}", cand(L), concrete=())


def stubbed(S, *names):
    """were the functions replaced by reference tables actually reached?"""
    return all(any(q.endswith("." + n) or q.endswith("._" + n) for q in S.I.hits) for n in names)


class Captured(Exception):
    """the arguments of interest have been seen"""


def concrete_items(I, v):
    it = I.iterate(v)
    if it.items is not None:
        return it.items
    n = it.length.as_int()
    if n is None:
        I.undec("symbolic range")
    return [it.fn(P(k)) for k in range(n)]


def bqn(p):
    return fn("bq_n", (p,)), fn("bq_m", (p,))


def bstubs(S, got=None):
    """the table of states of the magnetic-field basis as an uninterpreted numbering with its energies"""
    I = S.I
    alg.FN_INT.update(("bq_n", "bq_m"))
    alg.FN_SIGNED.add("bq_m")
    alg.FN_REAL.update(("bq_n", "bq_m", "coulomb_ho"))

    def table(I_, bound):
        if got is not None:
            got.update(bound)
            raise Captured()
        w, wc = I_.poly(bound["omega"]), I_.poly(bound["omega_c"])
        fns = {
            "n": lambda p: I_.norm(Sc(bqn(p)[0], "i")),
            "m": lambda p: I_.norm(Sc(bqn(p)[1], "i")),
            "E": lambda p: Sc(w * shell(bqn, p) - wc * bqn(p)[1] * F(1, 2), "f"),
        }
        for c in ("level", "degeneracy"):
            fns[c] = lambda p, c=c: Sc(fn("bq_" + c, (p,)), "i")
        return Frame(fns=fns, order=(("E", True), ("m", True)))

    def coul(I_, bound):
        vs = [I_.poly(x) for x in bound.values()]
        return Sc(coulomb_int(vs), "f")
    I.intercepts[TH + "construct_dataframe"] = table
    I.intercepts[Q + "quantum_dots.two_dim.coulomb_elements.coulomb_ho"] = coul


def op4(S, u):
    """the four-index operator described by held elements, whichever representation they are in"""
    f = S.el(u)
    return u4(f) if len(u.shape) == 2 else f


@check("C17", "value-flow of compact (2d) and full (4d) Coulomb elements through construction, switching, spin doubling, antisymmetrisation, basis changes and system construction: "
              "the four-index operator described by the held elements is the same term in both representations")
def c17(K):
    K.require("ODSincDVR", "ODSincDVR.set_u_repr")

    def start(S, repr_):
        """sinc-DVR basis holding the operator of arbitrary compact elements U"""
        b = S.new("ODSincDVR", S.l, S.par("L", lo=0), u_repr=repr_)
        U = S.arr("U", (S.l, S.l), "c")
        uf = S.el(U)
        if repr_ == "2d":
            S.set(b, "u", U)
        else:
            S.set(b, "u", S.I.mk((S.l,) * 4, lambda ix: u4(uf)(*ix), "c"))
        return b, uf

    def same(S, name, b, l, want, four=None, obj=None):
        u = S.get(b, "u")
        if not isinstance(u, Arr):
            return S.unknown(name, f"{u!r}")
        if four is not None:
            S.true(name + ": number of axes", len(u.shape) == (4 if four else 2), f"{len(u.shape)} axes", S.wloc(u, obj or b, "u"))
        for k, d in enumerate(u.shape):
            S.eqs(f"{name}: length of axis {k}", S.sc(d), l)
        vs = [newidx(P(l)) for _ in range(4)]
        ix = [idx(v) for v in vs]
        got = op4(S, u)(*ix)
        w = want(*ix)
        if S.I.simp(got) != S.I.simp(w) and S.splits(got, w, vs, [P(l)] * 4):
            return S.ob(name, "proved", "by case split")
        st, d = S.decide(got, w)
        return S.ob(name, st, d if st != "violated" else f"element {short(got)} expected {short(w)}: {d}", S.wloc(u, obj or b, "u"))

    for repr_ in ("2d", "4d"):
        def build(S):
            a, al, L = sym("a"), sym("alpha"), sym("L", lo=0)
            b = S.new("ODSincDVR", S.l, S.par("L", lo=0), a=S.par("a"), alpha=S.par("alpha"), u_repr=repr_)
            x = gridx(L, S.l)
            same(S, "constructed operator", b, S.l, u4(lambda p, q: al * power((x(p) - x(q)) ** 2 + a ** 2, F(-1, 2))), repr_ == "4d")
            S.true("reported representation", S.get(b, "u_repr") == repr_, f"{S.get(b, 'u_repr')!r}")
            S.true("reported sparsity", S.get(b, "sparse_repr") is (repr_ == "2d"), f"{S.get(b, 'sparse_repr')!r}")
        K.run(f"constructor[{repr_}]", build)

        def switch(S):
            b, uf = start(S, repr_)
            for new in ("4d", "2d", "2d", "4d", "4d"):
                S.call(b, "set_u_repr", new)
                same(S, f"operator after switching to {new}", b, S.l, u4(uf), new == "4d")
                S.true(f"reports {new}", S.get(b, "u_repr") == new, f"{S.get(b, 'u_repr')!r}")
        K.run(f"switching[{repr_}]", switch)

        for asym in (False, True):
            def dbl(S):
                b, uf = start(S, repr_)
                S.call(b, "change_to_general_orbital_basis", anti_symmetrize=asym)
                w = doubled("u", u4(uf))
                same(S, "operator after spin doubling", b, 2 * S.l, anti(w) if asym else w, True if asym else None)
                S.eqs("marked as antisymmetrised", S.get(b, "anti_symmetrized_u"), P(int(asym)))
                S.eqs("l", S.get(b, "l"), 2 * S.l)
            K.run(f"spin doubling[{repr_},anti_symmetrize={asym}]", dbl)

            def gos(S):
                b, uf = start(S, repr_)
                S.assume(ge0(2 * S.l - S.n))
                s = S.new("GeneralOrbitalSystem", S.n, b, anti_symmetrize=asym)
                w = doubled("u", u4(uf))
                same(S, "elements of the general-orbital system", s, 2 * S.l, anti(w) if asym else w, True if asym else None, b)
            K.run(f"GeneralOrbitalSystem[{repr_},anti_symmetrize={asym}]", gos)

            def closed(S):
                b, uf = start(S, repr_)
                S.assume(ge0(S.l - S.n))
                s = S.new("SpatialOrbitalSystem", 2 * S.n, b)
                g = S.call(s, "construct_general_orbital_system", anti_symmetrize=asym)
                w = doubled("u", u4(uf))
                same(S, "elements of the general-orbital system", g, 2 * S.l, anti(w) if asym else w, True if asym else None)
                same(S, "elements of the closed-shell system", s, S.l, u4(uf), repr_ == "4d")
            K.run(f"closed shell to general[{repr_},anti_symmetrize={asym}]", closed)

        for given in (False, True):
            def chg(S):
                b, uf = start(S, repr_)
                B = Basis(S, given)
                S.call(b, "change_basis", B.C, **B.kw())
                same(S, "operator after a basis change", b, B.lp, B.two(u4(uf)), True)
            K.run(f"basis change[{repr_},C_tilde {'given' if given else 'omitted'}]", chg)

            def tr(S):
                b, uf = start(S, repr_)
                B = Basis(S, given)
                u = S.call(b, "transform_two_body_elements", S.get(b, "u"), B.C, NP, **B.kw())
                S.eq("transformed elements", u, (B.lp,) * 4, B.two(u4(uf)))
                same(S, "stored operator", b, S.l, u4(uf), repr_ == "4d")
            K.run(f"transform_two_body_elements[{repr_},C_tilde {'given' if given else 'omitted'}]", tr)

        def seq1(S):
            b, uf = start(S, repr_)
            S.call(b, "change_to_general_orbital_basis", anti_symmetrize=False)
            w = doubled("u", u4(uf))
            for new in ("4d", "2d", "4d"):
                S.call(b, "set_u_repr", new)
                same(S, f"operator after spin doubling and switching to {new}", b, 2 * S.l, w, new == "4d")
        K.run(f"spin doubling, then switching[{repr_}]", seq1)

        def seq2(S):
            b, uf = start(S, repr_)
            S.call(b, "change_to_general_orbital_basis", anti_symmetrize=False)
            B = Basis(S, True, l=2 * S.l)
            S.call(b, "change_basis", B.C, **B.kw())
            same(S, "operator after spin doubling and basis change", b, B.lp, B.two(doubled("u", u4(uf))), True)
        K.run(f"spin doubling, then basis change[{repr_}]", seq2)

        def seq3(S):
            b, uf = start(S, repr_)
            S.call(b, "change_to_general_orbital_basis", anti_symmetrize=False)
            S.call(b, "anti_symmetrize_two_body_elements")
            same(S, "operator after spin doubling and antisymmetrisation", b, 2 * S.l, anti(doubled("u", u4(uf))), True)
        K.run(f"spin doubling, then antisymmetrisation[{repr_}]", seq3)

        def seq4(S):
            b, uf = start(S, repr_)
            B = Basis(S, True)
            S.call(b, "change_basis", B.C, **B.kw())
            S.call(b, "change_to_general_orbital_basis", anti_symmetrize=False)
            same(S, "operator after basis change and spin doubling", b, 2 * B.lp, doubled("u", B.two(u4(uf))), True)
        K.run(f"basis change, then spin doubling[{repr_}]", seq4)

        def helper(S):
            b, uf = start(S, repr_)
            u = S.call(b, "add_spin_two_body", S.get(b, "u"), NP)
            f = op4(S, u)
            vs = [newidx(2 * S.l) for _ in range(4)]
            ix = [idx(v) for v in vs]
            got, w = f(*ix), doubled("u", u4(uf))(*ix)
            st, d = ("proved", "") if S.splits(got, w, vs, [2 * S.l] * 4) else S.decide(got, w)
            S.ob("add_spin_two_body", st, d, anchor(S, "ODSincDVR.add_spin_two_body"))
        K.run(f"spin doubling helper[{repr_}]", helper)

    def bad_args(make, label):
        def f(S):
            make(S)
            S.true("unknown representation is rejected", False, "accepted", anchor(S, "ODSincDVR.set_u_repr"))
        K.run(label, f, raises_ok=lambda S, r: r.exc == "ValueError")
    bad_args(lambda S: S.new("ODSincDVR", S.l, S.par("L", lo=0), u_repr="3d"), "constructor[unknown representation]")
    bad_args(lambda S: S.call(start(S, "2d")[0], "set_u_repr", "3d"), "set_u_repr[unknown representation]")

    def dflt(S):
        b = S.new("ODSincDVR", S.l, S.par("L", lo=0))
        S.true("default representation is compact", S.get(b, "u_repr") == "2d", f"{S.get(b, 'u_repr')!r}")
    K.run("default representation", dflt)


@check("C29", "dataflow terms of grid, h, s, spf, u and dipole moment extracted from the sinc-DVR constructor equal the documented sinc-DVR formulas for every length, "
              "number of functions, potential and parameters")
def c29(K):
    K.require("ODSincDVR")

    def dvr(pot, repr_):
        def f(S):
            l, L = S.l, sym("L", lo=0)
            kw = dict(a=S.par("a"), alpha=S.par("alpha"), beta=S.par("beta"), u_repr=repr_)
            V = lambda x: x ** 2 * F(1, 32)
            if pot:
                kw["potential"] = potentials(S)[pot]()
                V = pot_value(S, pot)
            b = S.new("ODSincDVR", l, S.par("L", lo=0), **kw)
            x = gridx(L, l)
            dx = 2 * L * power(l - 1, F(-1))
            S.eq("grid spans [-L, L] uniformly", S.get(b, "grid"), (l,), x, obj=b, attr="grid")
            S.eqs("l", S.get(b, "l"), l)
            S.eq("unit overlap", S.get(b, "s"), (l, l), lambda p, q: eq0(p - q), obj=b, attr="s")

            def h(p, q):
                d = p - q
                off = (POLY1 - 2 * alg.fmod(d, P(2))) * power(dx, F(-2)) * power(d, F(-2))
                return eq0(d) * (PI ** 2 * F(1, 6) * power(dx, F(-2)) + V(x(p))) + (POLY1 - eq0(d)) * off
            S.eq("h is the sinc-DVR kinetic energy plus the potential on the grid", S.get(b, "h"), (l, l), h, obj=b, attr="h")
            S.eq("orbitals are the normalised sinc functions centred at the grid points", S.get(b, "spf"), (l, l),
                 lambda p, i: power(dx, F(-1, 2)) * fn("sinc", ((x(i) - x(p)) * power(dx, F(-1)),)), obj=b, attr="spf")
            S.eq("dipole elements are x + beta x^2 on the diagonal", S.get(b, "dipole_moment"), (P(1), l, l),
                 lambda k, p, q: eq0(p - q) * (x(p) + sym("beta") * x(p) ** 2), obj=b, attr="dipole_moment")
            u = S.get(b, "u")
            w = lambda p, q: sym("alpha") * power((x(p) - x(q)) ** 2 + sym("a") ** 2, F(-1, 2))
            S.eq("Coulomb elements", u, (l, l) if repr_ == "2d" else (l,) * 4, w if repr_ == "2d" else u4(w), obj=b, attr="u")
            for nm in ("h", "s", "u", "spf", "dipole_moment"):
                S.true(nm + " is complex", S.I.dt(S.get(b, nm)) == "c", f"element type {S.I.dt(S.get(b, nm))}")
        return f
    K.run("default potential, 2d", dvr(None, "2d"))
    K.run("default potential, 4d", dvr(None, "4d"))
    for pot in ("HOPotential", "DWPotential", "DWPotentialSmooth", "SymmetricDWPotential", "AsymmetricDWPotential", "GaussianPotential", "GaussianPotentialHardWall", "AtomicPotential"):
        K.run(pot, dvr(pot, "2d"))

    def dflt(S):
        b = S.new("ODSincDVR", S.l, S.par("L", lo=0))
        for nm, v in (("a", F(1, 4)), ("alpha", F(1)), ("beta", F(0))):
            S.eqs("default " + nm, S.get(b, nm), v)
    K.run("defaults", dflt)


# ------------------------------------------------------------------ differentiation of extracted terms
def D(p, s):
    """derivative of a term with respect to the symbol named s, away from the points where gates and |.| switch"""
    out = ZERO
    for t in p.terms:
        if t.bound:
            raise Undecided("derivative of a sum")
        for k, (a, e) in enumerate(t.fac):
            rest = Poly((alg.Term(t.coef, (), tuple(t.fac[:k] + t.fac[k + 1:])),))
            d = D_atom(a, s)
            ep = P(e) if not isinstance(e, Poly) else e
            base = alg.atom(a)
            if not d.iszero():
                out = out + rest * ep * power(base, ep - 1) * d
            if isinstance(e, Poly):
                de = D(e, s)
                if not de.iszero():
                    out = out + rest * power(base, e) * fn("log", (base,)) * de
    return out


def D_atom(a, s):
    k = a[0]
    if k == "sym":
        return POLY1 if a[1] == s else ZERO
    acc = set()
    alg.syms_atom(a, acc)
    if s not in acc or alg.is_gate(a):
        return ZERO
    if k == "P":
        return D(a[1], s)
    if k == "fn" and not a[3]:
        x = a[2][0]
        dx = D(x, s)
        f = a[1]
        if f == "exp":
            return fn("exp", (x,)) * dx
        if f == "log":
            return dx * power(x, F(-1))
        if f == "abs":
            return (2 * alg.gt0(x) - 1) * dx
        if f == "sin":
            return fn("cos", (x,)) * dx
        if f == "cos":
            return -fn("sin", (x,)) * dx
        if f == "sinh":
            return fn("cosh", (x,)) * dx
        if f == "cosh":
            return fn("sinh", (x,)) * dx
        if f == "tanh":
            return (1 - fn("tanh", (x,)) ** 2) * dx
        if f in ("sign", "heaviside", "floor", "ceil", "trunc", "round"):
            return ZERO
        if f == "arctan":
            return dx * power(1 + x ** 2, F(-1))
        if f in ("min", "max") and len(a[2]) == 2:
            y = a[2][1]
            g = alg.gt0(x - y)
            u, v = (dx, D(y, s)) if f == "max" else (D(y, s), dx)
            return g * u + (1 - g) * v
    raise Undecided(f"derivative of {a[:2]}")


@check("C18", "the value term of every potential is differentiated symbolically and compared with the term of its derivative method; value terms equal the documented expressions; "
              "no write reaches the argument or the potential")
def c18(K):
    K.require(POT + "HOPotential")
    names = ("HOPotential", "DWPotential", "DWPotentialSmooth", "SymmetricDWPotential", "AsymmetricDWPotential", "GaussianPotential", "GaussianPotentialHardWall", "AtomicPotential")

    def value(pot):
        def f(S):
            v = potentials(S)[pot]()
            x = S.arr("x", (S.G,), "f")
            xf = S.el(x)
            state = dict(S.I.S.objs[v.id])
            mark = len(S.I.S.writes)
            r = S.I.call(v, [x], {})
            V = pot_value(S, pot)
            S.eq("value is the documented expression", r, (S.G,), lambda i: V(xf(i)), loc=anchor(S, POT + pot + ".__call__"))
            S.true("argument is not written", not any(c == x.cell for c, *_ in S.I.S.writes[mark:]), "the argument array is written to", anchor(S, POT + pot + ".__call__"))
            S.eq("argument keeps its values", x, (S.G,), xf)
            S.true("result does not share memory with the argument", not (isinstance(r, Arr) and r.cell == x.cell), "the argument array is returned")
            r2 = S.I.call(v, [x], {})
            S.eq("a second evaluation gives the same value", r2, (S.G,), lambda i: V(xf(i)), loc=anchor(S, POT + pot + ".__call__"))
            for k, w in state.items():
                n = S.I.S.objs[v.id].get(k)
                S.true(f"parameter {k} unchanged", n is w or S.I.vkey(n) == S.I.vkey(w), f"{n!r}")
        return f

    def deriv(pot):
        def f(S):
            I = S.I
            v = potentials(S)[pot]()
            x = S.arr("x", (S.G,), "f")
            xf = S.el(x)
            mark = len(I.S.writes)
            r = S.call(v, "derivative", x)
            # value term at a generic scalar point, differentiated
            s = sym("xpt")
            pt = I.mk((P(1),), lambda ix: s, "f")
            val = I.at(I.call(v, [pt], {}), [ZERO])
            d = D(val, "xpt")
            S.eq("derivative is the derivative of the value", r, (S.G,), lambda i: subst(d, {}, {"xpt": xf(i)}), loc=anchor(S, POT + pot + ".derivative"))
            S.true("argument is not written", not any(c == x.cell for c, *_ in I.S.writes[mark:]), "the argument array is written to", anchor(S, POT + pot + ".derivative"))
            r = S.call(v, "derivative", Sc(s, "f"))
            S.eqs("derivative at a single point", r, d, anchor(S, POT + pot + ".derivative"))
        return f

    def none_ok(S, r):
        return r.exc == "NotImplementedError"
    for n in names:
        K.run(n + " value", value(n))
        K.run(n + " derivative", deriv(n), raises_ok=none_ok)

    def scalar(pot):
        def f(S):
            v = potentials(S)[pot]()
            s = sym("xpt")
            r = S.I.call(v, [Sc(s, "f")], {})
            S.eqs("value at a single point", r, pot_value(S, pot)(s), anchor(S, POT + pot + ".__call__"))
        return f
    for n in names:
        if n != "GaussianPotentialHardWall":
            K.run(n + " at a point", scalar(n))
