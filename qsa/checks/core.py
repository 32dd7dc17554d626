"""Transformations, spin doubling, antisymmetrisation, energies, Fock matrices, densities."""
from . import check
from ..world import *
from ..alg import conj, el, fn, power, fdiv, fmod

ALL = ("h", "s", "u", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb")
ONE = ("h", "s", "spin_x", "spin_y", "spin_z", "spin_2")
TWO = ("u", "spin_2_tb")


# ------------------------------------------------------------------ specification terms
class Basis:
    """coefficient matrices of a basis change: ket C (l, lp), bra Ct (lp, l)"""

    def __init__(self, S, given=True, dt="c", l=None, lp=None, tag=""):
        self.S = S
        self.l = S.l if l is None else l
        self.lp = S.lp if lp is None else lp
        self.C = S.arr("C" + tag, (self.l, self.lp), dt)
        self.Ct = S.arr("Ct" + tag, (self.lp, self.l), dt) if given else None
        self.c = elems(S.I, self.C)
        self.ct = elems(S.I, self.Ct) if given else (lambda p, a: conj(self.c(a, p)))

    def kw(self):
        return {"C_tilde": self.Ct} if self.Ct is not None else {}

    def one(self, x):
        return lambda p, q: self.S.sum((self.l, self.l), lambda a, b: self.ct(p, a) * x(a, b) * self.c(b, q))

    def two(self, x):
        return lambda p, q, r, s: self.S.sum((self.l,) * 4, lambda a, b, c, d: self.ct(p, a) * self.ct(q, b) * x(a, b, c, d) * self.c(c, r) * self.c(d, s))

    def dip(self, x):
        return lambda i, p, q: self.S.sum((self.l, self.l), lambda a, b: self.ct(p, a) * x(i, a, b) * self.c(b, q))

    def ket(self, x):
        return lambda p, *g: self.S.sum((self.l,), lambda a: self.c(a, p) * x(a, *g))

    def bra(self, x):
        return lambda p, *g: self.S.sum((self.l,), lambda a: self.ct(p, a) * x(a, *g))

    def of(self, nm, x):
        if nm in ONE:
            return self.one(x)
        if nm in TWO:
            return self.two(x)
        return {"dipole_moment": self.dip, "spf": self.ket, "bra_spf": self.bra}[nm](x)


def names_of(spin):
    return ALL if spin else ALL[:6]


def sizes_of(S, o, n, l, what=""):
    """o, v, m, n, l of a system"""
    S.eqs(what + "n", S.get(o, "n"), n)
    S.eqs(what + "l", S.get(o, "l"), l)
    S.eqs(what + "m", S.get(o, "m"), l - n)
    for nm, a, b in (("o", ZERO, n), ("v", n, l)):
        v = S.get(o, nm)
        if not isinstance(v, SliceV):
            S.true(what + nm, False, f"{nm} is {v!r}, not a slice")
            continue
        lo = v.a if v.a is not None else 0
        S.eqs(what + nm + ".start", lo, a)
        if v.b is None and b is l:
            S.true(what + nm + ".stop", True)
        else:
            S.eqs(what + nm + ".stop", v.b, b) if v.b is not None else S.true(what + nm + ".stop", False, "open slice")
        S.true(what + nm + ".step", v.c is None or (S.I.sc(v.c) is not None and S.I.sc(v.c).p == POLY1), "unit step")


# ------------------------------------------------------------------ receivers
def overriding(K, base="basis_set.BasisSet", names=None):
    """classes of the package that override something of BasisSet"""
    I = Interp(K.program)
    B = I.get(Q + base)
    out = []
    for m in sorted(K.program.mods):
        try:
            mod = I.module(m)
        except (Raised, Undecided):
            continue
        for nm, v in I.S.frames[mod.frame].items():
            if isinstance(v, Cls) and v.mod.name == m and B in v.mro and v is not B:
                ov = set()
                for c in v.mro[: v.mro.index(B)]:
                    ov |= {x for x in c.ns if x in B.ns and not x.startswith("__")}
                out.append((v, ov))
    return out


def sinc(S, repr_, leafu=True, dt="c"):
    """a sinc-DVR basis in the given representation with arbitrary elements"""
    b = S.new("ODSincDVR", S.l, S.par("L", lo=0), u_repr=repr_)
    l = S.l
    if leafu:
        S.set(b, "h", S.arr("h", (l, l), dt))
        S.set(b, "s", S.arr("s", (l, l), dt))
        S.set(b, "u", S.arr("u", (l,) * (2 if repr_ == "2d" else 4), dt))
        S.set(b, "dipole_moment", S.arr("dipole_moment", (P(1), l, l), dt))
        S.set(b, "spf", S.arr("spf", (l, l), dt))
    return b


def u4(x2):
    """four-index elements described by compact two-index ones"""
    return lambda p, q, r, s: eq0(p - r) * eq0(q - s) * x2(p, q)


def bare(S, cls, dim=1, spin=False, dt="c"):
    """an instance of a BasisSet subclass initialised by BasisSet only"""
    I = S.I
    B = I.get(Q + "basis_set.BasisSet")
    o = Obj(fresh(), cls)
    I.S.objs[o.id] = {}
    init, c = B.find("__init__")
    I.call(Bound(init, o), [S.v(S.l), dim], {"np": NP, **({"includes_spin": True} if spin else {})})
    sh = S.shapes(S.l, dim)
    for nm in names_of(spin):
        S.set(o, nm, S.arr(nm, sh[nm], dt))
    return o


def class_by_name(S, qual):
    return S.I.get(qual)


# ------------------------------------------------------------------ C01
RULE01 = ("for every basis set class and system: value-flow of change_basis; each stored quantity's term after the call equals the term of its old value "
          "contracted with C on ket and C_tilde on bra indices (index normal form equality for all sizes)")


@check("C01", RULE01)
def c01(K):
    K.require("basis_set.BasisSet.change_basis", "QuantumSystem", "GeneralOrbitalSystem", "SpatialOrbitalSystem")

    def after(S, b, B, snap, names, obj=None, prefix=""):
        sh = S.shapes(B.lp, B.dim)
        for nm in names:
            v = S.get(b, nm)
            if snap[nm] is None:
                S.none(prefix + nm, v)
            else:
                S.eq(prefix + nm, v, sh[nm], B.of(nm, snap[nm][0]), obj=obj or b, attr=nm)

    def direct(dim, spin, given, absent=(), dt="c", cdt="c"):
        def f(S):
            b = S.basis(dim, dt, spin, absent)
            B = Basis(S, given, cdt)
            B.dim = dim
            snap = S.snap(b, names_of(spin))
            S.call(b, "change_basis", B.C, **B.kw())
            S.eqs("l", S.get(b, "l"), B.lp)
            after(S, b, B, snap, names_of(spin))
            for nm in ("includes_spin", "anti_symmetrized_u"):
                S.eqs(nm, S.get(b, nm), P(1 if nm == "includes_spin" and spin else 0))
        return f
    n = 0
    for spin in (False, True):
        for given in (True, False):
            for dim in (1, 2):
                K.run(f"BasisSet.change_basis[spin={spin},C_tilde={'given' if given else 'default'},dim={dim}]", direct(dim, spin, given))
    for absent in (("s",), ("dipole_moment",), ("spf",), ("bra_spf",), ("s", "dipole_moment", "spf")):
        K.run(f"BasisSet.change_basis[without {','.join(absent)}]", direct(1, False, False, absent))
        K.run(f"BasisSet.change_basis[without {','.join(absent)},C_tilde given]", direct(1, False, True, absent))
    for absent in (("spin_x",), ("spin_2_tb",), ("spin_2", "spin_2_tb"), ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb")):
        K.run(f"BasisSet.change_basis[spin, without {','.join(absent)}]", direct(1, True, True, absent))
    K.run("BasisSet.change_basis[real elements, complex C]", direct(1, True, True, (), "f", "c"))
    K.run("BasisSet.change_basis[real]", direct(3, False, False, (), "f", "f"))
    for dt in "cfi":
        for cdt in "cf":
            for absent in ((), ("bra_spf",)):
                K.run(f"BasisSet.change_basis[elements {dt}, C {cdt}, C_tilde given, without {','.join(absent)}]", direct(1, False, True, absent, dt, cdt))
                K.run(f"BasisSet.change_basis[elements {dt}, C {cdt}, C_tilde default, without {','.join(absent)}]", direct(1, True, False, absent, dt, cdt))

    def twice(S):
        b = S.basis(1, "c", True)
        B1 = Basis(S, True, "c")
        snap = S.snap(b, ALL)
        S.call(b, "change_basis", B1.C, **B1.kw())
        B1.dim = 1
        mid = {nm: (B1.of(nm, snap[nm][0]),) for nm in ALL}
        l2 = sym("lq", integer=True, lo=1) if S.W.conc is None else P(2)
        B2 = Basis(S, False, "c", l=S.lp, lp=l2, tag="2")
        B2.dim = 1
        S.call(b, "change_basis", B2.C)
        for nm in ("h", "s", "spin_z", "spf", "bra_spf"):
            S.eq(nm, S.get(b, nm), S.shapes(l2, 1)[nm], B2.of(nm, mid[nm][0]), obj=b, attr=nm)
    K.run("two successive basis changes", twice)

    def system(kind, given, anti=False):
        def f(S):
            spin = kind == "GeneralOrbitalSystem"
            b = S.basis(1, "c", spin)
            nn = S.n
            S.assume(ge0(S.l - nn))
            S.assume(ge0(S.lp - nn))
            s = S.new(kind, nn if spin else 2 * nn, b, **({"anti_symmetrize": anti} if spin else {}))
            names = names_of(spin)
            snap = S.snap(s, names)
            B = Basis(S, given)
            B.dim = 1
            S.call(s, "change_basis", B.C, **B.kw())
            sizes_of(S, s, nn, B.lp)
            after(S, s, B, snap, names, b)
            S.eqs("basis l", S.get(b, "l"), B.lp)
        return f
    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        for given in (True, False):
            K.run(f"{kind}.change_basis[C_tilde={'given' if given else 'default'}]", system(kind, given))
    K.run("GeneralOrbitalSystem.change_basis[antisymmetrised]", system("GeneralOrbitalSystem", True, True))

    def dvr(repr_, given):
        def f(S):
            b = sinc(S, repr_)
            B = Basis(S, given)
            B.dim = 1
            names = ("h", "s", "dipole_moment", "spf", "bra_spf")
            snap = S.snap(b, names)
            u = S.el(S.get(b, "u"))
            S.call(b, "change_basis", B.C, **B.kw())
            sh = {**S.shapes(B.lp, 1), "spf": (B.lp, S.l), "bra_spf": (B.lp, S.l)}
            for nm in names:
                S.eq(nm, S.get(b, nm), sh[nm], B.of(nm, snap[nm][0]), obj=b, attr=nm)
            S.eq("u", S.get(b, "u"), sh["u"], B.two(u4(u) if repr_ == "2d" else u), obj=b, attr="u")
            S.eqs("l", S.get(b, "l"), B.lp)
        return f
    for repr_ in ("2d", "4d"):
        for given in (True, False):
            K.run(f"ODSincDVR({repr_}).change_basis[C_tilde={'given' if given else 'default'}]", dvr(repr_, given))
    special_receivers(K, "change_basis", lambda cls: lambda S: bare_change(S, cls))


def bare_change(S, qual):
    b = bare(S, class_by_name(S, qual), 1, False)
    B = Basis(S, True)
    B.dim = 1
    names = names_of(False)
    snap = S.snap(b, names)
    S.call(b, "change_basis", B.C, **B.kw())
    sh = S.shapes(B.lp, 1)
    for nm in names:
        S.eq(nm, S.get(b, nm), sh[nm], B.of(nm, snap[nm][0]), obj=b, attr=nm)


def special_receivers(K, label, mk):
    """other subclasses that override BasisSet behaviour, initialised as a plain BasisSet"""
    covered = []
    for cls, ov in overriding(K):
        if cls.name == "ODSincDVR":
            continue
        if not ov - {"setup_basis"}:
            covered.append(cls.name)
            continue
        q = cls.mod.name + "." + cls.name
        # a subclass may rely on attributes of its own constructor: only value differences count
        K.run(f"{cls.name}.{label}", mk(q), raises_ok=lambda S, r: r.exc in ("AttributeError",))
    K.extra["classes_covered_by_method_resolution"] = covered


# ------------------------------------------------------------------ C02
@check("C02", "value-flow of the transformation helpers on every receiver: the returned term equals the contraction of the argument's term; "
              "no write to any argument's or stored array's cell")
def c02(K):
    K.require("basis_set.BasisSet.transform_one_body_elements", "basis_set.BasisSet.transform_two_body_elements")

    def nowrites(S, mark, what="no array is written"):
        w = [x for x in S.I.S.writes[mark:] if x[1] is not None]
        S.true(what, not w, f"writes to {w[0][1]}" if w else "", w[0][2] if w else None)

    def helpers(given, cdt, dt, dim):
        def f(S):
            l = S.l
            sh = S.shapes(l, dim)
            B = Basis(S, given, cdt)
            x1, x2 = S.arr("X1", sh["h"], dt), S.arr("X2", sh["u"], dt)
            f1, f2 = S.arr("F", sh["spf"], dt), S.arr("Fb", sh["spf"], dt)
            e1, e2, k1, k2 = map(S.el, (x1, x2, f1, f2))
            b = S.basis(dim, "c")
            cls = S.I.get(Q + "basis_set.BasisSet")
            st = S.snap(b, ALL[:6])
            mark = len(S.I.S.writes)
            osh = S.shapes(B.lp, dim)
            for lab, o in (("static ", cls), ("", b)):
                S.eq(lab + "transform_one_body_elements", S.call(o, "transform_one_body_elements", x1, B.C, NP, **B.kw()), osh["h"], B.one(e1))
                S.eq(lab + "transform_two_body_elements", S.call(o, "transform_two_body_elements", x2, B.C, NP, **B.kw()), osh["u"], B.two(e2))
                S.eq(lab + "transform_spf", S.call(o, "transform_spf", f1, B.C, NP), osh["spf"], B.ket(k1))
                if given:
                    S.eq(lab + "transform_bra_spf", S.call(o, "transform_bra_spf", f2, B.Ct, NP), osh["spf"], B.bra(k2))
            if given:
                S.eq("transform_one_body_elements (positional C_tilde)", S.call(b, "transform_one_body_elements", x1, B.C, NP, B.Ct), osh["h"], B.one(e1))
                S.eq("transform_two_body_elements (positional C_tilde)", S.call(b, "transform_two_body_elements", x2, B.C, NP, B.Ct), osh["u"], B.two(e2))
            if not given:
                S.eq("get_transformed_h", S.call(b, "get_transformed_h", B.C), osh["h"], B.one(st["h"][0]))
                S.eq("get_transformed_u", S.call(b, "get_transformed_u", B.C), osh["u"], B.two(st["u"][0]))
            nowrites(S, mark)
            for nm in ALL[:6]:
                S.held_eq("stored " + nm, b, nm, st)
        return f
    for given in (True, False):
        K.run(f"BasisSet helpers[C_tilde={'given' if given else 'default'}]", helpers(given, "c", "c", 2))
        K.run(f"BasisSet helpers[C_tilde={'given' if given else 'default'},real C]", helpers(given, "f", "c", 1))
        for dt in "fi":
            for cdt in "cf":
                K.run(f"BasisSet helpers[C_tilde={'given' if given else 'default'},elements {dt}, C {cdt}]", helpers(given, cdt, dt, 3 if dt == "f" else 1))

    def system(kind, given):
        def f(S):
            spin = kind == "GeneralOrbitalSystem"
            b = S.basis(1, "c", spin)
            S.assume(ge0(S.l - S.n))
            s = S.new(kind, S.n if spin else 2 * S.n, b, **({"anti_symmetrize": False} if spin else {}))
            B = Basis(S, given)
            x1, x2 = S.arr("X1", (S.l,) * 2), S.arr("X2", (S.l,) * 4)
            e1, e2 = S.el(x1), S.el(x2)
            st = S.snap(s, names_of(spin))
            mark = len(S.I.S.writes)
            S.eq("transform_one_body_elements", S.call(s, "transform_one_body_elements", x1, B.C, **B.kw()), (B.lp,) * 2, B.one(e1))
            S.eq("transform_two_body_elements", S.call(s, "transform_two_body_elements", x2, B.C, **B.kw()), (B.lp,) * 4, B.two(e2))
            if given:
                S.eq("transform_one_body_elements (positional)", S.call(s, "transform_one_body_elements", x1, B.C, B.Ct), (B.lp,) * 2, B.one(e1))
                S.eq("transform_two_body_elements (positional)", S.call(s, "transform_two_body_elements", x2, B.C, B.Ct), (B.lp,) * 4, B.two(e2))
            nowrites(S, mark)
            for nm in names_of(spin):
                S.held_eq("stored " + nm, s, nm, st)
        return f
    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        for given in (True, False):
            K.run(f"{kind} helpers[C_tilde={'given' if given else 'default'}]", system(kind, given))

    def dvr(repr_, arg, given):
        def f(S):
            b = sinc(S, repr_)
            B = Basis(S, given)
            x1 = S.arr("X1", (S.l,) * 2)
            x2 = S.arr("X2", (S.l,) * (2 if arg == "2d" else 4))
            e1, e2 = S.el(x1), S.el(x2)
            st = S.snap(b, ("h", "u", "s", "spf"))
            mark = len(S.I.S.writes)
            S.eq("transform_one_body_elements", S.call(b, "transform_one_body_elements", x1, B.C, NP, **B.kw()), (B.lp,) * 2, B.one(e1))
            S.eq("transform_two_body_elements", S.call(b, "transform_two_body_elements", x2, B.C, NP, **B.kw()), (B.lp,) * 4, B.two(u4(e2) if arg == "2d" else e2))
            if arg == "2d":
                t = B.two(u4(e2))
                S.eq("transform_two_body_elements (antisymmetrised)", S.call(b, "transform_two_body_elements", x2, B.C, NP, anti_symmetrize=True, **B.kw()), (B.lp,) * 4,
                     lambda p, q, r, s_: t(p, q, r, s_) - t(p, q, s_, r))
            if given:
                S.eq("transform_two_body_elements (positional)", S.call(b, "transform_two_body_elements", x2, B.C, NP, B.Ct), (B.lp,) * 4, B.two(u4(e2) if arg == "2d" else e2))
            else:
                u = st["u"][0]
                S.eq("get_transformed_h", S.call(b, "get_transformed_h", B.C), (B.lp,) * 2, B.one(st["h"][0]))
                S.eq("get_transformed_u", S.call(b, "get_transformed_u", B.C), (B.lp,) * 4, B.two(u4(u) if repr_ == "2d" else u))
            nowrites(S, mark)
            for nm in ("h", "u", "s", "spf"):
                S.held_eq("stored " + nm, b, nm, st)
        return f
    for repr_ in ("2d", "4d"):
        for arg in ("2d", "4d"):
            for given in (True, False):
                K.run(f"ODSincDVR({repr_}) helpers on {arg} elements[C_tilde={'given' if given else 'default'}]", dvr(repr_, arg, given))


# ------------------------------------------------------------------ C03
def doubled(nm, x):
    h = lambda i: fdiv(i, P(2))
    t = lambda i: fmod(i, P(2))
    if nm in ("h", "s"):
        return lambda p, q: eq0(t(p) - t(q)) * x(h(p), h(q))
    if nm == "dipole_moment":
        return lambda i, p, q: eq0(t(p) - t(q)) * x(i, h(p), h(q))
    if nm == "u":
        return lambda p, q, r, s: eq0(t(p) - t(r)) * eq0(t(q) - t(s)) * x(h(p), h(q), h(r), h(s))
    return lambda p, *g: x(h(p), *g)


def anti(x):
    return lambda p, q, r, s: x(p, q, r, s) - x(p, q, s, r)


SPATIAL = ("h", "s", "u", "dipole_moment", "spf", "bra_spf")


@check("C03", "value-flow of the conversion to general orbitals: each spatial quantity's term after the call equals the spin-doubled term of its old value "
              "(split over orbital and spin parts of each index)")
def c03(K):
    K.require("basis_set.BasisSet.change_to_general_orbital_basis")

    def conv(dim, dt, absent, asym):
        def f(S):
            b = S.basis(dim, dt, False, absent)
            snap = S.snap(b, SPATIAL)
            r = S.call(b, "change_to_general_orbital_basis", anti_symmetrize=asym)
            S.isobj("returns the basis", r, b, f"returned {r!r}")
            l2 = 2 * S.l
            S.eqs("l", S.get(b, "l"), l2)
            S.eqs("includes_spin", S.get(b, "includes_spin"), P(1))
            sh = S.shapes(l2, dim)
            for nm in SPATIAL:
                v = S.get(b, nm)
                if snap[nm] is None:
                    S.none(nm, v)
                    continue
                want = doubled(nm, snap[nm][0])
                S.eq(nm, v, sh[nm], anti(want) if nm == "u" and asym else want, obj=b, attr=nm)
        return f
    for dim in (1, 2):
        for asym in (False, True):
            K.run(f"BasisSet to general orbitals[dim={dim},antisymmetrise={asym}]", conv(dim, "c", (), asym))
    K.run("BasisSet to general orbitals[dim=3]", conv(3, "c", (), False))
    K.run("BasisSet to general orbitals[real]", conv(1, "f", (), False))
    for absent in (("dipole_moment",), ("spf",), ("bra_spf",), ("dipole_moment", "spf")):
        K.run(f"BasisSet to general orbitals[without {','.join(absent)}]", conv(1, "c", absent, False))

    def already(via):
        def f(S):
            b = S.basis(1, "c", True)
            snap = S.snap(b, ALL)
            if via == "system":
                S.assume(ge0(S.l - S.n))
                S.new("GeneralOrbitalSystem", S.n, b, anti_symmetrize=False)
            else:
                r = S.call(b, "change_to_general_orbital_basis", anti_symmetrize=False)
                S.isobj("returns the basis", r, b, f"returned {r!r}")
            S.eqs("l", S.get(b, "l"), S.l)
            for nm in ALL:
                S.held_eq(nm, b, nm, snap)
            S.eqs("includes_spin", S.get(b, "includes_spin"), P(1))
            S.eqs("anti_symmetrized_u", S.get(b, "anti_symmetrized_u"), P(0))
        return f
    K.run("basis that already includes spin", already("basis"))
    K.run("system on a basis that already includes spin", already("system"))

    def again(S):
        b = S.basis(1, "c", False)
        S.call(b, "change_to_general_orbital_basis", anti_symmetrize=False)
        snap = S.snap(b, ALL)
        S.call(b, "change_to_general_orbital_basis", anti_symmetrize=False)
        for nm in ALL:
            S.held_eq(nm, b, nm, snap)
        S.eqs("l", S.get(b, "l"), 2 * S.l)
    K.run("second conversion", again)

    def gos(asym):
        def f(S):
            b = S.basis(1, "c", False)
            snap = S.snap(b, SPATIAL)
            S.assume(ge0(2 * S.l - S.n))
            s = S.new("GeneralOrbitalSystem", S.n, b, anti_symmetrize=asym)
            sh = S.shapes(2 * S.l, 1)
            for nm in SPATIAL:
                want = doubled(nm, snap[nm][0])
                S.eq(nm, S.get(s, nm), sh[nm], anti(want) if nm == "u" and asym else want, obj=b, attr=nm)
            sizes_of(S, s, S.n, 2 * S.l)
        return f
    K.run("GeneralOrbitalSystem from a spatial basis", gos(False))
    K.run("GeneralOrbitalSystem from a spatial basis[antisymmetrised]", gos(True))

    def dvr(repr_, asym):
        def f(S):
            b = sinc(S, repr_)
            names = ("h", "s", "dipole_moment", "spf", "bra_spf")
            snap = S.snap(b, names)
            u = S.el(S.get(b, "u"))
            S.call(b, "change_to_general_orbital_basis", anti_symmetrize=asym)
            l2 = 2 * S.l
            sh = {**S.shapes(l2, 1), "spf": (l2, S.l), "bra_spf": (l2, S.l)}
            for nm in names:
                S.eq(nm, S.get(b, nm), sh[nm], doubled(nm, snap[nm][0]), obj=b, attr=nm)
            want = doubled("u", u4(u) if repr_ == "2d" else u)
            if repr_ == "2d" and not asym:
                S.eq("u", S.get(b, "u"), (l2, l2), lambda p, q: want(p, q, p, q), obj=b, attr="u")
            else:
                S.eq("u", S.get(b, "u"), sh["u"], anti(want) if asym else want, obj=b, attr="u")
            S.eqs("l", S.get(b, "l"), l2)
            S.eqs("includes_spin", S.get(b, "includes_spin"), P(1))
        return f
    for repr_ in ("2d", "4d"):
        for asym in (False, True):
            K.run(f"ODSincDVR({repr_}) to general orbitals[antisymmetrise={asym}]", dvr(repr_, asym))

    def helper(S):
        cls = S.I.get(Q + "basis_set.BasisSet")
        l = S.l
        for nm, m, sh, osh in (("h", "add_spin_one_body", (l, l), (2 * l, 2 * l)), ("u", "add_spin_two_body", (l,) * 4, (2 * l,) * 4),
                               ("spf", "add_spin_spf", (l, S.G, S.G), (2 * l, S.G, S.G)), ("bra_spf", "add_spin_bra_spf", (l, S.G), (2 * l, S.G))):
            x = S.arr("X" + nm, sh)
            S.eq(m, S.call(cls, m, x, NP), osh, doubled(nm, S.el(x)))
    K.run("spin-doubling helpers", helper)


# ------------------------------------------------------------------ C04
def spinvec(S, v):
    """(python list value, elements) of a spin vector given as pairs (re, im) of Fractions"""
    fr = lambda x: P(F(*x)) if isinstance(x, tuple) else P(x)
    c = [fr(re) + P(1j) * fr(im) for re, im in v]
    return S.pylist(c), c


VECS = {
    "default": None,
    "rotated": ([((3, 5), 0), ((4, 5), 0)], [((-4, 5), 0), ((3, 5), 0)]),
    "complex": ([((3, 5), 0), (0, (4, 5))], [(0, (4, 5)), ((3, 5), 0)]),
    "phases": ([(0, (5, 13)), ((12, 13), 0)], [((12, 13), 0), (0, (5, 13))]),
    "swapped": ([(0, 0), (1, 0)], [(1, 0), (0, 0)]),
}
BAD = {
    "a not normalised": ([(1, 0), (1, 0)], [(0, 0), (1, 0)]),
    "b not normalised": ([(1, 0), (0, 0)], [(0, 0), (2, 0)]),
    "not orthogonal": ([(1, 0), (0, 0)], [((3, 5), 0), ((4, 5), 0)]),
    "not orthogonal (complex)": ([((3, 5), 0), (0, (4, 5))], [(0, (4, 5)), ((-3, 5), 0)]),
    "equal": ([(1, 0), (0, 0)], [(1, 0), (0, 0)]),
    "a slightly too long": ([((1001, 1000), 0), (0, 0)], [(0, 0), (1, 0)]),
    "b slightly too short": ([(1, 0), (0, 0)], [(0, 0), (0, (9999, 10000))]),
    "slightly not orthogonal": ([(1, 0), (0, 0)], [((-20, 10001), 0), ((9999, 10001), 0)]),
    "not orthogonal (imaginary overlap)": ([(1, 0), (0, 0)], [(0, (3, 5)), ((4, 5), 0)]),
    "not normalised (unit square without conjugation)": ([((5, 4), 0), (0, (3, 4))], [(0, (-3, 4)), ((5, 4), 0)]),
    "a of unit length, b zero": ([(1, 0), (0, 0)], [(0, 0), (0, 0)]),
}
ROUNDED = (F(0.6), F(0.8))
PAULI = {
    "x": ((0, 1), (1, 0)), "y": ((0, -1j), (1j, 0)), "z": ((1, 0), (0, -1)),
}


def pauli_terms(a, b):
    """{axis: 2x2 matrix of <a_i|sigma|a_j>} as exact constants"""
    out = {}
    vecs = (a, b)
    for ax, m in PAULI.items():
        out[ax] = [[sum((conj(vecs[i][k]) * P(m[k][n]) * vecs[j][n] for k in range(2) for n in range(2)), ZERO) for j in range(2)] for i in range(2)]
    return out


def pick(mat, i, j):
    """element (i mod 2, j mod 2) of a 2x2 constant matrix as a term"""
    t = lambda x, k: eq0(fmod(x, P(2)) - k)
    return sum((mat[x][y] * t(i, x) * t(j, y) for x in range(2) for y in range(2)), ZERO)


@check("C04", "value-flow of the spin set-up for exact orthonormal spin vectors: spin_x/y/z, spin_2 and spin_2_tb terms equal the Pauli expressions in the overlap; "
              "partitions reached with non-orthonormal vectors end in a rejection")
def c04(K):
    K.require("basis_set.BasisSet.change_to_general_orbital_basis")

    def spec(S, s, a, b, l2, asym):
        pm = pauli_terms(a, b)
        h = lambda i: fdiv(i, P(2))
        si = {ax: (lambda p, q, ax=ax: P(F(1, 2)) * s(h(p), h(q)) * pick(pm[ax], p, q)) for ax in "xyz"}
        ov = doubled("s", s)
        s2 = lambda p, q: sum((S.sum((l2, l2), lambda r, t, ax=ax: si[ax](p, r) * ov(r, t) * si[ax](t, q)) for ax in "xyz"), ZERO)
        tb = lambda p, q, r, t: sum((si[ax](p, r) * si[ax](q, t) for ax in "xyz"), ZERO)
        return si, s2, (anti(tb) if asym else tb)

    def ops(vec, asym, dt="c", how="basis"):
        def f(S):
            b = S.basis(1, dt, False, ("dipole_moment", "spf"))
            s = S.el(S.get(b, "s"))
            kw = {}
            if vec == "symbolic":
                a_, b_ = ([sym(x + k, False) for k in "01"] for x in ("spin_a", "spin_b"))
                kw = {"a": S.pylist(a_), "b": S.pylist(b_)}
            elif VECS[vec] is None:
                a_, b_ = [alg.POLY1, ZERO], [ZERO, alg.POLY1]
            else:
                (av, a_), (bv, b_) = spinvec(S, VECS[vec][0]), spinvec(S, VECS[vec][1])
                kw = {"a": av, "b": bv}
                if how == "arrays":
                    kw = {k: S.I.call(Ext("numpy", "array"), [x], {}) for k, x in kw.items()}
            o = b
            if how == "system":
                S.assume(ge0(2 * S.l - S.n))
                o = S.new("GeneralOrbitalSystem", S.n, b, anti_symmetrize=asym, **kw)
            elif how == "spatial":
                S.assume(ge0(S.l - S.n))
                sos = S.new("SpatialOrbitalSystem", 2 * S.n, b)
                o = S.call(sos, "construct_general_orbital_system", anti_symmetrize=asym, **kw)
            else:
                S.call(b, "change_to_general_orbital_basis", anti_symmetrize=asym, **kw)
            l2 = 2 * S.l
            si, s2, tb = spec(S, s, a_, b_, l2, asym)
            bb = None if how == "spatial" else b
            for ax in "xyz":
                S.eq("spin_" + ax, S.get(o, "spin_" + ax), (l2, l2), si[ax], obj=bb, attr="spin_" + ax)
            S.eq("spin_2", S.get(o, "spin_2"), (l2, l2), s2, obj=bb, attr="spin_2")
            S.eq("spin_2_tb", S.get(o, "spin_2_tb"), (l2,) * 4, tb, obj=bb, attr="spin_2_tb")
        return f
    for vec in VECS:
        K.run(f"spin operators[{vec} spin vectors]", ops(vec, False))
    K.run("spin operators[symbolic spin vectors]", ops("symbolic", False), raises_ok=lambda S, r: r.exc in ("AssertionError", "ValueError"))
    K.run("spin operators[default spin vectors,antisymmetrised]", ops("default", True))
    K.run("spin operators[complex spin vectors,antisymmetrised]", ops("complex", True))
    K.run("spin operators[real overlap, complex spin vectors]", ops("complex", False, "f"))
    K.run("spin operators[complex spin vectors as arrays]", ops("complex", False, "c", "arrays"))
    K.run("spin operators of a system[phases]", ops("phases", False, "c", "system"))
    K.run("spin operators of a system built from a closed-shell one[phases]", ops("phases", False, "c", "spatial"))

    def reject(vec, how):
        def f(S):
            b = S.basis(1, "c", False, ("dipole_moment", "spf"))
            (av, _), (bv, _) = spinvec(S, BAD[vec][0]), spinvec(S, BAD[vec][1])
            try:
                if how == "system":
                    S.assume(ge0(2 * S.l - S.n))
                    S.new("GeneralOrbitalSystem", S.n, b, a=av, b=bv)
                else:
                    S.call(b, "change_to_general_orbital_basis", a=av, b=bv)
            except Raised as r:
                S.true("rejected", r.exc in ("AssertionError", "ValueError"), f"ends in {r.exc} at {floc(r.loc)}", r.loc)
                return
            S.true("rejected", False, f"spin vectors that are {vec} are accepted", anchor(S, "basis_set.BasisSet.change_to_general_orbital_basis"))
        return f
    for vec in BAD:
        K.run(f"spin vectors rejected[{vec}]", reject(vec, "basis"))
    K.run("spin vectors rejected[not orthogonal,system]", reject("not orthogonal", "system"))

    def rounded(S):
        """vectors that are orthonormal up to the rounding of their components are orthonormal"""
        b = S.basis(1, "c", False, ("dipole_moment", "spf"))
        x, y = ROUNDED
        S.call(b, "change_to_general_orbital_basis", a=S.pylist([P(x), P(y)]), b=S.pylist([P(-y), P(x)]), anti_symmetrize=False)
        S.true("accepted", True)
    K.run("spin vectors rounded to double precision are accepted", rounded)

    def pauli(vec):
        def f(S):
            if vec == "symbolic":
                a_, b_ = ([sym(x + k, False) for k in "01"] for x in ("spin_a", "spin_b"))
                av, bv = S.pylist(a_), S.pylist(b_)
            else:
                (av, a_), (bv, b_) = spinvec(S, VECS[vec][0]), spinvec(S, VECS[vec][1])
            cls = S.I.get(Q + "basis_set.BasisSet")
            A = [S.I.call(S.I.getattr(S.I.call(Ext("numpy", "array"), [x], {}), "reshape"), [-1, 1], {}) for x in (av, bv)]
            r = S.call(cls, "setup_pauli_matrices", A[0], A[1], NP)
            pm = pauli_terms(a_, b_)
            for k, ax in enumerate("xyz"):
                S.eq("sigma_" + ax, r[k], (2, 2), lambda i, j: pick(pm[ax], i, j))
        return f
    for vec in ("complex", "phases", "symbolic"):
        K.run(f"Pauli matrices[{vec}]", pauli(vec))


def anchor(S, qual):
    try:
        f = S.I.get(qual if qual.startswith(Q) else Q + qual)
        f = f.fn if isinstance(f, (Static, Bound)) else f
        return (f.mod.path, f.name, f.node.lineno)
    except Exception:       # noqa
        return None


# ------------------------------------------------------------------ C05
@check("C05", "value-flow over every combination of antisymmetrising calls (bounded sequences): final terms are u or u - exchange, exactly once, and the flag agrees")
def c05(K):
    K.require("basis_set.BasisSet.anti_symmetrize_two_body_elements")

    def final(S, b, u, tb, want, o=None):
        o = o or b
        l = S.get(b, "l")
        l = S.I.sc(l).p
        S.eq("u", S.get(o, "u"), (l,) * 4, anti(u) if want else u, obj=b, attr="u")
        if tb is not None:
            S.eq("spin_2_tb", S.get(o, "spin_2_tb"), (l,) * 4, anti(tb) if want else tb, obj=b, attr="spin_2_tb")
        S.eqs("anti_symmetrized_u", S.get(b, "anti_symmetrized_u"), P(1 if want else 0))

    def seq(name, spin, steps, want, absent=()):
        def f(S):
            b = S.basis(1, "c", spin, absent)
            u = S.el(S.get(b, "u"))
            tb = S.el(S.get(b, "spin_2_tb")) if spin and "spin_2_tb" not in absent else None
            o = None
            n = S.n
            S.assume(ge0(S.l - n))
            for st in steps:
                if st == "anti":
                    S.call(b, "anti_symmetrize_two_body_elements")
                elif st == "convert":
                    S.call(b, "change_to_general_orbital_basis", anti_symmetrize=True)
                elif st == "convert-":
                    S.call(b, "change_to_general_orbital_basis", anti_symmetrize=False)
                elif st == "gos":
                    o = S.new("GeneralOrbitalSystem", n, b, anti_symmetrize=True)
                elif st == "gos-":
                    o = S.new("GeneralOrbitalSystem", n, b, anti_symmetrize=False)
                elif st == "gosdefault":
                    o = S.new("GeneralOrbitalSystem", n, b)
            if not spin and any(s.startswith(("convert", "gos")) for s in steps):
                u = doubled("u", u)
                # spin_2_tb: taken before antisymmetrisation from a twin
                tb = None
            final(S, b, u, tb, want, o)
        K.run(name, f)
    seq("nothing", True, [], False)
    seq("once", True, ["anti"], True)
    seq("twice", True, ["anti", "anti"], True)
    seq("once without spin_2_tb", True, ["anti"], True, ("spin_2_tb",))
    seq("spatial basis once", False, ["anti"], True)
    for a in ("gos", "gos-", "gosdefault"):
        seq(f"{a} on spin basis", True, [a], a != "gos-")
    seq("anti, gos", True, ["anti", "gos"], True)
    seq("anti, gos-", True, ["anti", "gos-"], True)
    seq("gos, anti", True, ["gos", "anti"], True)
    seq("gos-, gos", True, ["gos-", "gos"], True)
    seq("gos, gos", True, ["gos", "gos"], True)
    seq("gos, gos-", True, ["gos", "gos-"], True)
    seq("spatial convert", False, ["convert"], True)
    seq("spatial convert-", False, ["convert-"], False)
    seq("spatial convert, anti", False, ["convert", "anti"], True)
    seq("spatial convert, gos", False, ["convert", "gos"], True)
    seq("spatial convert-, gos", False, ["convert-", "gos"], True)
    seq("spatial convert-, gos-", False, ["convert-", "gos-"], False)
    seq("spatial gos", False, ["gos"], True)
    seq("spatial gos-", False, ["gos-"], False)
    seq("spatial gos-, anti, gos", False, ["gos-", "anti", "gos"], True)
    seq("spatial convert, convert", False, ["convert", "convert"], True)

    def tb(asymlast):
        def f(S):
            b1, b2 = S.basis(1, "c", False, ("spf", "dipole_moment")), S.basis(1, "c", False, ("spf", "dipole_moment"))
            S.call(b1, "change_to_general_orbital_basis", anti_symmetrize=False)
            base = S.el(S.get(b1, "spin_2_tb"))
            l2 = 2 * S.l
            S.call(b2, "change_to_general_orbital_basis", anti_symmetrize=True)
            S.eq("spin_2_tb", S.get(b2, "spin_2_tb"), (l2,) * 4, anti(base), obj=b2, attr="spin_2_tb")
            S.call(b1, "anti_symmetrize_two_body_elements")
            S.eq("spin_2_tb afterwards", S.get(b1, "spin_2_tb"), (l2,) * 4, anti(base), obj=b1, attr="spin_2_tb")
            S.call(b1, "anti_symmetrize_two_body_elements")
            S.eq("spin_2_tb again", S.get(b1, "spin_2_tb"), (l2,) * 4, anti(base), obj=b1, attr="spin_2_tb")
        return f
    K.run("two-body squared spin after conversion", tb(True))

    def flagged(S):
        b = S.new("basis_set.BasisSet", S.l, 1, np=NP, includes_spin=True, anti_symmetrized_u=True)
        S.set(b, "h", S.arr("h", (S.l,) * 2))
        S.set(b, "u", S.arr("u", (S.l,) * 4))
        u = S.el(S.get(b, "u"))
        S.call(b, "anti_symmetrize_two_body_elements")
        S.eq("u", S.get(b, "u"), (S.l,) * 4, u, obj=b, attr="u")
        S.eqs("anti_symmetrized_u", S.get(b, "anti_symmetrized_u"), P(1))
    K.run("basis declared antisymmetrised", flagged)

    def premarked(how, asym):
        """a spatial basis that is already antisymmetrised stays so, whatever is asked for"""
        def f(S):
            b = S.basis(1, "c", False, ("spf", "dipole_moment"), kw={"anti_symmetrized_u": True} if how == "declared" else None)
            if how != "declared":
                S.call(b, "anti_symmetrize_two_body_elements")
            u = S.el(S.get(b, "u"))
            S.call(b, "change_to_general_orbital_basis", anti_symmetrize=asym)
            S.eq("u", S.get(b, "u"), (2 * S.l,) * 4, doubled("u", u), obj=b, attr="u")
            S.eqs("anti_symmetrized_u", S.get(b, "anti_symmetrized_u"), P(1))
        return f
    for how in ("declared", "made"):
        for asym in (True, False):
            K.run(f"spatial basis {how} antisymmetrised, converted with anti_symmetrize={asym}", premarked(how, asym))
    for gone in (("spin_2",), ("spin_x",), ("spin_y", "spin_z"), ("s",), ("spf", "dipole_moment"), ("spin_x", "spin_y", "spin_z", "spin_2", "s")):
        seq(f"once without {', '.join(gone)}", True, ["anti"], True, gone)

    def keepsother(S):
        b = S.basis(1, "c", True)
        names = tuple(x for x in ALL if x not in TWO)
        snap = S.snap(b, names)
        S.call(b, "anti_symmetrize_two_body_elements")
        for nm in names:
            S.held_eq(nm, b, nm, snap)
    K.run("other quantities", keepsother)

    def closed(asym):
        def f(S):
            b = S.basis(1, "c", False, ("spf", "dipole_moment"))
            u = S.el(S.get(b, "u"))
            S.assume(ge0(S.l - S.n))
            s = S.new("SpatialOrbitalSystem", 2 * S.n, b)
            g = S.call(s, "construct_general_orbital_system", anti_symmetrize=asym)
            want = doubled("u", u)
            S.eq("u", S.get(g, "u"), (2 * S.l,) * 4, anti(want) if asym else want)
            S.eqs("closed-shell flag", S.get(b, "anti_symmetrized_u"), P(0))
            S.eq("closed-shell u", S.get(s, "u"), (S.l,) * 4, u)
        return f
    K.run("construct_general_orbital_system", closed(True))
    K.run("construct_general_orbital_system[antisymmetrise=False]", closed(False))

    def chg(S):
        # a basis change keeps the mark
        b = S.basis(1, "c", True)
        S.call(b, "anti_symmetrize_two_body_elements")
        B = Basis(S, True)
        S.call(b, "change_basis", B.C, **B.kw())
        u = S.el(S.get(b, "u"))
        S.eqs("anti_symmetrized_u", S.get(b, "anti_symmetrized_u"), P(1))
        S.call(b, "anti_symmetrize_two_body_elements")
        S.eq("u", S.get(b, "u"), (S.lp,) * 4, u, obj=b, attr="u")
    K.run("basis change in between", chg)

    def dvr(repr_, steps, want):
        def f(S):
            b = sinc(S, repr_)
            u = S.el(S.get(b, "u"))
            u = u4(u) if repr_ == "2d" else u
            S.assume(ge0(S.l - S.n))
            for st in steps:
                if st == "anti":
                    S.call(b, "anti_symmetrize_two_body_elements")
                elif st.startswith("gos"):
                    S.new("GeneralOrbitalSystem", S.n, b, anti_symmetrize=st == "gos")
                else:
                    S.call(b, "change_to_general_orbital_basis", anti_symmetrize=st == "convert")
            if steps and steps[0] != "anti":
                u = doubled("u", u)
            l = S.I.sc(S.get(b, "l")).p
            S.eqs("anti_symmetrized_u", S.get(b, "anti_symmetrized_u"), P(1 if want else 0))
            v = S.get(b, "u")
            if isinstance(v, Arr) and len(v.shape) == 2 and not want:
                S.eq("u", v, (l, l), lambda p, q: u(p, q, p, q), obj=b, attr="u")
            else:
                S.eq("u", v, (l,) * 4, anti(u) if want else u, obj=b, attr="u")
        return f
    for repr_ in ("2d", "4d"):
        for steps, want in ((("anti",), True), (("convert",), True), (("convert-",), False), (("convert-", "anti"), True), (("convert-", "gos"), True),
                            (("gos",), True), (("gos-",), False), (("gos", "anti", "gos"), True)):
            K.run(f"ODSincDVR({repr_}): {', '.join(steps)}", dvr(repr_, steps, want))


# ------------------------------------------------------------------ C06
@check("C06", "value-flow of compute_reference_energy: returned term equals the energy expression over the occupied index range; effect analysis: nothing stored or written")
def c06(K):
    K.require("GeneralOrbitalSystem.compute_reference_energy", "SpatialOrbitalSystem.compute_reference_energy")

    def e(kind, dt, after=False, build="spin"):
        def f(S):
            spin = kind == "GeneralOrbitalSystem" and build == "spin"
            b = S.basis(1, dt, spin)
            n = S.n
            S.assume(ge0((S.l if build == "spin" else 2 * S.l) - n))
            s = S.new(kind, n if kind == "GeneralOrbitalSystem" else 2 * n, b, **({"anti_symmetrize": False} if kind == "GeneralOrbitalSystem" else {}))
            if after:
                B = Basis(S, True)
                S.assume(ge0(S.lp - n))
                S.call(s, "change_basis", B.C, **B.kw())
            names = names_of(spin)
            snap = S.snap(s, names)
            h, u = snap["h"][0], snap["u"][0]
            w, at = len(S.I.S.writes), len(S.I.S.attrs)
            r = S.call(s, "compute_reference_energy")
            ws = [x for x in S.I.S.writes[w:] if x[1] is not None]
            ats = [x for x in S.I.S.attrs[at:]]
            if kind == "GeneralOrbitalSystem":
                want = S.sum((n,), lambda i: h(i, i)) + P(F(1, 2)) * S.sum((n, n), lambda i, j: u(i, j, i, j))
            else:
                want = 2 * S.sum((n,), lambda i: h(i, i)) + 2 * S.sum((n, n), lambda i, j: u(i, j, i, j)) - S.sum((n, n), lambda i, j: u(i, j, j, i))
            S.eqs("energy", r, want, anchor(S, kind + ".compute_reference_energy"))
            for nm in names:
                S.held_eq("stored " + nm, s, nm, snap)
        return f
    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        K.run(f"{kind}", e(kind, "c"))
        K.run(f"{kind}[real elements]", e(kind, "f"))
        K.run(f"{kind}[after a basis change]", e(kind, "c", True))
    K.run("GeneralOrbitalSystem[from spatial basis]", e("GeneralOrbitalSystem", "c", False, "spatial"))


# ------------------------------------------------------------------ C07
@check("C07", "value-flow of construct_fock_matrix for arbitrary h, u and an output buffer of arbitrary content: returned term, identity of the returned array, and the write set")
def c07(K):
    K.require("GeneralOrbitalSystem.construct_fock_matrix", "SpatialOrbitalSystem.construct_fock_matrix")

    def fock(kind, buf, dt, own=False, after=False, bdt=None):
        def f(S):
            spin = kind == "GeneralOrbitalSystem"
            b = S.basis(1, "c" if own else "c", spin)
            n, l = S.n, S.l
            S.assume(ge0(l - n))
            s = S.new(kind, n if spin else 2 * n, b, **({"anti_symmetrize": False} if spin else {}))
            if after:
                B = Basis(S, True)
                S.assume(ge0(S.lp - n))
                S.call(s, "change_basis", B.C, **B.kw())
                l = S.lp
            if own:
                H, U = S.get(s, "h"), S.get(s, "u")
            else:
                H, U = S.arr("H", (l, l), dt), S.arr("U", (l,) * 4, dt)
            h, u = S.el(H), S.el(U)
            snap = S.snap(s, names_of(spin))
            FB = S.arr("F", (l, l), bdt or (dt if not own else "c")) if buf else None
            S.I.volatile = frozenset({"F"})
            w = len(S.I.S.writes)
            if buf == "positional":
                r = S.call(s, "construct_fock_matrix", H, U, FB)
            elif buf:
                r = S.call(s, "construct_fock_matrix", H, U, f=FB)
            else:
                r = S.call(s, "construct_fock_matrix", H, U)
            ws = [x for x in S.I.S.writes[w:] if x[1] is not None and (FB is None or x[0] != FB.cell)]
            S.true("h, u and stored arrays are not written", not ws, f"writes to {ws[0][1]}" if ws else "", ws[0][2] if ws else None)
            if spin:
                want = lambda p, q: h(p, q) + S.sum((n,), lambda i: u(p, i, q, i))
            else:
                want = lambda p, q: h(p, q) + 2 * S.sum((n,), lambda i: u(p, i, q, i)) - S.sum((n,), lambda i: u(p, i, i, q))
            S.eq("result", r, (l, l), want, loc=anchor(S, kind + ".construct_fock_matrix"))
            if buf:
                S.true("returns the output array itself", isinstance(r, Arr) and r.cell == FB.cell, f"returned {r!r}", anchor(S, kind + ".construct_fock_matrix"))
                S.eq("output array", FB, (l, l), want, loc=anchor(S, kind + ".construct_fock_matrix"))
            else:
                S.true("result is a new array", isinstance(r, Arr) and r.cell not in (H.cell, U.cell), "result aliases an argument", anchor(S, kind + ".construct_fock_matrix"))
            for nm in names_of(spin):
                S.held_eq("stored " + nm, s, nm, snap)
        return f
    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        for buf in (None, "keyword", "positional"):
            K.run(f"{kind}[output={buf}]", fock(kind, buf, "c"))
        K.run(f"{kind}[output=keyword,real]", fock(kind, "keyword", "f"))
        K.run(f"{kind}[output=keyword,real into complex]", fock(kind, "keyword", "f", bdt="c"))
        K.run(f"{kind}[real]", fock(kind, None, "f"))
        K.run(f"{kind}[own elements]", fock(kind, "keyword", "c", True))
        K.run(f"{kind}[own elements, new array]", fock(kind, None, "c", True))
        K.run(f"{kind}[after a basis change]", fock(kind, "keyword", "c", False, True))

    def twice(kind):
        def f(S):
            spin = kind == "GeneralOrbitalSystem"
            b = S.basis(1, "c", spin)
            n, l = S.n, S.l
            S.assume(ge0(l - n))
            s = S.new(kind, n if spin else 2 * n, b, **({"anti_symmetrize": False} if spin else {}))
            H, U = S.arr("H", (l, l)), S.arr("U", (l,) * 4)
            r1 = S.call(s, "construct_fock_matrix", H, U)
            e1 = S.el(r1)
            H2, U2 = S.arr("H2", (l, l)), S.arr("U2", (l,) * 4)
            r2 = S.call(s, "construct_fock_matrix", H2, U2)
            S.eq("first result after a second call", r1, (l, l), e1, loc=anchor(S, kind + ".construct_fock_matrix"))
            h, u = S.el(H2), S.el(U2)
            if spin:
                want = lambda p, q: h(p, q) + S.sum((n,), lambda i: u(p, i, q, i))
            else:
                want = lambda p, q: h(p, q) + 2 * S.sum((n,), lambda i: u(p, i, q, i)) - S.sum((n,), lambda i: u(p, i, i, q))
            S.eq("second result", r2, (l, l), want, loc=anchor(S, kind + ".construct_fock_matrix"))
        return f
    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        K.run(f"{kind}[two calls]", twice(kind))


# ------------------------------------------------------------------ C08
@check("C08", "value-flow of compute_particle_density on every receiver: returned term equals sum_pq bra_p rho[q,p] ket_q (after the transformation); write set empty; value of bra_spf")
def c08(K):
    K.require("basis_set.BasisSet.compute_particle_density", "QuantumSystem.compute_particle_density")

    def dens(recv, dim, mode, bra, dt="c", rdt="c", cdt="c"):
        def f(S):
            spin = recv == "GeneralOrbitalSystem"
            b = S.basis(dim, dt, spin, () if bra else ("bra_spf",))
            o = b
            if recv != "BasisSet":
                S.assume(ge0(S.l - S.n))
                o = S.new(recv, S.n if spin else 2 * S.n, b, **({"anti_symmetrize": False} if spin else {}))
            ket = S.el(S.get(b, "spf"))
            br = S.el(S.get(b, "bra_spf")) if bra else (lambda p, *g: conj(ket(p, *g)))
            B = None
            l = S.l
            kw = {}
            if mode == "C_tilde only":
                kw = {"C_tilde": S.arr("Ct", (S.lp, S.l))}
            elif mode != "plain":
                B = Basis(S, mode == "C and C_tilde", cdt)
                kw = {"C": B.C, **B.kw()}
                l = B.lp
            rho = S.arr("rho", (l, l), rdt)
            re = S.el(rho)
            snap = S.snap(b, ("h", "u", "s", "spf"))
            w = len(S.I.S.writes)
            r = S.call(o, "compute_particle_density", rho, **kw)
            ws = [x for x in S.I.S.writes[w:] if x[1] is not None]
            S.true("no stored or supplied array is written", not ws, f"writes to {ws[0][1]}" if ws else "", ws[0][2] if ws else None)
            K_, B_ = (B.ket(ket), B.bra(br)) if B else (ket, br)
            S.eq("density", r, (S.G,) * dim, lambda *g: S.sum((l, l), lambda p, q: B_(p, *g) * re(q, p) * K_(q, *g)), loc=anchor(S, "system_helper.compute_particle_density"))
            for nm in ("h", "u", "s", "spf"):
                S.held_eq("stored " + nm, b, nm, snap)
            S.eq("stored bra_spf", S.get(b, "bra_spf"), (S.l,) + (S.G,) * dim, br, obj=b, attr="bra_spf")
        return f
    for recv in ("BasisSet", "GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        for mode in ("plain", "C", "C and C_tilde"):
            for bra in (True, False):
                K.run(f"{recv}: density[{mode},bra {'stored' if bra else 'default'}]", dens(recv, 1, mode, bra))
    for dim in (2, 3):
        K.run(f"BasisSet: density[dim={dim}]", dens("BasisSet", dim, "plain", True))
    K.run("BasisSet: density[dim=2,C and C_tilde]", dens("BasisSet", 2, "C and C_tilde", True))
    K.run("BasisSet: density[C_tilde without C]", dens("BasisSet", 1, "C_tilde only", True))
    K.run("SpatialOrbitalSystem: density[C_tilde without C]", dens("SpatialOrbitalSystem", 1, "C_tilde only", False))
    for dt in "cf":
        for rdt in "cfi":
            for bra in (True, False):
                for mode, cdt in (("plain", "c"), ("C", "c"), ("C", "f"), ("C and C_tilde", "c"), ("C and C_tilde", "f")):
                    if (dt, rdt, cdt) != ("c", "c", "c"):
                        K.run(f"BasisSet: density[orbitals {dt}, density matrix {rdt}, {mode} {cdt}, bra {'stored' if bra else 'default'}]", dens("BasisSet", 1, mode, bra, dt, rdt, cdt))

    def default(S):
        b = S.basis(1, "c", False, ("bra_spf",))
        f1 = S.el(S.get(b, "spf"))
        sh = (S.l, S.G)
        S.eq("default bra functions", S.get(b, "bra_spf"), sh, lambda p, x: conj(f1(p, x)), obj=b, attr="bra_spf")
        new = S.arr("spf2", sh)
        S.set(b, "spf", new)
        f2 = S.el(new)
        S.eq("default bra functions of new kets", S.get(b, "bra_spf"), sh, lambda p, x: conj(f2(p, x)), obj=b, attr="bra_spf")
        br = S.arr("bra2", sh)
        S.set(b, "bra_spf", br)
        S.eq("stored bra functions", S.get(b, "bra_spf"), sh, S.el(br), obj=b, attr="bra_spf")
        S.eq("ket functions", S.get(b, "spf"), sh, f2, obj=b, attr="spf")
    K.run("bra functions", default)

    def changed(S):
        # density after a basis change uses the transformed functions
        b = S.basis(1, "c", False, ("bra_spf",))
        ket = S.el(S.get(b, "spf"))
        B = Basis(S, True)
        S.call(b, "change_basis", B.C, **B.kw())
        rho = S.arr("rho", (S.lp, S.lp))
        re = S.el(rho)
        k_, b_ = B.ket(ket), B.bra(lambda p, *g: conj(ket(p, *g)))
        S.eq("density", S.call(b, "compute_particle_density", rho), (S.G,), lambda x: S.sum((S.lp,) * 2, lambda p, q: b_(p, x) * re(q, p) * k_(q, x)))
    K.run("density after a biorthogonal basis change", changed)
