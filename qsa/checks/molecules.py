"""Systems built from PySCF, random basis sets."""
from . import check
from .core import *
from ..npmodel import pyscf_new, pyscf_build, pyscf_int, pyscf_attr, pyscf_cfg, molkey
from ..alg import conj, fdiv, fmod

CS = "custom_system."


class Molecule:
    """what PySCF gives for the expected settings"""

    def __init__(self, S, hf=False, odd=False, **cfg):
        I = S.I
        I.mol_nao = S.l
        self.S, self.I = S, I
        self.mol = pyscf_new(I, "mol", {})
        pyscf_build(I, self.mol, [], {"unit": "bohr", **cfg})
        self.ne = 2 * S.n + (1 if odd else 0)
        self.l = S.l
        I.mol_ne[molkey(I, pyscf_cfg(I, self.mol))] = self.ne
        g = lambda nm: S.el(pyscf_int(I, self.mol, nm))
        self.h, self.s, self.r, e = g("hcore"), g("int1e_ovlp"), g("int1e_r"), g("int2e")
        self.u = lambda p, q, r, s: e(p, r, q, s)
        self.enuc = I.poly(pyscf_int(I, self.mol, "energy_nuc"))
        self.dip = self.r
        if hf:
            o = pyscf_new(I, "hf:RHF", {"@mol": self.mol, "@run": True})
            self.c = S.el(pyscf_attr(I, o, "mo_coeff"))
            self.conv = pyscf_attr(I, o, "converged").p

    def centre(self):
        """dipole operator relative to the centre of nuclear charge"""
        S, I = self.S, self.I
        m = lambda n: I.call(pyscf_attr(I, self.mol, n), [], {})
        z, x = m("atom_charges"), m("atom_coords")
        na, z, x = z.shape[0], S.el(z), S.el(x)
        inv = alg.power(S.sum((na,), z), -1)
        R = lambda i: S.sum((na,), lambda k: z(k) * x(k, i)) * inv
        r, s = self.r, self.s
        self.dip = lambda i, p, q: r(i, p, q) - R(i) * s(p, q)

    def mo(self):
        """the whole set of integrals in the molecular-orbital basis"""
        S, l, c = self.S, self.l, self.c
        one = lambda x: lambda p, q: S.sum((l, l), lambda a, b: c(a, p) * x(a, b) * c(b, q))
        h, s, u, d = self.h, self.s, self.u, self.dip
        self.h, self.s = one(h), one(s)
        self.dip = lambda i, p, q: S.sum((l, l), lambda a, b: c(a, p) * d(i, a, b) * c(b, q))
        self.u = lambda p, q, r, t: S.sum((l,) * 4, lambda a, b, e, f: c(a, p) * c(b, q) * u(a, b, e, f) * c(e, r) * c(f, t))


@check("C21", "value-flow from PySCF's integrals (uninterpreted functions of the molecule's settings, with their permutation symmetries and gauge-origin dependence) "
              "to the returned system: every quantity's term equals the specified reordered, transformed and spin-doubled integral")
def c21(K):
    K.require(CS + "construct_pyscf_system_ao", CS + "construct_pyscf_system_rhf")

    def build(S, kind, kw):
        return S.I.call(S.I.get(Q + CS + "construct_pyscf_system_" + kind), [Opq(S.label + "molecule")], kw)

    def expected(S, kind, kw, odd=False):
        cfg = {"atom": Opq(S.label + "molecule"), "basis": kw.get("basis", "cc-pvdz")}
        for k, v in kw.items():
            if k not in ("basis", "add_spin", "anti_symmetrize", "np", "verbose"):
                cfg[k] = v
        return Molecule(S, kind == "rhf", odd, **cfg)

    def values(kind, opts, quantities=("h", "s", "u", "dipole_moment")):
        def f(S):
            kw = opts(S)
            M = expected(S, kind, kw)
            S.assume(ge0(S.l - S.n))
            if kind == "rhf":
                S.assume(M.conv)
                M.centre()
                M.mo()
            s = build(S, kind, kw)
            where = anchor(S, CS + "construct_pyscf_system_" + kind)
            spin = kw.get("add_spin", True)
            asym = spin and kw.get("anti_symmetrize", True)
            nm = s.cls.name if isinstance(s, Obj) else repr(s)
            S.true("class of the system", nm == ("GeneralOrbitalSystem" if spin else "SpatialOrbitalSystem"), f"is a {nm}", where)
            want = {"h": M.h, "s": M.s, "u": M.u, "dipole_moment": M.dip}
            l = M.l
            if spin:
                want = {k: doubled(k, x) for k, x in want.items()}
                l = 2 * l
                S.eqs("two-body elements flagged antisymmetrised", S.get(S.get(s, "_basis_set"), "anti_symmetrized_u"), P(1 if asym else 0))
            if asym:
                want["u"] = anti(want["u"])
            sh = S.shapes(l, 3)
            for k in quantities:
                S.eq(k, S.get(s, k), sh[k], want[k], loc=where)
            S.eqs("nuclear repulsion energy", S.get(s, "nuclear_repulsion_energy"), M.enuc, loc=where)
            n = 2 * S.n if spin else S.n
            S.eqs("number of occupied orbitals", S.get(s, "n"), n, loc=where)
            S.eqs("number of orbitals", S.get(s, "l"), l, loc=where)
        return f

    sp = lambda S: {"basis": Opq("basisname"), "add_spin": False}
    for kind in ("ao", "rhf"):
        K.run(f"{kind} system, closed shell", values(kind, sp))
        K.run(f"{kind} system, closed shell, antisymmetrisation off", values(kind, lambda S: {**sp(S), "anti_symmetrize": False}, ("u",)))
        K.run(f"{kind} system, default options", values(kind, lambda S: {}))
        K.run(f"{kind} system, not antisymmetrised", values(kind, lambda S: {"anti_symmetrize": False, "np": NP}))
        K.run(f"{kind} system, molecule settings forwarded", values(kind, lambda S: {**sp(S), "charge": Sc(sym("charge", integer=True), "i"), "cart": True, "spin": 2, "ecp": Opq("ecpname")}))
    K.run("rhf system, verbose", values("rhf", lambda S: {**sp(S), "verbose": True}))
    K.run("ao system, verbose PySCF", values("ao", lambda S: {**sp(S), "verbose": 4}, ("h", "u")))

    def odd(kind, opts):
        def f(S):
            kw = opts(S)
            expected(S, kind, kw, True)
            S.assume(ge0(S.l - S.n - 1))
            try:
                build(S, kind, kw)
            except Raised as r:
                S.true("rejected", r.exc in ("AssertionError", "ValueError"), f"ends in {r.exc} at {floc(r.loc)}", r.loc)
                return
            S.true("rejected", False, "an odd number of electrons is accepted", anchor(S, CS + "construct_pyscf_system_" + kind))
        return f
    for kind in ("ao", "rhf"):
        K.run(f"{kind} system, odd number of electrons", odd(kind, sp))
        K.run(f"{kind} system, odd number of electrons, with spin", odd(kind, lambda S: {}))

    def unconverged(opts):
        def f(S):
            kw = opts(S)
            M = expected(S, "rhf", kw)
            S.assume(ge0(S.l - S.n))
            S.assume(M.conv, False)
            build(S, "rhf", kw)
            ev = [e for e in S.I.S.events if e[0] == "warn"]
            S.true("warns", bool(ev), "no warning is issued", anchor(S, CS + "construct_pyscf_system_rhf"))
        return f
    K.run("rhf calculation that does not converge", unconverged(sp))
    K.run("rhf calculation that does not converge, verbose", unconverged(lambda S: {**sp(S), "verbose": True}))
    K.run("rhf calculation that does not converge, with spin", unconverged(lambda S: {}))


# ------------------------------------------------------------------ C22
@check("C22", "value-flow from the random draws (one fresh unknown per draw and element) to the basis set: the Hermitian and exchange symmetries hold as identities of terms; "
              "no further identity (a vanishing imaginary part, equal elements, repeated draws, a symmetry beyond those named) does")
def c22(K):
    K.require("random_basis.RandomBasisSet")
    HERM = ("h", "s")

    def build(S, dim, spin=False):
        return S.new("random_basis.RandomBasisSet", S.l, dim, **({"includes_spin": True} if spin else {}))

    def differs(S, name, a, b, loc):
        """a and b are different random numbers"""
        st, d = S.decide(a, b)
        if st in ("proved", "held"):
            return S.ob(name, "violated" if S.feasible() else "undecided", f"{short(a)} always equals {short(b)}", loc)
        S.ob(name, "proved" if st == "violated" else "undecided", d[:120], loc)

    def sym_(dim):
        def f(S):
            b = build(S, dim)
            where = anchor(S, "random_basis.RandomBasisSet.setup_basis")
            sh = S.shapes(S.l, dim)
            got = {}
            for nm in ("h", "s", "dipole_moment", "u"):
                v = S.get(b, nm)
                if not isinstance(v, Arr) and isinstance(S.asarr(v), Arr):
                    v = S.asarr(v)
                if not isinstance(v, Arr):
                    S.unknown(nm, f"value not modelled: {v!r}") if isinstance(v, (Top, Opq)) else S.true(nm, False, f"is {v!r}", where)
                    continue
                x = got[nm] = S.el(v)
                if nm == "u":
                    S.eq("u[p,q,r,s] = u[q,p,s,r]", v, sh[nm], lambda p, q, r, s: x(q, p, s, r), loc=where)
                elif nm in HERM:
                    S.eq(nm + " Hermitian", v, sh[nm], lambda p, q: conj(x(q, p)), loc=where)
                else:
                    S.eq(nm + " Hermitian in each component", v, sh[nm], lambda i, p, q: conj(x(i, q, p)), loc=where)
            # randomness: distinct entries, complex, and nothing shared between quantities
            ent = {}
            for nm, x in got.items():
                k = {"u": [(0, 0, 0, 0), (0, 0, 0, 1), (0, 0, 1, 1), (0, 1, 0, 1), (0, 1, 1, 0), (1, 1, 0, 0), (1, 1, 1, 1)]}.get(nm)
                if k is None:
                    o = [(0, 0), (0, 1), (1, 1)]
                    k = o if nm in HERM else [(i,) + e for i in range(dim) for e in o]
                for e in k:
                    ent[nm, e] = x(*[P(i) for i in e])
                for e in k:
                    if nm == "u" or e[-2] != e[-1]:
                        z, zc = ent[nm, e], conj(ent[nm, e])
                        differs(S, f"real and imaginary part of {nm}{list(e)} are independent", z + zc, -(z - zc) * alg.IUNIT, where)
                        differs(S, f"{nm}{list(e)} is complex", ent[nm, e], conj(ent[nm, e]), where)
                    differs(S, f"{nm}{list(e)} is random", ent[nm, e], ZERO, where)
            ks = list(ent)
            seen = {}
            for k in ks:
                key = S.I.simp(ent[k]).key()
                if key in seen:
                    S.true("all independent elements differ", False, f"{k[0]}{list(k[1])} always equals {seen[key][0]}{list(seen[key][1])}", where)
                seen[key] = k
            S.true("all independent elements differ", True)
            for k, j in zip(ks, ks[1:]):
                for op, t in (("", ent[j]), ("the conjugate of ", conj(ent[j]))):
                    differs(S, f"{k[0]}{list(k[1])} is not {op}{j[0]}{list(j[1])}", ent[k], t, where)
            # every pair of quantities draws its own numbers
            draws = {nm: {a for k, t in ent.items() if k[0] == nm for x in t.terms for a, _ in x.fac if a[0] == "el" and a[1].startswith("random:")} for nm in got}
            nms = list(draws)
            for i, a in enumerate(nms):
                for c in nms[i + 1:]:
                    S.true(f"{a} and {c} use their own draws", not draws[a] & draws[c], f"both use {[short(alg.atom(x)) for x in list(draws[a] & draws[c])[:2]]}", where)
        return f
    for dim in (1, 2, 3, 5):
        K.run(f"RandomBasisSet[dim={dim}]", sym_(dim))

    def again(S):
        a, b = build(S, 1), build(S, 1)
        where = anchor(S, "random_basis.RandomBasisSet.setup_basis")
        for nm, e in (("h", (0, 1)), ("s", (0, 1)), ("u", (0, 1, 0, 1)), ("dipole_moment", (0, 0, 1))):
            va, vb = S.get(a, nm), S.get(b, nm)
            if isinstance(va, Arr) and isinstance(vb, Arr):
                x = [P(i) for i in e]
                differs(S, f"{nm} of a second basis set is new", S.el(va)(*x), S.el(vb)(*x), where)
            else:
                S.unknown(nm + " of a second basis set", "not modelled")
    K.run("two random basis sets", again)

    def usable(S):
        """the symmetries survive a change of basis and the use in a system"""
        S.assume(ge0(S.l - S.n))
        b = build(S, 1, True)
        s = S.new("GeneralOrbitalSystem", S.n, b, anti_symmetrize=False)
        for nm in HERM:
            x = S.el(S.get(s, nm))
            S.eq(nm + " Hermitian in a system", S.get(s, nm), (S.l, S.l), lambda p, q: conj(x(q, p)))
    K.run("system on a random basis set", usable)
