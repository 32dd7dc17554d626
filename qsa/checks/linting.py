"""Resolution of names, members, calls and overrides; use of every exported class where its base class is expected."""
from . import check
from .core import *
from .systems import *
from .dots import bstubs
from ..lint import Lint

RULES = {
    "import": "every imported name exists",
    "name": "every name is bound on some path to its use",
    "member": "every attribute read exists, every attribute written can be set",
    "call": "every call binds its arguments",
    "override": "overriding methods accept the calls of the overridden ones",
}
RESOLVE = ("NameError", "UnboundLocalError", "AttributeError", "TypeError", "ImportError", "ModuleNotFoundError", "NotImplementedError", "RecursionError")


@check("C24", "name, member and signature resolution over all syntax trees of the package (may-be-assigned flow of names, members per instantiable class along its resolution order, "
              "binding of call arguments, override compatibility); abstract execution of the base-class interface on every exported class: no name, attribute or argument error reachable")
def c24(K):
    K.require("BasisSet", "QuantumSystem", "SpatialOrbitalSystem", "GeneralOrbitalSystem")
    L = Lint(K.program).run()
    K.extra["resolution"] = L.count
    for m in L.mods.values():
        for rule, text in RULES.items():
            bad = [b for b in L.bad if b[0] == rule and b[1] == m.path]
            if not bad:
                K.add(m.path, text, "proved")
            for k, (_, path, fn_, line, why) in enumerate(bad):
                K.add(m.path, f"{text} ({fn_}: {why})", "violated", why, (path, fn_, line))

    def ok(S, r):
        return r.exc not in RESOLVE

    def make():
        om = lambda S: S.par("omega", 0)
        R = lambda S: S.par("Rmax", lo=0)

        def td(cls, stub=two_dim_stubs, **kw):
            def f(S):
                stub(S)
                return S.new(cls, S.l, R(S), S.G, **{k: v(S) for k, v in kw.items()})
            return f

        def odqd(pot):
            def f(S):
                S.assume(ge0(S.G - 2 - S.l))
                return S.new("ODQD", S.l, S.par("L", lo=0), S.G, **({"potential": potentials(S)[pot]()} if pot else {}))
            return f
        return {
            "BasisSet": lambda S: S.basis(2, "c", False),
            "RandomBasisSet": lambda S: S.new("RandomBasisSet", S.l, 2),
            "ODQD": odqd(None),
            "ODHO": lambda S: S.new("quantum_dots.one_dim.one_dim_qd.ODHO", S.l, S.par("L", lo=0), S.G, omega=om(S)),
            "ODSincDVR[4d]": lambda S: S.new("ODSincDVR", S.l, S.par("L", lo=0), u_repr="4d"),
            "ODSincDVR[2d]": lambda S: S.new("ODSincDVR", S.l, S.par("L", lo=0), u_repr="2d"),
            "TwoDimensionalHarmonicOscillator": td("TwoDimensionalHarmonicOscillator", omega=om),
            "TwoDimensionalDoubleWell": td("TwoDimensionalDoubleWell", omega=om, barrier_strength=lambda S: S.par("bs"), axis=lambda S: 0),
            "TwoDimSmoothDoubleWell": td("TwoDimSmoothDoubleWell", omega=om),
            "TwoDimHarmonicOscB": td("TwoDimHarmonicOscB", bstubs, omega=om, omega_c=lambda S: S.par("omega_c")),
        }

    def leaves(mk):
        """the constructed object with arbitrary elements of the same shapes (resolution does not depend on their values)"""
        def f(S):
            b = mk(S)
            if isinstance(b, Obj):
                for nm in ("h", "s", "u", "dipole_moment", "spf"):
                    v = S.get(b, nm)
                    if isinstance(v, Arr):
                        S.set(b, nm, S.arr(nm, v.shape, S.I.S.cells[v.cell].dt))
            return b
        return f

    def as_basis(mk):
        mk = leaves(mk)

        def f(S):
            b = mk(S)
            l = S.l
            C = S.arr("C", (l, S.lp))
            S.true("is constructed", isinstance(b, Obj), f"{b!r}")
            S.call(b, "copy_basis")
            S.call(b, "get_transformed_h", C)
            S.call(b, "get_transformed_u", C)
            S.call(b, "cast_to_complex")
            if S.get(b, "spf") is not None:
                S.call(b, "compute_particle_density", S.arr("rho", (l, l)))
            S.call(b, "change_module", NP)
            S.call(b, "change_basis", C)
            S.call(b, "change_basis", S.arr("C2", (S.lp, S.lp)), C_tilde=S.arr("C2t", (S.lp, S.lp)))
            S.call(b, "change_to_general_orbital_basis", anti_symmetrize=False)
            S.call(b, "anti_symmetrize_two_body_elements")
            for nm in ALL + PROPS:
                S.get(b, nm)
            S.call(b, "copy_basis")
            S.true("the interface of its base class is usable", True)
        return f

    def as_system(mk, general):
        mk = leaves(mk)

        def f(S):
            b = mk(S)
            S.assume(ge0(S.l - S.n))
            S.assume(ge0(S.lp - S.n))
            t = Sc(sym(T1), "f")
            E, _ = strength(S, "callable", "E")
            if general:
                s = S.new("GeneralOrbitalSystem", S.n, b)
                l, lp = 2 * S.l, 2 * S.lp
            else:
                s = S.new("SpatialOrbitalSystem", 2 * S.n, b)
                l, lp = S.l, S.lp
            if S.get(b, "dipole_moment") is not None:
                S.call(s, "set_time_evolution_operator", S.new(OPS + "LaserField", E))
            S.call(s, "change_basis", S.arr("C", (l, lp)), C_tilde=S.arr("Ct", (lp, l)))
            for nm in ("grid", "h", "u", "s", "dipole_moment", "spf", "bra_spf", "nuclear_repulsion_energy", "has_one_body_time_evolution_operator", "has_two_body_time_evolution_operator"):
                S.get(s, nm)
            S.call(s, "h_t", t)
            S.call(s, "u_t", t)
            S.call(s, "transform_one_body_elements", S.arr("x", (lp, lp)), S.arr("C3", (lp, lp)))
            four = len(S.get(s, "u").shape) == 4
            if four:
                S.call(s, "transform_two_body_elements", S.get(s, "u"), S.arr("C3", (lp, lp)))
                S.call(s, "construct_fock_matrix", S.get(s, "h"), S.get(s, "u"))
                S.call(s, "compute_reference_energy")
            if S.get(s, "spf") is not None:
                S.call(s, "compute_particle_density", S.arr("rho", (lp, lp)))
            S.call(s, "copy_system")
            S.call(s, "change_module", NP)
            if not general:
                g = S.call(s, "construct_general_orbital_system")
                for nm in ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"):
                    S.get(g, nm)
                S.call(g, "h_t", t)
            S.true("the interface of a system is usable", True)
        return f
    small = (dict(l=2, lp=2, n=1, G=4), dict(l=3, lp=2, n=1, G=5))
    for nm, mk in make().items():
        K.run(f"{nm} as a BasisSet", as_basis(mk), raises_ok=ok, concrete=small)
        K.run(f"{nm} in a SpatialOrbitalSystem", as_system(mk, False), raises_ok=ok, concrete=small)
        K.run(f"{nm} in a GeneralOrbitalSystem", as_system(mk, True), raises_ok=ok, concrete=small)
