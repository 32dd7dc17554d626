"""Time evolution, copies, caller arrays, module change, sizes, closed-shell to general systems."""
from . import check
from .core import *
from ..alg import conj, fn, bgate

T1, T2 = "t1", "t2"
OPS = Q + "time_evolution_operators."


def mksys(S, kind, dim=1, spin=None, dt="c", n=None, absent=()):
    spin = kind == "GeneralOrbitalSystem" if spin is None else spin
    n = S.n if n is None else n
    b = S.basis(dim, dt, spin, absent)
    S.assume(ge0(S.l - n))
    s = S.new(kind, n if kind == "GeneralOrbitalSystem" else 2 * n, b, **({"anti_symmetrize": False} if kind == "GeneralOrbitalSystem" else {}))
    return s, b


def strength(S, how, name):
    """(value handed in, term at time t)"""
    if how == "callable":
        f = LeafFn(name, None, True)
        return f, lambda t: fn(name, (t,))
    if how == "complex callable":
        f = LeafFn(name + "c", None, False)
        return f, lambda t: fn(name + "c", (t,))
    c = sym(name + "0")
    return Sc(c, "f"), lambda t: c


def polarisation(S, how, dim):
    if how == "default":
        return None, lambda t, i: eq0(i)
    if how == "array":
        a = S.arr("eps", (P(dim),), "f")
        e = S.el(a)
        return a, lambda t, i: e(i)
    if how == "list":
        cs = [sym(f"eps{k}") for k in range(dim)]
        return S.I.newlist([Sc(c, "f") for c in cs]), lambda t, i: sum((cs[k] * eq0(i - k) for k in range(dim)), ZERO)
    f = LeafFn("epsf", (P(dim),), True)
    return f, lambda t, i: fn("epsf", (t, i))


@check("C09", "value-flow of h_t/u_t for every operator, constant or callable strengths, several times and histories: returned terms equal the documented combination of the "
              "current elements; write set of the calls empty; one-/two-body flags")
def c09(K):
    K.require("QuantumSystem.h_t", "QuantumSystem.u_t", "time_evolution_operators.LaserField", "time_evolution_operators.AdiabaticSwitching",
              "time_evolution_operators.CustomOneBodyOperator")

    def flags(S, s, one, two):
        S.eqs("has_one_body_time_evolution_operator", S.get(s, "has_one_body_time_evolution_operator"), P(int(one)))
        S.eqs("has_two_body_time_evolution_operator", S.get(s, "has_two_body_time_evolution_operator"), P(int(two)))

    def times():
        return [(T1, sym(T1)), (T2, sym(T2)), (T1 + " again", sym(T1))]

    def nochange(S, s, spin, snap, w):
        ws = [x for x in S.I.S.writes[w:] if x[1] is not None]
        S.true("no element is written", not ws, f"writes to {ws[0][1]}" if ws else "", ws[0][2] if ws else None)
        for nm in ("h", "u", "dipole_moment"):
            S.held_eq("stored " + nm, s, nm, snap)

    def none(kind):
        def f(S):
            s, b = mksys(S, kind)
            snap = S.snap(s, ("h", "u", "dipole_moment"))
            for lab, t in times():
                S.same_as("h_t", S.call(s, "h_t", Sc(t, "f")), snap["h"])
                S.same_as("u_t", S.call(s, "u_t", Sc(t, "f")), snap["u"])
            flags(S, s, False, False)
            B = Basis(S, True)
            S.assume(ge0(S.lp - S.n))
            S.call(s, "change_basis", B.C, **B.kw())
            S.eq("h_t after a basis change", S.call(s, "h_t", Sc(sym(T1), "f")), (S.lp,) * 2, B.one(snap["h"][0]))
            S.eq("u_t after a basis change", S.call(s, "u_t", Sc(sym(T1), "f")), (S.lp,) * 4, B.two(snap["u"][0]))
        return f
    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        K.run(f"{kind}[no operator]", none(kind))

    def laser(kind, pulse, pol, dim, change=False, early=False):
        def f(S):
            s, b = mksys(S, kind, dim)
            E, e = strength(S, pulse, "E")
            V, v = polarisation(S, pol, dim)
            op = S.new(OPS + "LaserField", E, **({} if V is None else {"polarization_vector": V}))
            S.call(s, "set_time_evolution_operator", op)
            l = S.l
            if change:
                if early:
                    S.call(s, "h_t", Sc(sym(T2), "f"))
                B = Basis(S, True)
                S.assume(ge0(S.lp - S.n))
                S.call(s, "change_basis", B.C, **B.kw())
                l = S.lp
            snap = S.snap(s, ("h", "u", "dipole_moment"))
            h, d = snap["h"][0], snap["dipole_moment"][0]
            w = len(S.I.S.writes)
            for lab, t in times():
                S.eq(f"h_t({lab})", S.call(s, "h_t", Sc(t, "f")), (l, l), lambda p, q: h(p, q) + e(t) * S.sum((dim,), lambda i: v(t, i) * d(i, p, q)),
                     loc=anchor(S, "time_evolution_operators.operator.LaserField.h_t"))
                S.same_as(f"u_t({lab})", S.call(s, "u_t", Sc(t, "f")), snap["u"])
            flags(S, s, True, False)
            nochange(S, s, False, snap, w)
        return f
    for pol in ("default", "array", "list", "callable"):
        for pulse in ("callable", "constant"):
            for dim in (1, 2):
                K.run(f"SpatialOrbitalSystem[laser,pulse={pulse},polarisation={pol},dim={dim}]", laser("SpatialOrbitalSystem", pulse, pol, dim))
    K.run("GeneralOrbitalSystem[laser,default polarisation]", laser("GeneralOrbitalSystem", "callable", "default", 2))
    K.run("GeneralOrbitalSystem[laser,dim=3]", laser("GeneralOrbitalSystem", "callable", "callable", 3))
    K.run("GeneralOrbitalSystem[laser,complex pulse]", laser("GeneralOrbitalSystem", "complex callable", "array", 1))
    K.run("GeneralOrbitalSystem[laser,after a basis change]", laser("GeneralOrbitalSystem", "callable", "array", 2, True))
    K.run("GeneralOrbitalSystem[laser used before a basis change]", laser("GeneralOrbitalSystem", "callable", "default", 2, True, True))
    K.run("SpatialOrbitalSystem[laser used before a basis change]", laser("SpatialOrbitalSystem", "constant", "default", 1, True, True))

    def adiabatic(kind, how, change=False):
        def f(S):
            s, b = mksys(S, kind)
            A, a = strength(S, how, "f")
            S.call(s, "set_time_evolution_operator", S.new(OPS + "AdiabaticSwitching", A))
            l = S.l
            if change:
                S.call(s, "u_t", Sc(sym(T2), "f"))
                B = Basis(S, True)
                S.assume(ge0(S.lp - S.n))
                S.call(s, "change_basis", B.C, **B.kw())
                l = S.lp
            snap = S.snap(s, ("h", "u", "dipole_moment"))
            u = snap["u"][0]
            w = len(S.I.S.writes)
            for lab, t in times():
                S.eq(f"u_t({lab})", S.call(s, "u_t", Sc(t, "f")), (l,) * 4, lambda p, q, r, x: a(t) * u(p, q, r, x),
                     loc=anchor(S, "time_evolution_operators.operator.AdiabaticSwitching.u_t"))
                S.same_as(f"h_t({lab})", S.call(s, "h_t", Sc(t, "f")), snap["h"])
            flags(S, s, False, True)
            nochange(S, s, False, snap, w)
        return f

    def custom(kind, how, change=False):
        def f(S):
            s, b = mksys(S, kind)
            A, a = strength(S, how, "w")
            l = S.l
            if change:
                B = Basis(S, True)
                S.assume(ge0(S.lp - S.n))
                S.call(s, "change_basis", B.C, **B.kw())
                l = S.lp
            O = S.arr("O", (l, l))
            o = S.el(O)
            S.call(s, "set_time_evolution_operator", S.new(OPS + "CustomOneBodyOperator", A, O))
            snap = S.snap(s, ("h", "u", "dipole_moment"))
            h = snap["h"][0]
            w = len(S.I.S.writes)
            for lab, t in times():
                S.eq(f"h_t({lab})", S.call(s, "h_t", Sc(t, "f")), (l, l), lambda p, q: h(p, q) + a(t) * o(p, q),
                     loc=anchor(S, "time_evolution_operators.operator.CustomOneBodyOperator.h_t"))
                S.same_as(f"u_t({lab})", S.call(s, "u_t", Sc(t, "f")), snap["u"])
            flags(S, s, True, False)
            nochange(S, s, False, snap, w)
        return f
    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        for how in ("callable", "constant", "complex callable"):
            K.run(f"{kind}[adiabatic switching,{how}]", adiabatic(kind, how))
            K.run(f"{kind}[custom operator,{how}]", custom(kind, how))
        K.run(f"{kind}[adiabatic switching,after a basis change]", adiabatic(kind, "callable", True))
        K.run(f"{kind}[custom operator,after a basis change]", custom(kind, "callable", True))

    def replaced(S):
        s, b = mksys(S, "SpatialOrbitalSystem", 2)
        snap = S.snap(s, ("h", "u", "dipole_moment"))
        E, e = strength(S, "callable", "E")
        S.call(s, "set_time_evolution_operator", S.new(OPS + "LaserField", E))
        t = sym(T1)
        S.call(s, "h_t", Sc(t, "f"))
        A, a = strength(S, "callable", "f")
        S.call(s, "set_time_evolution_operator", S.new(OPS + "AdiabaticSwitching", A))
        S.same_as("h_t after replacing the operator", S.call(s, "h_t", Sc(t, "f")), snap["h"])
        u = snap["u"][0]
        S.eq("u_t after replacing the operator", S.call(s, "u_t", Sc(t, "f")), (S.l,) * 4, lambda p, q, r, x: a(t) * u(p, q, r, x))
        flags(S, s, False, True)
        S.call(s, "set_time_evolution_operator", None)
        S.same_as("h_t after removing the operator", S.call(s, "h_t", Sc(t, "f")), snap["h"])
        S.same_as("u_t after removing the operator", S.call(s, "u_t", Sc(t, "f")), snap["u"])
    K.run("replacing and removing the operator", replaced)

    def twosys(S):
        """two systems with equal operators do not influence one another"""
        s1, b1 = mksys(S, "SpatialOrbitalSystem", 2)
        b2 = S.basis(2, "c", False, tag="2")
        s2 = S.new("SpatialOrbitalSystem", 2 * S.n, b2)
        t = sym(T1)
        for k, s in ((1, s1), (2, s2)):
            E, e = strength(S, "callable", f"E{k}")
            S.call(s, "set_time_evolution_operator", S.new(OPS + "LaserField", E))
        for k, s in ((1, s1), (2, s2), (1, s1)):
            h, d = S.el(S.get(s, "h")), S.el(S.get(s, "dipole_moment"))
            S.eq(f"h_t of system {k}", S.call(s, "h_t", Sc(t, "f")), (S.l,) * 2, lambda p, q: h(p, q) + fn(f"E{k}", (t,)) * d(ZERO, p, q))
    K.run("two systems", twosys)


# ------------------------------------------------------------------ reachability and structural comparison
def reach(I, v, seen=None, skip=()):
    """ids of mutable things reachable from v (functions, classes and modules are atomic)"""
    seen = {} if seen is None else seen

    def go(x, path):
        if isinstance(x, Arr):
            seen.setdefault(("array", x.cell), path)
        elif isinstance(x, Obj):
            k = ("object", x.id)
            if k in seen or k in skip:
                return
            seen[k] = path
            for a, y in I.S.objs[x.id].items():
                go(y, path + "." + a)
        elif isinstance(x, ListR):
            k = ("list", x.id)
            if k in seen:
                return
            seen[k] = path
            for j, y in enumerate(I.S.lists[x.id]):
                go(y.value if isinstance(y, Seg) else y, f"{path}[{j}]")
        elif isinstance(x, DictR):
            k = ("dict", x.id)
            if k in seen:
                return
            seen[k] = path
            for a, y in I.S.dicts[x.id].items():
                go(y, f"{path}[{a!r}]")
        elif isinstance(x, tuple):
            for j, y in enumerate(x):
                go(y, f"{path}[{j}]")
        elif isinstance(x, Bound):
            go(x.self, path)
        elif isinstance(x, Partial):
            for y in x.args:
                go(y, path)
    go(v, type(v).__name__ if not isinstance(v, Obj) else v.cls.name)
    return seen


def public(I, o):
    return sorted(a for a in I.S.objs[o.id] if not a.startswith("_"))


PROPS = ("includes_spin", "anti_symmetrized_u", "nuclear_repulsion_energy", "grid", "sigma_x", "sigma_y", "sigma_z")


def freeze_deep(S, v, seen=None, depth=0):
    """structural snapshot of a value"""
    I = S.I
    seen = {} if seen is None else seen
    if isinstance(v, Arr):
        return ("arr", v.shape, elems(I, v), I.S.cells[v.cell].dt)
    if isinstance(v, Obj):
        if v.id in seen:
            return ("ref", seen[v.id])
        seen[v.id] = len(seen)
        return ("obj", v.cls, {a: freeze_deep(S, I.S.objs[v.id][a], seen, depth + 1) for a in public(I, v)})
    if isinstance(v, ListR):
        return ("list", [freeze_deep(S, x, seen, depth + 1) for x in I.S.lists[v.id]])
    if isinstance(v, tuple):
        return ("list", [freeze_deep(S, x, seen, depth + 1) for x in v])
    if isinstance(v, DictR):
        return ("dict", {k: freeze_deep(S, x, seen, depth + 1) for k, x in I.S.dicts[v.id].items()})
    return ("val", v)


def cmp_deep(S, name, v, fz, seen=None):
    """v has the structure frozen in fz"""
    I = S.I
    seen = {} if seen is None else seen
    k = fz[0]
    if k == "arr":
        S.eq(name, v, fz[1], fz[2])
        if isinstance(v, Arr):
            S.true(name + " element type", I.S.cells[v.cell].dt == fz[3], f"{I.S.cells[v.cell].dt} instead of {fz[3]}")
    elif k == "ref":
        S.true(name, isinstance(v, Obj) and seen.get(v.id) == fz[1], "refers to a different object")
    elif k == "obj":
        if not isinstance(v, Obj):
            return S.true(name, False, f"{v!r} instead of a {fz[1].name}")
        if v.id in seen:
            return
        seen[v.id] = len(seen)
        S.true(name + " class", v.cls is fz[1], f"{v.cls.name} instead of {fz[1].name}")
        for a, x in fz[2].items():
            if a not in I.S.objs[v.id]:
                S.true(f"{name}.{a}", False, "attribute missing")
            else:
                cmp_deep(S, f"{name}.{a}", I.S.objs[v.id][a], x, seen)
    elif k == "list":
        items = list(v) if isinstance(v, tuple) else I.S.lists[v.id] if isinstance(v, ListR) else None
        if items is None or len(items) != len(fz[1]):
            if isinstance(v, Arr):
                return S.unknown(name, "sequence became an array")
            return S.true(name, False, f"{v!r} instead of a sequence of length {len(fz[1])}")
        for j, (x, y) in enumerate(zip(items, fz[1])):
            cmp_deep(S, f"{name}[{j}]", x, y, seen)
    elif k == "dict":
        if not isinstance(v, DictR) or set(I.S.dicts[v.id]) != set(fz[1]):
            return S.true(name, False, f"{v!r} instead of a dictionary")
        for a, y in fz[1].items():
            cmp_deep(S, f"{name}[{a!r}]", I.S.dicts[v.id][a], y, seen)
    else:
        w = fz[1]
        if isinstance(w, (Sc, int, float, bool)) and not isinstance(w, bool):
            return S.eqs(name, v, S.I.sc(w).p)
        if isinstance(w, SliceV):
            return S.true(name, isinstance(v, SliceV) and I.vkey(v) == I.vkey(w), f"{v!r}")
        if isinstance(w, (Opq, Top)):
            return S.true(name, True)
        S.true(name, v is w or v == w or I.vkey(v) == I.vkey(w), f"{v!r} instead of {w!r}")


def holder(S, o):
    """observable snapshot of a basis set or system"""
    I = S.I
    out = {}
    names = list(ALL) + list(PROPS)
    for nm in names:
        c, _ = o.cls.find(nm)
        if c is None and nm not in I.S.objs[o.id]:
            continue
        out[nm] = freeze_deep(S, S.get(o, nm))
    for a in public(I, o):
        out[a] = freeze_deep(S, I.S.objs[o.id][a])
    return out


def cmp_holder(S, pre, o, fz, skip=()):
    for nm, x in fz.items():
        if nm in skip:
            continue
        try:
            v = S.get(o, nm)
        except Raised as r:
            S.true(pre + nm, False, f"{r.exc}: {r.msg}", r.loc)
            continue
        if x[0] == "val" and isinstance(x[1], Ext):
            S.true(pre + nm, v == x[1], f"{v!r} instead of {x[1]!r}", S.wloc(None, o, nm))
        else:
            cmp_deep(S, pre + nm, v, x)


def disjoint(S, name, a, b):
    ra, rb = reach(S.I, a), reach(S.I, b)
    sh = [k for k in ra if k in rb]
    if sh:
        k = sh[0]
        loc = None
        if k[0] == "array":
            loc = S.I.S.cells[k[1]].loc
        S.true(name, False, f"both hold the same {k[0]}: {ra[k]} and {rb[k]}", loc)
    else:
        S.true(name, True, f"{len(ra)} against {len(rb)} mutable objects")


POT = Q + "quantum_dots.one_dim.one_dim_potentials."


def potentials(S):
    p = lambda n, lo=None: S.par(n, lo)
    return {
        "HOPotential": lambda: S.new(POT + "HOPotential", p("om")),
        "DWPotential": lambda: S.new(POT + "DWPotential", p("om"), p("pl")),
        "DWPotentialSmooth": lambda: S.new(POT + "DWPotentialSmooth", p("pa", 0)),
        "SymmetricDWPotential": lambda: S.new(POT + "SymmetricDWPotential", p("pa"), p("pb"), p("pc")),
        "AsymmetricDWPotential": lambda: S.new(POT + "AsymmetricDWPotential", p("pa"), p("pb"), p("pc")),
        "GaussianPotential": lambda: S.new(POT + "GaussianPotential", p("pw"), p("pc"), p("pd", 0), NP),
        "GaussianPotentialHardWall": lambda: S.new(POT + "GaussianPotentialHardWall", p("pw"), p("pc"), p("pd", 0), p("px", 0)),
        "AtomicPotential": lambda: S.new(POT + "AtomicPotential", p("pz"), p("pc", 0)),
    }


def coulomb_int(args):
    """the dimensionless Coulomb integral of four (n, m) pairs as an uninterpreted function with the symmetries of the integral"""
    args = tuple(P(a) for a in args)
    m = args[1::2]
    alg.FN_REAL.add("coulomb_ho")
    return eq0(m[0] + m[1] - m[2] - m[3]) * fn("coulomb_ho", args)


def two_dim_stubs(S, tables=True):
    """quantum numbers and dimensionless Coulomb elements as uninterpreted tables (C20, C25, C26 decide them)"""
    H = Q + "quantum_dots.two_dim.two_dim_helper."
    I = S.I
    alg.FN_INT.update(("qn_n", "qn_m"))
    alg.FN_SIGNED.add("qn_m")
    alg.FN_REAL.update(("qn_n", "qn_m"))

    def nm(I_, bound):
        p = I_.poly(list(bound.values())[0])
        return (I_.norm(Sc(fn("qn_n", (p,)), "i")), I_.norm(Sc(fn("qn_m", (p,)), "i")))

    def coul(I_, bound):
        n = I_.poly(list(bound.values())[0])
        return I_.mk((n,) * 4, lambda ix: el("coulomb", ix), "f")
    alg.LEAF_REAL["coulomb"] = True
    I.intercepts[H + "get_indices_nm"] = nm
    I.intercepts[H + "_get_coulomb_elements"] = coul
    I.intercepts[H + "get_coulomb_elements"] = coul


@check("C10", "abstract heap: reachable mutable state of copy and original is disjoint, every observable of the copy equals the original's, the original keeps its values and module; "
              "for every basis set class, potential and operator")
def c10(K):
    K.require("basis_set.BasisSet.copy_basis", "QuantumSystem.copy_system")

    def cp(S, o, how):
        I = S.I
        before = holder(S, o)
        c = S.call(o, how)
        if not isinstance(c, Obj):
            S.true("returns an object", False, f"{c!r}")
            return None
        S.true("same class", c.cls is o.cls, f"{c.cls.name} instead of {o.cls.name}")
        S.true("is a different object", c != o, "the original itself is returned")
        cmp_holder(S, "copy.", c, before)
        cmp_holder(S, "original.", o, before)
        disjoint(S, "shares no mutable state", o, c)
        return c

    def basis(dim, spin, absent=(), kw=None):
        def f(S):
            b = S.basis(dim, "c", spin, absent, kw=kw)
            cp(S, b, "copy_basis")
        return f
    K.run("BasisSet", basis(2, False))
    K.run("BasisSet[spin]", basis(1, True))
    K.run("BasisSet[antisymmetrised]", basis(1, True, (), {"anti_symmetrized_u": True}))
    K.run("BasisSet[few quantities]", basis(1, False, ("s", "dipole_moment", "spf")))

    def converted(S):
        b = S.basis(1, "c", False, ("dipole_moment",))
        S.call(b, "change_to_general_orbital_basis")
        cp(S, b, "copy_basis")
    K.run("BasisSet[converted to general orbitals]", converted)

    def usable(S):
        b = S.basis(1, "c", True)
        snap = S.snap(b, ALL)
        c = S.call(b, "copy_basis")
        B = Basis(S, True)
        S.call(c, "change_basis", B.C, **B.kw())
        for nm in ALL:
            S.held_eq("original " + nm, b, nm, snap)
        for nm in ("h", "u", "spf", "spin_z"):
            S.eq("transformed copy " + nm, S.get(c, nm), S.shapes(S.lp, 1)[nm], B.of(nm, snap[nm][0]))
        S.call(b, "change_basis", B.C, **B.kw())
        for nm in ("h", "u", "spf", "spin_z"):
            S.eq("transformed original " + nm, S.get(b, nm), S.shapes(S.lp, 1)[nm], B.of(nm, snap[nm][0]))
    K.run("basis change of copy and original", usable)

    def random(S):
        cp(S, S.new("RandomBasisSet", S.l, 2), "copy_basis")
    K.run("RandomBasisSet", random)

    def odqd(pot):
        def f(S):
            S.assume(ge0(S.G - 2 - S.l))
            b = S.new("ODQD", S.l, S.par("L", lo=0), S.G, potential=potentials(S)[pot]())
            cp(S, b, "copy_basis")
        return f
    for pot in ("HOPotential", "DWPotential", "DWPotentialSmooth", "SymmetricDWPotential", "AsymmetricDWPotential", "GaussianPotential", "GaussianPotentialHardWall", "AtomicPotential"):
        K.run(f"ODQD[{pot}]", odqd(pot))

    def odho(S):
        cp(S, S.new("quantum_dots.one_dim.one_dim_qd.ODHO", S.l, S.par("L", lo=0), S.G, omega=S.par("omega", 0)), "copy_basis")
    K.run("ODHO", odho)

    def dvr(repr_, pot):
        def f(S):
            b = S.new("ODSincDVR", S.l, S.par("L", lo=0), u_repr=repr_, **({"potential": potentials(S)[pot]()} if pot else {}))
            cp(S, b, "copy_basis")
        return f
    for repr_ in ("2d", "4d"):
        K.run(f"ODSincDVR[{repr_}]", dvr(repr_, None))
        K.run(f"ODSincDVR[{repr_},GaussianPotential]", dvr(repr_, "GaussianPotential"))

    def td(S):
        two_dim_stubs(S)
        cp(S, S.new("TwoDimensionalHarmonicOscillator", S.l, S.par("L", lo=0), S.G, omega=S.par("omega", 0)), "copy_basis")
    K.run("TwoDimensionalHarmonicOscillator", td)

    def system(kind, op, dim=2, used=False):
        def f(S):
            s, b = mksys(S, kind, dim)
            h0, u0, d0 = (S.el(S.get(s, x)) for x in ("h", "u", "dipole_moment"))
            O = None
            if op == "laser":
                E, e = strength(S, "callable", "E")
                S.call(s, "set_time_evolution_operator", S.new(OPS + "LaserField", E))
            elif op == "laser array":
                E, e = strength(S, "constant", "E")
                S.call(s, "set_time_evolution_operator", S.new(OPS + "LaserField", E, polarization_vector=S.arr("eps", (P(dim),), "f")))
            elif op == "adiabatic":
                E, e = strength(S, "callable", "f")
                S.call(s, "set_time_evolution_operator", S.new(OPS + "AdiabaticSwitching", E))
            elif op == "custom":
                E, e = strength(S, "callable", "w")
                O = S.arr("O", (S.l, S.l))
                S.call(s, "set_time_evolution_operator", S.new(OPS + "CustomOneBodyOperator", E, O))
            t = Sc(sym(T1), "f")
            tt = sym(T1)
            if used and op:
                S.call(s, "h_t", t)
            c = cp(S, s, "copy_system")
            if c is None:
                return
            cb, ob = S.get(c, "h"), S.get(s, "h")
            sizes_of(S, c, S.n, S.l, "copy ")
            for nm in ("has_one_body_time_evolution_operator", "has_two_body_time_evolution_operator"):
                S.eqs("copy " + nm, S.get(c, nm), S.I.sc(S.get(s, nm)).p)
            # the copy's operator follows the copy
            B = Basis(S, True)
            S.assume(ge0(S.lp - S.n))
            before = (freeze_deep(S, S.call(s, "h_t", t)), freeze_deep(S, S.call(s, "u_t", t)))
            if op != "custom":
                S.call(c, "change_basis", B.C, **B.kw())
                h1, u1, d1 = B.one(h0), B.two(u0), B.dip(d0)
                want = h1
                if op == "laser":
                    want = lambda p, q: h1(p, q) + e(tt) * d1(ZERO, p, q)
                elif op == "laser array":
                    want = lambda p, q: h1(p, q) + e(tt) * S.sum((dim,), lambda i: el("eps", (i,)) * d1(i, p, q))
                S.eq("h_t of the transformed copy", S.call(c, "h_t", t), (S.lp,) * 2, want)
                S.eq("u_t of the transformed copy", S.call(c, "u_t", t), (S.lp,) * 4, (lambda p, q, r, x: e(tt) * u1(p, q, r, x)) if op == "adiabatic" else u1)
            else:
                S.eq("h_t of the copy", S.call(c, "h_t", t), (S.l,) * 2, lambda p, q: h0(p, q) + e(tt) * el("O", (p, q)))
            cmp_deep(S, "h_t of the original", S.call(s, "h_t", t), before[0])
            cmp_deep(S, "u_t of the original", S.call(s, "u_t", t), before[1])
        return f
    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        for op in (None, "laser", "laser array", "adiabatic", "custom"):
            K.run(f"{kind}[operator={op}]", system(kind, op))
        K.run(f"{kind}[operator=laser,used]", system(kind, "laser", 2, True))
        K.run(f"{kind}[operator=custom,used]", system(kind, "custom", 1, True))

    def sysq(S):
        S.assume(ge0(S.G - 2 - S.l))
        S.assume(ge0(S.l - S.n))
        b = S.new("ODQD", S.l, S.par("L", lo=0), S.G, potential=potentials(S)["GaussianPotential"]())
        s = S.new("SpatialOrbitalSystem", 2 * S.n, b)
        cp(S, s, "copy_system")
    K.run("SpatialOrbitalSystem[ODQD with GaussianPotential]", sysq)


# ------------------------------------------------------------------ C11
@check("C11", "effect analysis: the write set of every public operation contains no array or list supplied by the caller and no array obtained from the object before the operation")
def c11(K):
    K.require("basis_set.BasisSet", "QuantumSystem")

    def clean(S, w, ev, what, allowed=()):
        ws = [x for x in S.I.S.writes[w:] if x[1] is not None and x[0] not in allowed]
        S.true(f"{what}: arrays", not ws, f"writes to {ws[0][1]}" if ws else "", ws[0][2] if ws else None)
        le = [x for x in S.I.S.events[ev:] if x[0] == "listset" and x[1] in getattr(S, "lists", ())]
        S.true(f"{what}: lists", not le, "writes to a list supplied by the caller", le[0][2] if le else None)

    def run(name, prep, action, what="nothing supplied or obtained earlier is written"):
        def f(S):
            S.lists = set()
            x = prep(S)
            w, ev = len(S.I.S.writes), len(S.I.S.events)
            r = action(S, x)
            clean(S, w, ev, what)
        K.run(name, f)

    def lists(S, *vs):
        for v in vs:
            if isinstance(v, ListR):
                S.lists.add(v.id)
        return vs

    sp = lambda S: S.basis(2, "c", False)
    so = lambda S: S.basis(1, "c", True)
    for dt in ("c", "f"):
        for spin in (False, True):
            b_ = lambda S, dt=dt, spin=spin: S.basis(1, dt, spin)
            run(f"change_basis[{dt},spin={spin}]", lambda S, b_=b_, dt=dt: (b_(S), Basis(S, True, dt)), lambda S, x: S.call(x[0], "change_basis", x[1].C, x[1].Ct))
            run(f"change_basis[{dt},spin={spin},default C_tilde]", lambda S, b_=b_, dt=dt: (b_(S), Basis(S, False, dt)), lambda S, x: S.call(x[0], "change_basis", x[1].C))
            run(f"compute_particle_density[{dt},spin={spin}]", lambda S, b_=b_, dt=dt: (b_(S), S.arr("rho", (S.l,) * 2, dt)), lambda S, x: S.call(x[0], "compute_particle_density", x[1]))
            run(f"compute_particle_density with C[{dt},spin={spin}]", lambda S, b_=b_, dt=dt: (b_(S), S.arr("rho", (S.lp,) * 2, dt), Basis(S, True, dt)),
                lambda S, x: S.call(x[0], "compute_particle_density", x[1], C=x[2].C, C_tilde=x[2].Ct))
            run(f"anti_symmetrize_two_body_elements[{dt},spin={spin}]", b_, lambda S, b: S.call(b, "anti_symmetrize_two_body_elements"))
            run(f"cast_to_complex[{dt},spin={spin}]", b_, lambda S, b: S.call(b, "cast_to_complex"))
            run(f"change_module[{dt},spin={spin}]", b_, lambda S, b: S.call(b, "change_module", Ext("xp")))
            run(f"copy_basis[{dt},spin={spin}]", b_, lambda S, b: S.call(b, "copy_basis"))
            run(f"transformed elements[{dt},spin={spin}]", lambda S, b_=b_, dt=dt: (b_(S), Basis(S, False, dt)),
                lambda S, x: (S.call(x[0], "get_transformed_h", x[1].C), S.call(x[0], "get_transformed_u", x[1].C)))
        run(f"change_to_general_orbital_basis[{dt}]", lambda S, dt=dt: S.basis(1, dt, False), lambda S, b: S.call(b, "change_to_general_orbital_basis"))
        run(f"change_to_general_orbital_basis[{dt},no antisymmetrisation]", lambda S, dt=dt: S.basis(1, dt, False), lambda S, b: S.call(b, "change_to_general_orbital_basis", anti_symmetrize=False))

    def vecs(S, arrays):
        (av, a_), (bv, b_) = spinvec(S, VECS["complex"][0]), spinvec(S, VECS["complex"][1])
        if arrays:
            av, bv = (S.I.call(Ext("numpy", "array"), [x], {}) for x in (av, bv))
            for x, n in ((av, "a"), (bv, "b")):
                S.I.S.cells[x.cell].label = n
        lists(S, av, bv)
        return {"a": av, "b": bv}
    for arrays in (True, False):
        run(f"spin vectors as {'arrays' if arrays else 'lists'}", lambda S, arrays=arrays: (S.basis(1, "c", False), vecs(S, arrays)), lambda S, x: S.call(x[0], "change_to_general_orbital_basis", **x[1]))

    def setters(S):
        b = S.new("basis_set.BasisSet", S.l, 1, np=NP, includes_spin=True)
        sh = S.shapes(S.l, 1)
        return b, [(nm, S.arr(nm, sh[nm], "f")) for nm in ALL]

    def assign(S, x):
        for nm, v in x[1]:
            S.set(x[0], nm, v)
            S.get(x[0], nm)
    run("assigning elements", setters, assign)

    stat = lambda S: S.I.get(Q + "basis_set.BasisSet")
    one = lambda S: (S.arr("X", (S.l,) * 2), Basis(S, True))
    run("transform_one_body_elements", one, lambda S, x: S.call(stat(S), "transform_one_body_elements", x[0], x[1].C, NP, C_tilde=x[1].Ct))
    run("transform_one_body_elements[real]", lambda S: (S.arr("X", (S.l,) * 2, "f"), Basis(S, False, "f")), lambda S, x: S.call(stat(S), "transform_one_body_elements", x[0], x[1].C, NP))
    run("transform_two_body_elements", lambda S: (S.arr("X", (S.l,) * 4), Basis(S, True)), lambda S, x: S.call(stat(S), "transform_two_body_elements", x[0], x[1].C, NP, C_tilde=x[1].Ct))
    run("transform_two_body_elements[default]", lambda S: (S.arr("X", (S.l,) * 4), Basis(S, False)), lambda S, x: S.call(stat(S), "transform_two_body_elements", x[0], x[1].C, NP))
    run("transform_spf", lambda S: (S.arr("X", (S.l, S.G)), Basis(S, True)), lambda S, x: (S.call(stat(S), "transform_spf", x[0], x[1].C, NP), S.call(stat(S), "transform_bra_spf", x[0], x[1].Ct, NP)))
    run("anti_symmetrize_u", lambda S: S.arr("X", (S.l,) * 4), lambda S, x: S.call(stat(S), "anti_symmetrize_u", x))
    for dt in ("c", "f"):
        run(f"add_spin helpers[{dt}]", lambda S, dt=dt: (S.arr("X", (S.l,) * 2, dt), S.arr("Y", (S.l,) * 4, dt), S.arr("Z", (S.l, S.G), dt)),
            lambda S, x: (S.call(stat(S), "add_spin_one_body", x[0], NP), S.call(stat(S), "add_spin_two_body", x[1], NP), S.call(stat(S), "add_spin_spf", x[2], NP), S.call(stat(S), "add_spin_bra_spf", x[2], NP)))
    run("setup_spin_squared_operator", lambda S: [S.arr(n, (S.l,) * 2) for n in ("SX", "SY", "SZ", "SS")], lambda S, x: S.call(stat(S), "setup_spin_squared_operator", *x, NP))
    run("setup_pauli_matrices", lambda S: [S.arr(n, (P(2), P(1))) for n in ("A", "B")], lambda S, x: S.call(stat(S), "setup_pauli_matrices", *x, NP))

    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        ms = lambda S, kind=kind: mksys(S, kind)[0]
        run(f"{kind}: compute_reference_energy", ms, lambda S, s: S.call(s, "compute_reference_energy"))
        run(f"{kind}: change_basis", lambda S, ms=ms: (ms(S), Basis(S, True), S.assume(ge0(S.lp - S.n))), lambda S, x: S.call(x[0], "change_basis", x[1].C, x[1].Ct))
        run(f"{kind}: copy_system", ms, lambda S, s: S.call(s, "copy_system"))
        run(f"{kind}: change_module", ms, lambda S, s: S.call(s, "change_module", Ext("xp")))
        run(f"{kind}: transform helpers", lambda S, ms=ms: (ms(S), S.arr("X", (S.l,) * 2), S.arr("Y", (S.l,) * 4), Basis(S, True)),
            lambda S, x: (S.call(x[0], "transform_one_body_elements", x[1], x[3].C, x[3].Ct), S.call(x[0], "transform_two_body_elements", x[2], x[3].C, x[3].Ct)))
        run(f"{kind}: particle density", lambda S, ms=ms: (ms(S), S.arr("rho", (S.lp,) * 2), Basis(S, True)), lambda S, x: S.call(x[0], "compute_particle_density", x[1], C=x[2].C, C_tilde=x[2].Ct))

        def fock(buf, dt, kind=kind):
            def f(S):
                S.lists = set()
                s, b = mksys(S, kind)
                H, U = S.arr("H", (S.l,) * 2, dt), S.arr("U", (S.l,) * 4, dt)
                FB = S.arr("F", (S.l,) * 2, dt) if buf else None
                w, ev = len(S.I.S.writes), len(S.I.S.events)
                r = S.call(s, "construct_fock_matrix", H, U, **({"f": FB} if buf else {}))
                clean(S, w, ev, "arguments and stored arrays", {FB.cell} if buf else ())
                if not buf:
                    S.true("result does not alias an argument", isinstance(r, Arr) and r.cell not in (H.cell, U.cell), "result aliases an argument")
            return f
        for buf in (True, False):
            for dt in ("c", "f"):
                K.run(f"{kind}: Fock matrix[output={buf},{dt}]", fock(buf, dt))
        for op, mk in (("laser", lambda S: S.new(OPS + "LaserField", LeafFn("E", None, True), polarization_vector=S.arr("eps", (P(1),), "f"))),
                       ("laser, constant", lambda S: S.new(OPS + "LaserField", S.par("E0"))),
                       ("adiabatic", lambda S: S.new(OPS + "AdiabaticSwitching", LeafFn("f", None, True))),
                       ("custom", lambda S: S.new(OPS + "CustomOneBodyOperator", LeafFn("w", None, True), S.arr("O", (S.l,) * 2)))):
            def prep(S, kind=kind, mk=mk):
                s, b = mksys(S, kind)
                S.call(s, "set_time_evolution_operator", mk(S))
                return s

            def act(S, s):
                for t in (T1, T2, T1):
                    S.call(s, "h_t", Sc(sym(t), "f"))
                    S.call(s, "u_t", Sc(sym(t), "f"))
            run(f"{kind}: {op}", prep, act)
    run("GeneralOrbitalSystem on a spatial basis", lambda S: (S.basis(1, "f", False), S.assume(ge0(2 * S.l - S.n))), lambda S, x: S.new("GeneralOrbitalSystem", S.n, x[0]))
    run("GeneralOrbitalSystem on a spin basis", lambda S: (S.basis(1, "f", True), S.assume(ge0(S.l - S.n))), lambda S, x: S.new("GeneralOrbitalSystem", S.n, x[0]))
    run("construct_general_orbital_system", lambda S: mksys(S, "SpatialOrbitalSystem")[0], lambda S, s: S.call(s, "construct_general_orbital_system"))
    for repr_ in ("2d", "4d"):
        dv = lambda S, repr_=repr_: sinc(S, repr_)
        run(f"ODSincDVR({repr_}): change_basis", lambda S, dv=dv: (dv(S), Basis(S, True)), lambda S, x: S.call(x[0], "change_basis", x[1].C, x[1].Ct))
        run(f"ODSincDVR({repr_}): conversion", dv, lambda S, b: S.call(b, "change_to_general_orbital_basis"))
        run(f"ODSincDVR({repr_}): set_u_repr", dv, lambda S, b, repr_=repr_: S.call(b, "set_u_repr", "4d" if repr_ == "2d" else "2d"))
        run(f"ODSincDVR({repr_}): antisymmetrise", dv, lambda S, b: S.call(b, "anti_symmetrize_two_body_elements"))
        run(f"ODSincDVR({repr_}): transform", lambda S, dv=dv: (dv(S), Basis(S, True), S.arr("X", (S.l,) * 2)), lambda S, x: S.call(x[0], "transform_two_body_elements", x[2], x[1].C, NP, C_tilde=x[1].Ct))

    def usern(S):
        """in-place work by the caller on results does not reach stored elements"""
        b = S.basis(1, "c", False)
        B = Basis(S, False)
        names = SPATIAL
        snap = S.snap(b, names)
        outs = [S.call(b, "get_transformed_h", B.C), S.call(b, "get_transformed_u", B.C), S.call(b, "compute_particle_density", S.arr("rho", (S.l,) * 2))]
        cells = {S.get(b, nm).cell for nm in names if nm != "bra_spf"}
        for nm, r in zip(("get_transformed_h", "get_transformed_u", "compute_particle_density"), outs):
            S.true(f"{nm} returns its own array", isinstance(r, Arr) and r.cell not in cells, "result aliases a stored array")
    K.run("results are not stored arrays", usern)


# ------------------------------------------------------------------ C12
@check("C12", "value-flow and module/element-type tags of every stored quantity after change_module and cast_to_complex, for all presence configurations; exhaustiveness over the listed quantities")
def c12(K):
    K.require("basis_set.BasisSet.change_module", "basis_set.BasisSet.cast_to_complex")
    XP = Ext("xp")

    def cm(dim, spin, absent, dt):
        def f(S):
            b = S.basis(dim, dt, spin, absent)
            names = names_of(spin)
            if "bra_spf" in absent:
                names = tuple(x for x in names if x != "bra_spf")
            snap = S.snap(b, names)
            S.call(b, "change_module", XP)
            S.true("np", S.get(b, "np") == XP, f"module is {S.get(b, 'np')!r}")
            for nm in names:
                v = S.get(b, nm)
                S.same_as(nm, v, snap[nm], b, nm)
                if snap[nm] is not None and isinstance(v, Arr):
                    S.true(nm + " converted", S.I.S.cells[v.cell].mod == "xp", f"{nm} still belongs to module {S.I.S.cells[v.cell].mod}", anchor(S, "basis_set.BasisSet.change_module"))
            S.eqs("l", S.get(b, "l"), S.l)
        return f
    confs = [(1, False, (), "c"), (2, False, (), "f"), (1, True, (), "c"), (1, False, ("s", "dipole_moment", "spf"), "c"), (1, False, ("bra_spf",), "c"), (1, True, ("spin_2_tb", "spin_2"), "c"),
             (1, True, ("spin_x", "spin_y", "spin_z", "dipole_moment"), "f"), (1, True, (), NarrowK("f", "float32")), (1, True, (), NarrowK("c", "complex64")), (2, False, (), "i")]
    for c in confs:
        K.run(f"change_module[dim={c[0]},spin={c[1]},without {','.join(c[2])},{c[3]}]", cm(*c))

    def cc(dim, spin, absent, dt):
        def f(S):
            b = S.basis(dim, dt, spin, absent)
            names = names_of(spin)
            if "bra_spf" in absent:
                names = tuple(x for x in names if x != "bra_spf")
            snap = S.snap(b, names)
            S.call(b, "cast_to_complex")
            for nm in names:
                v = S.get(b, nm)
                S.same_as(nm, v, snap[nm], b, nm)
                if snap[nm] is not None and isinstance(v, Arr):
                    S.true(nm + " complex", S.I.dt(v) == "c" and not (isinstance(S.I.dt(v), NarrowK) and not isinstance(dt, NarrowK)), f"{nm} has element kind {S.I.dt(v)}", anchor(S, "basis_set.BasisSet.cast_to_complex"))
        return f
    for c in confs + [(3, True, (), "f"), (1, True, (), "f")]:
        K.run(f"cast_to_complex[dim={c[0]},spin={c[1]},without {','.join(c[2])},{c[3]}]", cc(*c))

    def sysm(kind):
        def f(S):
            s, b = mksys(S, kind)
            names = names_of(kind == "GeneralOrbitalSystem")
            snap = S.snap(s, names)
            S.call(s, "change_module", XP)
            S.true("np of the system", S.get(s, "np") == XP, f"module is {S.get(s, 'np')!r}")
            S.true("np of the basis", S.get(b, "np") == XP, f"module is {S.get(b, 'np')!r}")
            for nm in names:
                v = S.get(s, nm)
                S.same_as(nm, v, snap[nm], b, nm)
                if isinstance(v, Arr):
                    S.true(nm + " converted", S.I.S.cells[v.cell].mod == "xp", f"{nm} still belongs to module {S.I.S.cells[v.cell].mod}")
            sizes_of(S, s, S.n, S.l)
        return f
    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        K.run(f"{kind}.change_module", sysm(kind))

    def later(S):
        """results computed afterwards come from the new module"""
        s, b = mksys(S, "GeneralOrbitalSystem")
        S.call(s, "change_module", XP)
        B = Basis(S, True)
        x = S.call(s, "transform_one_body_elements", S.get(s, "h"), B.C, B.Ct)
        S.true("transform_one_body_elements", S.I.S.cells[x.cell].mod == "xp", "computed by the old module")
        S.call(b, "change_basis", B.C, **B.kw())
        for nm in ("h", "u", "spf", "dipole_moment", "s"):
            v = S.get(b, nm)
            S.true(nm + " after a basis change", S.I.S.cells[v.cell].mod == "xp", "computed by the old module", S.wloc(v, b, nm))
    K.run("operations after change_module", later)

    def dvr(repr_, dt):
        def f(S):
            b = sinc(S, repr_, True, dt)
            names = ("h", "s", "u", "dipole_moment", "spf")
            snap = S.snap(b, names)
            S.call(b, "change_module", XP)
            S.true("np", S.get(b, "np") == XP, f"module is {S.get(b, 'np')!r}")
            for nm in names:
                v = S.get(b, nm)
                S.same_as(nm, v, snap[nm], b, nm)
                if repr_ == "4d" and isinstance(v, Arr):
                    S.true(nm + " converted", S.I.S.cells[v.cell].mod == "xp", f"{nm} still belongs to module {S.I.S.cells[v.cell].mod}")
            S.call(b, "cast_to_complex")
            for nm in names:
                v = S.get(b, nm)
                S.same_as(nm + " cast", v, snap[nm], b, nm)
                S.true(nm + " complex", isinstance(v, Arr) and S.I.dt(v) == "c", "not complex")
        return f
    for repr_ in ("2d", "4d"):
        K.run(f"ODSincDVR({repr_})", dvr(repr_, "f"))


# ------------------------------------------------------------------ C13
REJECT = ("AssertionError", "ValueError", "TypeError", "IndexError")


@check("C13", "path conditions: each accepting/rejecting partition of the setters and constructors is compared with the size predicate; sizes of systems as terms; no other quantity changes")
def c13(K):
    K.require("basis_set.BasisSet", "GeneralOrbitalSystem", "SpatialOrbitalSystem", "QuantumSystem.set_system_size")

    def verdict(S, what, ok, act, loc=None):
        """act() must be accepted iff the 0/1 term ok holds"""
        try:
            act()
        except Raised as r:
            if r.exc not in REJECT:
                S.true(what, False, f"raises {r.exc}: {r.msg}", r.loc)
                return False
            st, d = S.decide(ok, ZERO)
            S.ob(what, "proved" if st in ("proved", "held") else st, f"rejects sizes that match: {d}", r.loc)
            return False
        st, d = S.decide(ok, POLY1)
        S.ob(what, "proved" if st in ("proved", "held") else st, f"accepts sizes that do not match: {d}", loc)
        return True

    def dims(S, k):
        if S.W.conc:
            return [P(2 + (j % 2)) for j in range(k)]
        return [sym(f"d{j}", integer=True, lo=1) for j in range(k)]

    RANK = dict(h=2, s=2, u=4, spin_x=2, spin_y=2, spin_z=2, spin_2=2, spin_2_tb=4)

    def setter(nm, spin, vary):
        def f(S):
            b = S.basis(1, "c", spin)
            names = names_of(spin)
            snap = S.snap(b, names)
            r = RANK[nm]
            ds = [S.l] * r
            for j in vary:
                ds[j] = dims(S, r)[j]
            ok = POLY1
            for d in ds:
                ok = ok * eq0(d - S.l)
            new = S.arr("new", ds)
            acc = verdict(S, f"{nm} sizes", ok, lambda: S.set(b, nm, new), anchor(S, "basis_set.BasisSet"))
            for x in names:
                if x != nm or not acc:
                    S.held_eq(f"{x} afterwards", b, x, snap)
            if acc:
                S.eq(f"{nm} stored", S.get(b, nm), ds, S.el(new), obj=b, attr=nm)
            S.eqs("l", S.get(b, "l"), S.l)
        return f
    for nm, r in RANK.items():
        spin = nm.startswith("spin")
        for j in range(r):
            K.run(f"assign {nm}[axis {j}]", setter(nm, spin, [j]))
        K.run(f"assign {nm}[all axes]", setter(nm, spin, range(min(r, 3))))

    def nospin(nm):
        def f(S):
            b = S.basis(1, "c", False)
            snap = S.snap(b, SPATIAL)
            new = S.arr("new", (S.l,) * RANK[nm])
            verdict(S, f"{nm} on a basis without spin", ZERO, lambda: S.set(b, nm, new), anchor(S, "basis_set.BasisSet"))
            for x in SPATIAL:
                S.held_eq(f"{x} afterwards", b, x, snap)
            S.none(f"{nm} afterwards", S.get(b, nm))
        return f
    for nm in ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"):
        K.run(f"assign {nm} without spin", nospin(nm))

    def spf(nm, dim, axes, vary):
        def f(S):
            b = S.basis(dim, "c", False)
            snap = S.snap(b, SPATIAL)
            d0 = dims(S, 1)[0] if vary else S.l
            ok = eq0(d0 - S.l) if axes == dim else ZERO
            new = S.arr("new", (d0,) + (S.G,) * axes)
            acc = verdict(S, f"{nm} sizes", ok, lambda: S.set(b, nm, new), anchor(S, "basis_set.BasisSet"))
            for x in SPATIAL:
                if x != nm or not acc:
                    S.held_eq(f"{x} afterwards", b, x, snap)
            if acc:
                S.eq(f"{nm} stored", S.get(b, nm), (d0,) + (S.G,) * axes, S.el(new), obj=b, attr=nm)
        return f
    for nm in ("spf", "bra_spf"):
        for dim in (1, 2):
            for axes in (1, 2, 3):
                K.run(f"assign {nm}[dim={dim},{axes} grid axes]", spf(nm, dim, axes, axes == dim))

    def dip(dim, comps, vary):
        def f(S):
            b = S.basis(dim, "c", False)
            snap = S.snap(b, SPATIAL)
            ds = [S.l, S.l]
            if vary is not None:
                ds[vary] = dims(S, 2)[vary]
            ok = eq0(ds[0] - S.l) * eq0(ds[1] - S.l) if comps == dim else ZERO
            new = S.arr("new", (P(comps),) + tuple(ds))
            acc = verdict(S, "dipole_moment sizes", ok, lambda: S.set(b, "dipole_moment", new), anchor(S, "basis_set.BasisSet"))
            for x in SPATIAL:
                if x != "dipole_moment" or not acc:
                    S.held_eq(f"{x} afterwards", b, x, snap)
            if acc:
                S.eq("dipole_moment stored", S.get(b, "dipole_moment"), (P(comps),) + tuple(ds), S.el(new), obj=b, attr="dipole_moment")
        return f
    for dim in (1, 2, 3):
        for comps in (1, 2, 3):
            for vary in ((0, 1) if comps == dim else (None,)):
                K.run(f"assign dipole_moment[dim={dim},{comps} components,axis {vary}]", dip(dim, comps, vary))

    def diplist(S):
        """one bad component among good ones"""
        for k in range(3):
            b = S.basis(3, "c", False)
            snap = S.snap(b, SPATIAL)
            comps = [S.arr(f"c{j}", (S.l, S.l) if j != k else (S.l, S.l + 1)) for j in range(3)]
            acc = verdict(S, f"component {k} of wrong size", ZERO, lambda: S.set(b, "dipole_moment", S.I.newlist(comps)), anchor(S, "basis_set.BasisSet"))
            for x in SPATIAL:
                S.held_eq(f"{x} afterwards", b, x, snap)
    K.run("assign dipole_moment[one bad component]", diplist)

    def create(kind, spin):
        def f(S):
            b = S.basis(1, "c", spin)
            N = sym("N", integer=True, lo=0) if S.W.conc is None else P(3)
            box = []
            if kind == "GeneralOrbitalSystem":
                tot = S.l if spin else 2 * S.l
                ok = ge0(tot - N)
                n = N
            else:
                tot = S.l
                ok = ge0(2 * S.l - N) * eq0(fmod(N, P(2))) if not spin else ZERO
                n = fdiv(N, P(2))
            acc = verdict(S, "accepted particle numbers", ok, lambda: box.append(S.new(kind, N, b)), anchor(S, kind))
            if acc:
                sizes_of(S, box[0], n, tot)
        return f
    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        for spin in (True, False):
            K.run(f"create {kind}[spin={spin}]", create(kind, spin))

    def resize(kind):
        def f(S):
            s, b = mksys(S, kind)
            N = sym("N", integer=True, lo=0) if S.W.conc is None else P(2)
            L = sym("L2", integer=True, lo=0) if S.W.conc is None else P(4)
            acc = verdict(S, "accepted sizes", ge0(L - N), lambda: S.call(s, "set_system_size", N, L), anchor(S, "system.QuantumSystem.set_system_size"))
            if acc:
                sizes_of(S, s, N, L)
        return f
    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        K.run(f"{kind}.set_system_size", resize(kind))

    def shrink(kind):
        def f(S):
            s, b = mksys(S, kind)
            B = Basis(S, True)
            acc = verdict(S, "basis change keeps room for the occupied orbitals", ge0(S.lp - S.n), lambda: S.call(s, "change_basis", B.C, B.Ct), anchor(S, "system.QuantumSystem.change_basis"))
            if acc:
                sizes_of(S, s, S.n, S.lp)
        return f
    for kind in ("GeneralOrbitalSystem", "SpatialOrbitalSystem"):
        K.run(f"{kind}.change_basis sizes", shrink(kind))


# ------------------------------------------------------------------ C14
@check("C14", "value-flow and abstract heap of construct_general_orbital_system: sizes, spin-doubled terms, operator behaviour on both systems, disjoint reachable state, closed-shell system unchanged")
def c14(K):
    K.require("SpatialOrbitalSystem.construct_general_orbital_system")

    def conv(dim, op, asym, vec, used, absent=(), dt="c"):
        def f(S):
            s, b = mksys(S, "SpatialOrbitalSystem", dim, dt=dt, absent=absent)
            snap = S.snap(s, SPATIAL)
            e = None
            dd = dim
            if op in ("laser", "laser constant"):
                E, e = strength(S, "callable" if op == "laser" else "constant", "E")
                S.call(s, "set_time_evolution_operator", S.new(OPS + "LaserField", E))
            elif op == "laser array":
                E, e = strength(S, "callable", "E")
                S.call(s, "set_time_evolution_operator", S.new(OPS + "LaserField", E, polarization_vector=S.arr("eps", (P(dim),), "f")))
            elif op == "adiabatic":
                E, e = strength(S, "callable", "f")
                S.call(s, "set_time_evolution_operator", S.new(OPS + "AdiabaticSwitching", E))
            elif op == "custom":
                E, e = strength(S, "callable", "w")
                S.call(s, "set_time_evolution_operator", S.new(OPS + "CustomOneBodyOperator", E, S.arr("O", (S.l,) * 2)))
            t, tt = Sc(sym(T1), "f"), sym(T1)
            if used:
                S.call(s, "h_t", t)
            kw = {}
            if vec:
                (av, a_), (bv, b_) = spinvec(S, VECS[vec][0]), spinvec(S, VECS[vec][1])
                kw = {"a": av, "b": bv}
            if asym is not None:
                kw["anti_symmetrize"] = asym
            before = holder(S, s)
            bb = holder(S, b)
            g = S.call(s, "construct_general_orbital_system", **kw)
            if not isinstance(g, Obj):
                return S.true("returns a system", False, f"{g!r}")
            disjoint(S, "shares no mutable state", s, g)
            S.true("class", g.cls.name == "GeneralOrbitalSystem", g.cls.name)
            sizes_of(S, g, 2 * S.n, 2 * S.l)
            l2 = 2 * S.l
            sh = S.shapes(l2, dim)
            want = {}
            for nm in SPATIAL:
                if snap[nm] is None:
                    S.none(nm, S.get(g, nm))
                    continue
                want[nm] = doubled(nm, snap[nm][0])
                if nm == "u" and asym is not False:
                    want[nm] = anti(want[nm])
                S.eq(nm, S.get(g, nm), sh[nm], want[nm])
            if vec:
                pm = pauli_terms(a_, b_)
                sv = snap["s"][0]
                for ax in "xyz":
                    S.eq("spin_" + ax, S.get(g, "spin_" + ax), (l2, l2), lambda p, q: P(F(1, 2)) * sv(fdiv(p, P(2)), fdiv(q, P(2))) * pick(pm[ax], p, q))
            S.eqs("nuclear_repulsion_energy", S.get(g, "nuclear_repulsion_energy"), sym("Enuc"))
            S.eq("grid", S.get(g, "grid"), (S.G,), lambda i: el("grid", (i,)))
            # the operator acts on the elements of either system
            def acted(vals, o):
                h, u = vals["h"], vals["u"]
                d = vals.get("dipole_moment")
                wh, wu = h, u
                if op in ("laser", "laser constant"):
                    wh = lambda p, q: h(p, q) + e(tt) * d(ZERO, p, q)
                elif op == "laser array":
                    wh = lambda p, q: h(p, q) + e(tt) * S.sum((dim,), lambda i: el("eps", (i,)) * d(i, p, q))
                elif op == "adiabatic":
                    wu = lambda p, q, r, x: e(tt) * u(p, q, r, x)
                elif op == "custom":
                    wh = lambda p, q: h(p, q) + e(tt) * o(p, q)
                return wh, wu
            O = lambda p, q: el("O", (p, q))
            wh, wu = acted(want, doubled("h", O))
            oh, ou = acted({k: v[0] for k, v in snap.items() if v is not None}, O)
            S.eq("h_t of the new system", S.call(g, "h_t", t), (l2, l2), wh)
            S.eq("u_t of the new system", S.call(g, "u_t", t), (l2,) * 4, wu)
            for nm in ("has_one_body_time_evolution_operator", "has_two_body_time_evolution_operator"):
                S.eqs("new " + nm, S.get(g, nm), S.I.sc(S.get(s, nm)).p)
            # the closed-shell system
            cmp_holder(S, "closed-shell ", s, before)
            cmp_holder(S, "closed-shell basis ", b, bb)
            S.eq("h_t of the closed-shell system", S.call(s, "h_t", t), (S.l,) * 2, oh)
            S.eq("u_t of the closed-shell system", S.call(s, "u_t", t), (S.l,) * 4, ou)
            sizes_of(S, s, S.n, S.l, "closed-shell ")
            disjoint(S, "shares no mutable state after use", s, g)
        return f
    for asym in (None, True, False):
        K.run(f"no operator[antisymmetrise={asym}]", conv(1, None, asym, None, False))
    K.run("no operator[dim=2,complex spin vectors]", conv(2, None, False, "complex", False))
    K.run("no operator[phases]", conv(1, None, True, "phases", False))
    K.run("no operator[no functions, no dipoles]", conv(1, None, False, None, False, ("dipole_moment", "spf")))
    for op in ("laser", "laser constant", "laser array", "adiabatic", "custom"):
        for used in (False, True):
            K.run(f"{op}[used={used}]", conv(2 if "laser" in op else 1, op, False, None, used))
        K.run(f"{op}[antisymmetrised]", conv(1, op, True, None, False))

    def lib(make, asym):
        """systems of the library's own basis sets, which hold further settings"""
        def f(S):
            S.assume(ge0(S.l - S.n))
            b = make(S)
            s = S.new("SpatialOrbitalSystem", 2 * S.n, b)
            snap = S.snap(s, ("h", "s"))
            before, bb = holder(S, s), holder(S, b)
            g = S.call(s, "construct_general_orbital_system", anti_symmetrize=asym)
            if not isinstance(g, Obj):
                return S.true("returns a system", False, f"{g!r}")
            sizes_of(S, g, 2 * S.n, 2 * S.l)
            for nm in ("h", "s"):
                S.eq(nm, S.get(g, nm), (2 * S.l,) * 2, doubled(nm, snap[nm][0]))
            cmp_deep(S, "grid", S.get(g, "grid"), before["grid"])
            cmp_holder(S, "closed-shell ", s, before)
            cmp_holder(S, "closed-shell basis ", b, bb)
            disjoint(S, "shares no mutable state", s, g)
        return f

    def odqd(S):
        S.assume(ge0(S.G - 2 - S.l))
        return S.new("ODQD", S.l, S.par("L", lo=0), S.G, potential=potentials(S)["GaussianPotential"]())

    def td(S):
        two_dim_stubs(S)
        return S.new("TwoDimensionalHarmonicOscillator", S.l, S.par("L", lo=0), S.G, omega=S.par("omega", 0))
    K.run("ODQD", lib(odqd, False))
    K.run("ODSincDVR[2d]", lib(lambda S: S.new("ODSincDVR", S.l, S.par("L", lo=0), u_repr="2d"), False))
    K.run("ODSincDVR[4d]", lib(lambda S: S.new("ODSincDVR", S.l, S.par("L", lo=0), u_repr="4d"), False))
    K.run("TwoDimensionalHarmonicOscillator", lib(td, False))
    K.run("RandomBasisSet", lib(lambda S: S.new("RandomBasisSet", S.l, 2), False))
