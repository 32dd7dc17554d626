"""Orbital numbering and Coulomb integrals of the two-dimensional oscillator."""
from . import check
from .core import *
from .systems import *
from ..alg import conj, fn, bgate, power, Poly
from .files import TH, numbering

CE = "quantum_dots.two_dim.coulomb_elements."

# classes of quantum numbers: (name, n and m of the parameters a, b >= 0)
QN = (
    ("m = 0", lambda a, b: (a, P(0)), 1),
    ("m < 0 and odd", lambda a, b: (a, -2 * b - 1), 2),
    ("m < 0 and even", lambda a, b: (a, -2 * b - 2), 2),
    ("m > 0 and odd", lambda a, b: (a, 2 * b + 1), 2),
    ("m > 0 and even", lambda a, b: (a, 2 * b + 2), 2),
)


def position(n, m, neg):
    """shell and number of the orbital with quantum numbers (n, m): shells of 2n + |m| = k hold k + 1 orbitals ordered by m"""
    k = 2 * n + (-m if neg else m)
    p = k * (k + 1) * F(1, 2) + (k + m) * F(1, 2)
    return k, p


@check("C25", "closed forms of the loops (sums and recurrences solved as polynomials of the step, trip count verified as the first step at which the condition fails): "
              "the two maps are compared, as polynomials over every class of quantum numbers, with the numbering by shells; fixed quantum numbers where a rewritten map has no closed form")
def c25(K):
    K.require(TH + "get_index_p", TH + "get_indices_nm")
    where = lambda S, n: anchor(S, TH + n)

    def pair(S, name, r, n, m):
        if isinstance(r, Top):
            return S.unknown(name, f"{r!r}")
        try:
            r = S.I.unpack(r, 2)
        except Undecided as u:
            return S.unknown(name, str(u))
        S.eqs(name + ": n", r[0], n, loc=where(S, "get_indices_nm"))
        S.eqs(name + ": m", r[1], m, loc=where(S, "get_indices_nm"))

    def maps(cls):
        nm_, of, _ = cls

        def f(S):
            c = S.W.conc
            if c is None:
                a, b = sym("a", integer=True, lo=0), sym("b", integer=True, lo=0)
            else:
                a, b = P(c["a"]), P(c["b"])
                S.I.maxunroll = S.I.range_unroll = 5000
            n, m = of(a, b)
            k, p = position(n, m, "<" in nm_)
            S.I.trips = [k + j for j in (0, -1, -2, -3, 1, 2)]
            S.eqs("orbital number of (n, m)", S.I.call(S.I.get(Q + TH + "get_index_p"), [S.v(n), S.v(m)], {}), p, loc=where(S, "get_index_p"))
            r = S.I.call(S.I.get(Q + TH + "get_indices_nm"), [S.v(p)], {})
            pair(S, "quantum numbers of the orbital", r, n, m)
        return f
    pts = [dict(a=a, b=b) for a in range(4) for b in range(3)] + [dict(a=a, b=b) for a, b in ((0, 49), (0, 50), (25, 25), (50, 0), (49, 1), (3, 60), (110, 5), (7, 200), (230, 3), (60, 0), (61, 0), (90, 0), (300, 0))]
    for c in QN:
        K.run(c[0], maps(c), concrete=pts)


def anisimovas_matulis(n, m):
    """closed form of <12|u|34> in the article's notation (3 pairs with 2, 4 with 1), m1 + m2 = m3 + m4"""
    lg = lambda x: fn("lgamma", (x + 1,))
    ab = [fn("abs", (x,)) for x in m]
    pos = [(a + x) * F(1, 2) for a, x in zip(ab, m)]
    neg = [(a - x) * F(1, 2) for a, x in zip(ab, m)]
    jv = [newidx(x + 1) for x in n]
    j = [idx(v) for v in jv]
    g = [j[0] + j[3] + pos[0] + neg[3], j[1] + j[2] + pos[1] + neg[2], j[2] + j[1] + pos[2] + neg[1], j[3] + j[0] + pos[3] + neg[0]]
    lv = [newidx(x + 1) for x in g]
    l = [idx(v) for v in lv]
    G, L = sum(g, P(0)), sum(l, P(0))
    log = P(0)
    for k in range(4):
        log = log + (lg(n[k]) - lg(n[k] + ab[k])) * F(1, 2) - lg(j[k])
        log = log + lg(n[k] + ab[k]) - lg(n[k] - j[k]) - lg(j[k] + ab[k])
        log = log + lg(g[k]) - lg(l[k]) - lg(g[k] - l[k])
    log = log - (G + 1) * F(1, 2) * fn("log", (P(2),)) + fn("lgamma", (L * F(1, 2) + 1,)) + fn("lgamma", ((G - L + 1) * F(1, 2),))
    odd = lambda x: 1 - 2 * alg.fmod(x, P(2))
    r = odd(sum(j, P(0))) * odd(g[1] + g[2] - l[1] - l[2]) * fn("exp", (log,)) * eq0(l[0] + l[1] - l[2] - l[3])
    for v in reversed(jv + lv):
        r = sumover(r, v)
    return r


# quantum numbers (n1, m1, ..., n4, m4) of the four orbitals p, q, r, s at which unequal terms are evaluated
POINTS = [(0, 0, 0, 0, 0, 0, 0, 0), (1, 0, 0, 0, 0, 0, 0, 0), (0, 1, 0, -1, 0, 0, 0, 0), (0, 0, 0, 0, 0, 1, 0, -1), (0, 2, 0, -1, 0, 1, 0, 0), (1, -1, 0, 1, 0, 0, 1, 0),
          (0, -2, 1, 0, 1, -1, 0, -1), (1, 1, 1, 0, 0, 1, 1, 0), (2, 0, 0, 1, 0, 1, 0, 0), (0, 3, 0, -2, 1, 0, 0, 1), (0, 1, 2, 0, 1, 0, 0, 1), (0, -3, 0, 2, 0, -1, 1, 0), (0, 4, 0, 0, 0, 0, 0, 4),
          (0, 9, 0, 0, 0, 9, 0, 0), (0, 0, 0, -12, 0, 0, 0, -12), (0, 15, 0, 0, 0, 14, 0, 1), (0, 22, 0, 0, 0, 22, 0, 0), (0, 0, 0, -30, 0, 0, 0, -30), (7, 0, 0, 0, 7, 0, 0, 0), (11, 0, 0, 0, 0, 0, 0, 0),
          (0, 0, 0, 0, 0, 0, 14, 0), (0, 40, 0, 0, 0, 40, 0, 0), (22, 0, 0, 0, 0, 0, 0, 0), (0, 65, 0, 0, 0, 65, 0, 0), (0, 0, 0, -150, 0, 0, 0, -150), (0, -3, 0, -3, 0, -3, 0, -3), (3, 0, 0, 2, 2, 1, 0, 1)]


@check("C26", "value numbering of the eight-fold summation for symbolic quantum numbers: loop nests become sums over index ranges, scratch arrays are resolved element by element, "
              "sums of logarithms become log-gamma terms; the resulting term is compared with the closed formula of Anisimovas and Matulis; unequal normal forms are compared at fixed quantum numbers")
def c26(K):
    K.require(CE + "coulomb_ho")
    where = lambda S: anchor(S, CE + "coulomb_ho")

    def integral(S, n, m, kinds="i"):
        args = []
        for a, b in zip(n, m):
            args += [S.I.norm(Sc(P(a), kinds)), S.I.norm(Sc(P(b), kinds))]
        return S.I.call(S.I.get(Q + CE + "coulomb_ho"), args, {})

    def compare(S, name, got, want, pt):
        """unequal normal forms: evaluate both at the fixed quantum numbers"""
        from .. import evalp
        s = S.I.sc(got)
        if s is None:
            return S.unknown(name, f"{got!r}")
        a, b = S.I.simp(s.p), S.I.simp(want)
        if a == b:
            return S.ob(name, "proved", "", where(S))
        n = 0
        for k, q in enumerate(pt):
            v = evalp.Val(f"{k}", dict(zip(SYMS, q)), budget=4000000)
            try:
                if not all((abs(v.poly(c if isinstance(c, Poly) else alg.atom(c))) > 1e-9) == w for c, w in S.conds()):
                    continue
                v.mag = 0
                x, y = v.poly(a), v.poly(b)
            except evalp.Inconclusive as u:
                return S.unknown(name, str(u))
            n += 1
            if abs(x - y) > 1e-7 * max(abs(x), abs(y)) + 1e-12 * v.mag:
                return S.ob(name, "violated", f"integral of (n, m) = {[q[2 * i:2 * i + 2] for i in range(4)]}: computed {x:.9g}, expected {y:.9g}", where(S))
        if not n:
            return S.unknown(name, "no quantum numbers reach this partition")
        return S.ob(name, "held", f"terms agree at {n} sets of quantum numbers", where(S))
    SYMS = sum(([f"qn{i}", f"qm{i}"] for i in range(4)), [])

    def of(S, n, m):
        # the callers' order p, q, r, s is the article's 1, 2, 4, 3
        return anisimovas_matulis([n[0], n[1], n[3], n[2]], [m[0], m[1], m[3], m[2]])

    def conserved(S):
        c = S.W.conc
        if c is None:
            n = [sym(f"qn{i}", integer=True, lo=0) for i in range(4)]
            m = [sym(f"qm{i}", integer=True) for i in range(3)]
            m.append(m[0] + m[1] - m[2])
        else:
            n, m = [P(x) for x in c["q"][0::2]], [P(x) for x in c["q"][1::2]]
            S.I.maxunroll = S.I.range_unroll = 500
        compare(S, "closed formula", integral(S, n, m), of(S, n, m), POINTS if c is None else [c["q"]])
    K.run("equal angular momenta", conserved, concrete=[dict(q=q) for q in POINTS if max(map(abs, q)) < 100], budget=150)

    def forbidden(sign):
        def f(S):
            c = S.W.conc
            if c is None:
                n = [sym(f"qn{i}", integer=True, lo=0) for i in range(4)]
                m = [sym(f"qm{i}", integer=True) for i in range(3)]
                m.append(m[0] + m[1] - m[2] + sign * sym("d", integer=True, lo=1))
            else:
                n, m = [P(x) for x in c["q"][0::2]], [P(x) for x in c["q"][1::2]]
                m[3] = m[3] + sign * c["d"]
            S.eqs("vanishes", integral(S, n, m), P(0), loc=where(S))
        return f
    for sign in (1, -1):
        K.run(f"angular momentum {'gained' if sign > 0 else 'lost'}", forbidden(sign), concrete=[dict(q=q, d=d) for q in POINTS[:8] for d in (1, 2)])
