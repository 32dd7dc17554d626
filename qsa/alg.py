"""Index-notation normal forms.

A Poly is a finite sum of Terms; a Term is  coef * SUM_{bound} PROD atom**exponent.
Atoms are tuples:
  ('sym', name, real, conj)          scalar symbol
  ('num', prime)                     prime base of an irrational power
  ('idx', id)                        integer index variable (free axis variable or bound summation variable)
  ('el', leaf, (Poly,...), conj)     element of a leaf tensor
  ('fn', name, (arg,...), conj)      application of an uninterpreted / partially interpreted function
  ('P', Poly)                        a sum used as base of a non-natural power
  ('eq', Poly)  ('ge', Poly)  ('gt', Poly)   gates [Poly == 0], [Poly >= 0], [Poly > 0]
  ('b', name, (arg,...))             opaque boolean gate
  ('div', Poly, Poly) ('mod', Poly, Poly)    integer division / remainder
Equality of Polys is equality of canonical keys (bound variables are renamed canonically).
"""
import hashlib
import itertools
from fractions import Fraction as F

RANGE = {}          # idx id -> Poly (number of values, starting from zero)
LEAF_REAL = {}      # leaf tensor name -> bool
FN_REAL = set()     # opaque functions known to be real valued
_next = itertools.count(1)


class Undecidable(Exception):
    """The value left the fragment represented exactly."""


def short(s):
    if len(s) > 160:
        return "#" + hashlib.blake2b(s.encode(), digest_size=12).hexdigest()
    return s


# ------------------------------------------------------------------ complex rationals
class Q:
    __slots__ = ("re", "im")

    def __init__(self, re=0, im=0):
        self.re = re if isinstance(re, F) else F(re)
        self.im = im if isinstance(im, F) else F(im)

    def __add__(s, o):
        return Q(s.re + o.re, s.im + o.im)

    def __mul__(s, o):
        if not s.im and not o.im:
            return Q(s.re * o.re)
        return Q(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)

    def __neg__(s):
        return Q(-s.re, -s.im)

    def conj(s):
        return Q(s.re, -s.im)

    def inv(s):
        d = s.re * s.re + s.im * s.im
        return Q(s.re / d, -s.im / d)

    def iszero(s):
        return not s.re and not s.im

    def key(s):
        return str(s.re) if not s.im else f"({s.re},{s.im}i)"

    def isone(s):
        return s.re == 1 and not s.im


ONE = Q(1)


class Term:
    __slots__ = ("coef", "bound", "fac", "_key", "_fv")

    def __init__(self, coef, bound, fac):
        self.coef, self.bound, self.fac = coef, tuple(bound), tuple(fac)
        self._key = None
        self._fv = None

    def fv(self):
        if self._fv is None:
            s = set()
            for a, e in self.fac:
                s |= atom_fv(a)
                if isinstance(e, Poly):
                    s |= e.fv()
            for b in self.bound:
                s |= RANGE[b].fv()
            s -= set(self.bound)
            self._fv = frozenset(s)
        return self._fv

    def key(self, env=None):
        """key without coefficient"""
        if env:
            fv = self.fv()
            env = {k: v for k, v in env.items() if k in fv}
        if not env:
            if self._key is None:
                self._key = self._mkkey({})
            return self._key
        return self._mkkey(env)

    def _mkkey(self, env):
        def facs(env):
            return "*".join(sorted(
                akey(a, env) + ("" if e == 1 else "^" + (str(e) if isinstance(e, F) else "{" + e.key(env) + "}"))
                for a, e in self.fac))
        if not self.bound:
            return short(facs(env))
        start = 0
        for v in env.values():
            if v[0] == "b" and v[1:].isdigit():
                start = max(start, int(v[1:]) + 1)
        bs = list(self.bound)
        if len(bs) == 1:
            e2 = dict(env)
            e2[bs[0]] = f"b{start}"
            return short(f"S[{RANGE[bs[0]].key(env)}]" + facs(e2))
        # colour refinement
        col = {b: "?" for b in bs}
        for _ in range(3):
            new = {}
            for b in bs:
                e2 = dict(env)
                for c in bs:
                    e2[c] = "~" + col[c]
                e2[b] = "*"
                parts = sorted(akey(a, e2) + "^" + (str(e) if isinstance(e, F) else e.key(e2))
                               for a, e in self.fac
                               if b in atom_fv(a) or (isinstance(e, Poly) and b in e.fv()))
                rng = RANGE[b].key(e2)
                deps = sorted(RANGE[c].key(e2) for c in bs if b in RANGE[c].fv())
                new[b] = "|".join([rng] + deps + parts)
            order = {k: str(i) for i, k in enumerate(sorted(set(new.values())))}
            new = {b: order[new[b]] for b in bs}
            if new == col:
                break
            col = new
        groups = {}
        for b in bs:
            groups.setdefault(col[b], []).append(b)
        gl = [groups[c] for c in sorted(groups, key=int)]
        npm = 1
        for g in gl:
            for i in range(2, len(g) + 1):
                npm *= i
        best = None
        perms = itertools.product(*[itertools.permutations(g) for g in gl]) if npm <= 800 else [tuple(tuple(g) for g in gl)]
        for perm in perms:
            seq = [b for g in perm for b in g]
            e2 = dict(env)
            for i, b in enumerate(seq):
                e2[b] = f"b{start + i}"
            k = "S[" + ",".join(RANGE[b].key(e2) for b in seq) + "]" + facs(e2)
            if best is None or k < best:
                best = k
        return short(best)


_atom_fv_cache = {}


def atom_fv(a):
    t = a[0]
    if t == "idx":
        return frozenset((a[1],))
    if t in ("sym", "num"):
        return frozenset()
    s = set()
    if t in ("el", "fn", "b"):
        for x in a[2]:
            if not isinstance(x, str):
                s |= x.fv()
    elif t in ("P", "eq", "ge", "gt"):
        s |= a[1].fv()
    elif t in ("div", "mod"):
        s |= a[1].fv() | a[2].fv()
    return frozenset(s)


def akey(a, env):
    t = a[0]
    if t == "idx":
        return env.get(a[1]) or f"i{a[1]}"
    if t == "sym":
        return a[1] + ("'" if a[3] else "")
    if t == "num":
        return f"n{a[1]}"
    if t in ("el", "fn"):
        return f"{t}:{a[1]}" + ("'" if a[3] else "") + "(" + ",".join(x if isinstance(x, str) else x.key(env) for x in a[2]) + ")"
    if t == "b":
        return f"b:{a[1]}(" + ",".join(x if isinstance(x, str) else x.key(env) for x in a[2]) + ")"
    if t in ("P", "eq", "ge", "gt"):
        return f"{t}<{a[1].key(env)}>"
    return f"{t}<{a[1].key(env)};{a[2].key(env)}>"


class Poly:
    __slots__ = ("terms", "_key", "_fv")

    def __init__(self, terms=()):
        self.terms = terms          # tuple of Term, merged, nonzero
        self._key = None
        self._fv = None

    # -- construction
    @staticmethod
    def merge(terms):
        d = {}
        for t in terms:
            if t.coef.iszero():
                continue
            k = t.key()
            if k in d:
                o = d[k]
                c = o.coef + t.coef
                if c.iszero():
                    del d[k]
                else:
                    n = Term(c, o.bound, o.fac)
                    n._key, n._fv = o._key, o._fv
                    d[k] = n
            else:
                d[k] = t
        return Poly(tuple(d.values()))

    def fv(self):
        if self._fv is None:
            s = set()
            for t in self.terms:
                s |= t.fv()
            self._fv = frozenset(s)
        return self._fv

    def key(self, env=None):
        if env:
            fv = self.fv()
            env = {k: v for k, v in env.items() if k in fv}
        if not env:
            if self._key is None:
                self._key = self._mk({})
            return self._key
        return self._mk(env)

    def _mk(self, env):
        if not self.terms:
            return "0"
        return short("+".join(sorted((t.coef.key() + "." + t.key(env)) if t.fac or t.bound else t.coef.key() for t in self.terms)))

    def __eq__(s, o):
        if isinstance(o, (int, F)):
            o = const(o)
        return isinstance(o, Poly) and s.key() == o.key()

    def __hash__(s):
        return hash(s.key())

    # -- arithmetic
    def __add__(s, o):
        o = P(o)
        if not o.terms:
            return s
        if not s.terms:
            return o
        return Poly.merge(s.terms + o.terms)

    __radd__ = __add__

    def __neg__(s):
        r = []
        for t in s.terms:
            n = Term(-t.coef, t.bound, t.fac)
            n._key, n._fv = t._key, t._fv
            r.append(n)
        return Poly(tuple(r))

    def __sub__(s, o):
        return s + (-P(o))

    def __rsub__(s, o):
        return P(o) + (-s)

    def __mul__(s, o):
        o = P(o)
        if not s.terms or not o.terms:
            return ZERO
        out = []
        for a in s.terms:
            for b in o.terms:
                out.extend(mul_terms(a, b).terms)
        return Poly.merge(out)

    __rmul__ = __mul__

    def __truediv__(s, o):
        return s * power(P(o), F(-1))

    def __rtruediv__(s, o):
        return P(o) * power(s, F(-1))

    def __pow__(s, e):
        return power(s, e)

    # -- queries
    def const(self):
        """Q if constant else None"""
        if not self.terms:
            return Q(0)
        if len(self.terms) == 1 and not self.terms[0].fac and not self.terms[0].bound:
            return self.terms[0].coef
        return None

    def as_int(self):
        c = self.const()
        if c is not None and not c.im and c.re.denominator == 1:
            return int(c.re)
        return None

    def as_frac(self):
        c = self.const()
        if c is not None and not c.im:
            return c.re
        return None

    def iszero(self):
        return not self.terms

    def __repr__(self):
        return show(self)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, F)):
        return const(x)
    if isinstance(x, float):
        return const(F(repr(x)) if x == x and abs(x) != float("inf") else 0)
    if isinstance(x, complex):
        return Poly.merge([Term(Q(F(repr(x.real)), F(repr(x.imag))), (), ())])
    if isinstance(x, Q):
        return Poly.merge([Term(x, (), ())])
    raise TypeError(x)


def const(c):
    c = F(c)
    return Poly((Term(Q(c), (), ()),)) if c else ZERO


ZERO = Poly(())
POLY1 = Poly((Term(ONE, (), ()),))
IUNIT = Poly((Term(Q(0, 1), (), ()),))


def atom(a, e=F(1)):
    return Poly((Term(ONE, (), ((a, e),)),))


SYM_REAL = {}
SYM_INT = set()
SYM_MIN = {}    # lower bounds of integer/real symbols


def sym(name, real=True, integer=False, lo=None):
    SYM_REAL[name] = real
    if integer:
        SYM_INT.add(name)
    if lo is not None:
        SYM_MIN[name] = lo
    return atom(("sym", name, real, False))


PI = sym("pi", lo=3)


def newidx(rng):
    i = next(_next)
    RANGE[i] = P(rng)
    return i


def idx(i):
    return atom(("idx", i))


def el(leaf, args, conj=False):
    return atom(("el", leaf, tuple(P(a) for a in args), conj and not LEAF_REAL.get(leaf, False)))


class Lam:
    """An array-valued argument of an uninterpreted function."""
    __slots__ = ("shape", "vars", "body")

    def __init__(self, shape, vars, body):
        self.shape, self.vars, self.body = tuple(shape), tuple(vars), body

    def fv(self):
        s = set(self.body.fv())
        s -= set(self.vars)
        for d in self.shape:
            s |= d.fv()
        return s

    def key(self, env=None):
        env = dict(env or {})
        start = 0
        for v in env.values():
            if v[0] == "a" and v[1:].isdigit():
                start = max(start, int(v[1:]) + 1)
        e2 = {k: v for k, v in env.items() if k not in self.vars}
        for i, v in enumerate(self.vars):
            e2[v] = f"a{start + i}"
        body = finite_split(self)
        return short("L[" + ",".join(d.key(env) for d in self.shape) + "]{" + body.key(e2) + "}")


def finite_split(lam):
    return lam.body


# ------------------------------------------------------------------ term normalisation
def is_gate(a):
    return a[0] in ("eq", "ge", "gt", "b")


def mul_terms(a, b):
    if a.bound and b.bound and set(a.bound) & set(b.bound):
        b = freshen(b)
    elif a.bound and (set(a.bound) & b.fv()):
        a = freshen(a)
    elif b.bound and (set(b.bound) & a.fv()):
        b = freshen(b)
    if not a.fac and not a.bound:
        n = Term(a.coef * b.coef, b.bound, b.fac)
        n._key, n._fv = b._key, b._fv
        return Poly((n,)) if not n.coef.iszero() else ZERO
    if not b.fac and not b.bound:
        n = Term(a.coef * b.coef, a.bound, a.fac)
        n._key, n._fv = a._key, a._fv
        return Poly((n,)) if not n.coef.iszero() else ZERO
    return norm_term(a.coef * b.coef, a.bound + b.bound, a.fac + b.fac)


def freshen(t):
    """rename the bound variables of t"""
    m = {}
    nb = []
    for b in order_bound(t.bound):
        n = next(_next)
        RANGE[n] = subst(RANGE[b], {k: idx(v) for k, v in m.items()}) if m else RANGE[b]
        m[b] = n
        nb.append(n)
    mm = {k: idx(v) for k, v in m.items()}
    return Term(t.coef, nb, tuple((subst_atom_raw(a, mm), subst(e, mm) if isinstance(e, Poly) else e) for a, e in t.fac))


def order_bound(bound):
    """order bound variables so that ranges only refer to earlier ones"""
    bound = list(bound)
    out = []
    s = set(bound)
    while bound:
        for b in bound:
            if not (RANGE[b].fv() & (s - set(out))):
                out.append(b)
                bound.remove(b)
                break
        else:
            out.extend(bound)
            break
    return out


def subst_atom_raw(a, m):
    """rename index variables inside an atom (variables map to index atoms only)"""
    t = a[0]
    if t == "idx":
        if a[1] in m:
            return m[a[1]].terms[0].fac[0][0]
        return a
    if t in ("sym", "num"):
        return a
    if not (atom_fv(a) & m.keys()):
        return a
    if t in ("el", "fn"):
        return (t, a[1], tuple(x if isinstance(x, str) else subst(x, m) for x in a[2]), a[3])
    if t == "b":
        return (t, a[1], tuple(x if isinstance(x, str) else subst(x, m) for x in a[2]))
    if t in ("P", "eq", "ge", "gt"):
        return (t, subst(a[1], m))
    return (t, subst(a[1], m), subst(a[2], m))


def primes(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def norm_term(coef, bound, fac):
    """Normalise coef * SUM_bound PROD fac  ->  Poly"""
    if coef.iszero():
        return ZERO
    # combine equal atoms
    d, sd = {}, {}
    extra = None
    expargs = {}
    for a, e in fac:
        if a[0] == "fn" and a[1] == "exp" and not a[3]:
            arg = a[2][0] * (const(e) if isinstance(e, F) else e)
            expargs[0] = expargs.get(0, ZERO) + arg
            continue
        k = akey(a, {})
        if is_gate(a):
            d.setdefault((k, 0), (a, F(1)))
            continue
        if not isinstance(e, F):
            # symbolic exponents are kept apart from numeric ones; their constant part is numeric
            o = sd.get(k)
            sd[k] = (a, e if o is None else o[1] + e)
            continue
        o = d.get((k, 0))
        d[k, 0] = (a, e if o is None else o[1] + e)
    for k, (a, e) in sd.items():
        cpart = F(0)
        rest = []
        for t in e.terms:
            if not t.fac and not t.bound and not t.coef.im and t.coef.re.denominator == 1:
                cpart += t.coef.re
            else:
                rest.append(t)
        if cpart:
            e = Poly.merge(rest)
            o = d.get((k, 0))
            d[k, 0] = (a, cpart if o is None else o[1] + cpart)
        if not e.iszero():
            c = e.as_frac()
            if c is not None:
                o = d.get((k, 0))
                d[k, 0] = (a, c if o is None else o[1] + c)
            else:
                d[k, 1] = (a, e)
    if expargs:
        arg = expargs[0]
        if not arg.iszero():
            a = ("fn", "exp", (arg,), False)
            d[akey(a, {}), 0] = (a, F(1))
    out = []
    for k, (a, e) in d.items():
        if isinstance(e, F):
            if e == 0:
                continue
            if a[0] == "num":
                ip = e.numerator // e.denominator
                if ip:
                    coef = coef * Q(F(a[1]) ** ip)
                    e = e - ip
                    if e == 0:
                        continue
            elif a[0] == "P" and e.denominator == 1 and e > 0:
                extra = power(a[1], e) if extra is None else extra * power(a[1], e)
                continue
            elif a[0] == "fn" and a[1] == "abs" and e.denominator == 1 and e >= 2 and isreal(a[2][0]):
                ev = int(e) // 2 * 2
                x = power(a[2][0], F(ev))
                extra = x if extra is None else extra * x
                if int(e) % 2:
                    out.append((a, F(1)))
                continue
            elif a[0] == "mod" and a[2].as_int() == 2 and e.denominator == 1 and e > 1:
                e = F(1)     # a bit is idempotent
        out.append((a, e))
    fac = out
    ges = [a for a, e in fac if a[0] in ("ge", "gt")]
    if len(ges) > 1:
        drop = set()
        for i, a in enumerate(ges):
            for b in ges[i + 1:]:
                d = a[1] - b[1]
                c = d.as_frac()
                if c is not None:
                    # the smaller polynomial is the stronger condition
                    weak, strong = (a, b) if c > 0 or (c == 0 and a[0] == "ge") else (b, a)
                    drop.add(akey(weak, {}))
                    continue
                c = (a[1] + b[1]).as_frac()
                if c is not None and (c < 0 or (c == 0 and "gt" in (a[0], b[0]))):
                    return ZERO
        if drop:
            fac = [(a, e) for a, e in fac if akey(a, {}) not in drop]
    if extra is not None:
        base = norm_term(coef, bound, fac)
        if extra.fv() & set(bound):
            # bound variables occur in the expanded factor: distribute below the sum
            res = ZERO
            for t in extra.terms:
                t2 = freshen(t) if t.bound else t
                res = res + norm_term(coef * t2.coef, tuple(bound) + t2.bound, tuple(fac) + t2.fac)
            return res
        return base * extra
    # gates with constant content are removed on construction (see gate builders); handle equality gates
    r = elim_eq(coef, bound, fac)
    if r is not None:
        return r
    # bound variables
    if bound:
        used = set()
        for a, e in fac:
            used |= atom_fv(a)
            if isinstance(e, Poly):
                used |= e.fv()
        for b in bound:
            used |= RANGE[b].fv()
        for b in bound:
            r = RANGE[b].as_int()
            if r is not None and (r <= 4 or b not in used):
                if r <= 0:
                    return ZERO
                nb = tuple(x for x in bound if x != b)
                if b not in used:
                    return norm_term(coef * Q(r), nb, fac)
                res = ZERO
                for v in range(r):
                    res = res + subst_term(coef, nb, fac, {b: const(v)})
                return res
            if b not in used:
                nb = tuple(x for x in bound if x != b)
                rr = RANGE[b]
                if rr.fv() & set(nb):
                    res = ZERO
                    for t in rr.terms:
                        t2 = freshen(t) if t.bound else t
                        res = res + norm_term(coef * t2.coef, nb + t2.bound, tuple(fac) + t2.fac)
                    return res
                return norm_term(coef, nb, fac) * rr
        for b in bound:
            r = faulhaber(coef, bound, fac, b)
            if r is not None:
                return r
        for b in bound:
            c = split_const(b, fac)
            if c is not None:
                q = exact_div(RANGE[b], c)
                if q is not None:
                    hi, lo = newidx(q), newidx(c)
                    nb = tuple(x for x in bound if x != b) + (hi, lo)
                    return subst_term(coef, nb, fac, {b: idx(hi) * c + idx(lo)})
        # gates of the form [b <= e] shorten a range (canonical form of triangular sums)
        r = shorten(coef, bound, fac)
        if r is not None:
            return r
    return Poly((Term(coef, bound, fac),))


def faulhaber(coef, bound, fac, b):
    """SUM_{b<R} b**k * rest  with b nowhere else, in closed form"""
    k = None
    rest = []
    for a, e in fac:
        if a == ("idx", b):
            if not isinstance(e, F) or e.denominator != 1 or not 1 <= e <= 4:
                return None
            k = int(e)
            continue
        if b in atom_fv(a) or (isinstance(e, Poly) and b in e.fv()):
            return None
        rest.append((a, e))
    if k is None or any(b in RANGE[x].fv() for x in bound if x != b):
        return None
    R = RANGE[b]
    lo, _ = bounds_poly(R)
    if lo is None or lo < 0:
        return None
    if k == 1:
        s = R * (R - 1) * F(1, 2)
    elif k == 2:
        s = R * (R - 1) * (2 * R - 1) * F(1, 6)
    elif k == 3:
        s = R * (R - 1) * R * (R - 1) * F(1, 4)
    else:
        s = R * (R - 1) * (2 * R - 1) * (3 * R * R - 3 * R - 1) * F(1, 30)
    nb = tuple(x for x in bound if x != b)
    res = ZERO
    for t in s.terms:
        t2 = freshen(t) if t.bound else t
        res = res + norm_term(coef * t2.coef, nb + t2.bound, tuple(rest) + t2.fac)
    return res


def base_of(a):
    return a[1] if a[0] == "P" else atom(a)


def split_const(b, fac):
    """constant c such that b occurs only as b//c or b%c"""
    c = [None]
    ok = [True]

    def visit_poly(p):
        if not ok[0] or b not in p.fv():
            return
        for t in p.terms:
            for x in t.bound:
                visit_poly(RANGE[x])
            for a, e in t.fac:
                visit_atom(a)
                if isinstance(e, Poly):
                    visit_poly(e)

    def visit_atom(a):
        if not ok[0] or b not in atom_fv(a):
            return
        t = a[0]
        if t == "idx":
            ok[0] = False
        elif t in ("div", "mod"):
            if a[1] == idx(b):
                if c[0] is None:
                    c[0] = a[2]
                elif c[0] != a[2]:
                    ok[0] = False
            else:
                ok[0] = False
        elif t in ("el", "fn", "b"):
            for x in a[2]:
                if isinstance(x, Poly):
                    visit_poly(x)
                elif not isinstance(x, str) and b in x.fv():
                    visit_poly(x.body)
        else:
            visit_poly(a[1])
    for a, e in fac:
        visit_atom(a)
        if isinstance(e, Poly):
            visit_poly(e)
    return c[0] if ok[0] else None


def exact_div(p, c):
    """p / c if it divides exactly as polynomials (c a monomial), else None"""
    p, c = P(p), P(c)
    if c.iszero():
        return None
    ci = c.as_frac()
    if ci is not None:
        r = p * const(1 / ci)
        for t in r.terms:
            if t.coef.im or t.coef.re.denominator != 1:
                return None
        return r
    if any(t.bound for t in c.terms):
        return None
    if len(c.terms) != 1:
        q, r = polydiv(p, c)
        return q if r.iszero() else None
    r = p / c
    for t in r.terms:
        if t.coef.im or t.coef.re.denominator != 1:
            return None
        for a, e in t.fac:
            if not isinstance(e, F) or e < 0 or e.denominator != 1:
                return None
    return r


def linear_coef(p, a):
    """(coefficient Q, rest) if p = coef*a + rest with a not elsewhere in p; else None"""
    k = akey(a, {})
    coef = None
    rest = []
    for t in p.terms:
        if not t.bound and len(t.fac) == 1 and t.fac[0][1] == 1 and akey(t.fac[0][0], {}) == k:
            coef = t.coef
        else:
            if mentions(t, a):
                return None
            rest.append(t)
    if coef is None:
        return None
    return coef, Poly(tuple(rest))


def mentions(t, a):
    if a[0] == "idx":
        return a[1] in t.fv()
    # symbol
    return any(sym_in_atom(x, a) or (isinstance(e, Poly) and sym_in(e, a)) for x, e in t.fac) or any(sym_in(RANGE[b], a) for b in t.bound)


def sym_in(p, a):
    return any(mentions(t, a) for t in p.terms)


def sym_in_atom(x, a):
    t = x[0]
    if t == "sym":
        return x[1] == a[1]
    if t in ("idx", "num"):
        return False
    if t in ("el", "fn", "b"):
        return any((not isinstance(y, str)) and (sym_in(y, a) if isinstance(y, Poly) else sym_in(y.body, a)) for y in x[2])
    if t in ("P", "eq", "ge", "gt"):
        return sym_in(x[1], a)
    return sym_in(x[1], a) or sym_in(x[2], a)


def inrange_gate(e, R):
    """Poly: [0 <= e < R]"""
    g = ge0(e)
    if g.iszero():
        return g
    return g * ge0(R - e - 1)


def elim_eq(coef, bound, fac):
    bset = set(bound)
    for i, (a, e) in enumerate(fac):
        if a[0] != "eq":
            continue
        p = a[1]
        # bound variable elimination
        for b in bound:
            if b in p.fv():
                lc = linear_coef(p, ("idx", b))
                stride = None
                if lc and not lc[0].im and abs(lc[0].re) != 1 and lc[0].re.denominator == 1 and is_int(lc[1]):
                    stride = const(abs(lc[0].re))
                if lc and not lc[0].im and (abs(lc[0].re) == 1 or stride is not None):
                    if stride is None:
                        val = lc[1] * const(-1 / lc[0].re)
                    else:
                        num = lc[1] * const(-1 if lc[0].re > 0 else 1)
                        val = fdiv(num, stride)
                        sgate = eq0(fmod(num, stride))
                        if sgate.iszero():
                            return ZERO
                    # ranges of other bound variables must not create a cycle
                    if b in val.fv():
                        continue
                    nb = tuple(x for x in bound if x != b)
                    # the value may not depend on variables whose range depends on b
                    if any(b in RANGE[x].fv() for x in nb if x in val.fv()):
                        continue
                    g = inrange_gate(val, RANGE[b])
                    if stride is not None:
                        g = g * sgate
                    if g.iszero():
                        return ZERO
                    rest = tuple(f for j, f in enumerate(fac) if j != i)
                    res = subst_term(coef, nb, rest, {b: val}, gates=g)
                    return res
    # free variable substitution under an equality gate
    for i, (a, e) in enumerate(fac):
        if a[0] != "eq":
            continue
        p = a[1]
        cand = []
        for t in p.terms:
            if not t.bound and len(t.fac) == 1 and t.fac[0][1] == 1 and t.fac[0][0][0] in ("idx", "sym") and not t.coef.im:
                x = t.fac[0][0]
                if x[0] == "idx" and abs(t.coef.re) != 1:
                    continue
                if x[0] == "sym" and (x[1] in SIZE_SYMS or x[3]):
                    continue
                lc = linear_coef(p, x)
                if lc:
                    cand.append(((0 if x[0] == "sym" else 1, x[1] if x[0] == "idx" else 0, akey(x, {})), x, lc))
        if not cand:
            continue
        # replace scalar symbols first, then the youngest index
        syms = [c for c in cand if c[1][0] == "sym"]
        if syms:
            c = max(syms, key=lambda c: c[0])
        else:
            c = max(cand, key=lambda c: c[0])
        _, x, (cf, rest) = c
        val = rest * const(-1 / cf.re)
        others = tuple(f for j, f in enumerate(fac) if j != i)
        hit = False
        for a2, e2 in others:
            if (x[0] == "idx" and (x[1] in atom_fv(a2) or (isinstance(e2, Poly) and x[1] in e2.fv()))) or \
               (x[0] == "sym" and (sym_in_atom(a2, x) or (isinstance(e2, Poly) and sym_in(e2, x)))):
                hit = True
        if hit:
            if x[0] == "idx":
                r = subst_term(coef, bound, others, {x[1]: val})
            else:
                r = subst_term(coef, bound, others, {}, symmap={x[1]: val})
            return under(r, a)
    return None


SIZE_SYMS = set()


def under(p, gate):
    """multiply p by an atom gate, below the sums"""
    out = ZERO
    for t in p.terms:
        out = out + norm_term(t.coef, t.bound, t.fac + ((gate, F(1)),))
    return out


def shorten(coef, bound, fac):
    return None


def leaf_in(p, s):
    return s in syms_of(p)


def subst_term(coef, bound, fac, m, symmap=None, gates=None):
    """substitute in all factors (and ranges of the bound variables), renormalising"""
    # ranges
    nb = []
    mm = dict(m)
    for b in order_bound(bound):
        r = RANGE[b]
        if (r.fv() & mm.keys()) or (symmap and any(leaf_in(r, s) if s.startswith("leaf:") else sym_in(r, ("sym", s, True, False)) for s in symmap)):
            n = next(_next)
            RANGE[n] = subst(r, mm, symmap)
            mm[b] = idx(n)
            nb.append(n)
        else:
            nb.append(b)
    res = Poly((Term(coef, (), ()),))
    items = []
    for a, e in fac:
        x = subst_atom(a, mm, symmap)
        if isinstance(e, Poly):
            e = subst(e, mm, symmap)
            c = e.as_frac()
            if c is not None:
                e = c
        if e != 1:
            x = power(x, e)
        if x.iszero():
            return ZERO
        items.append(x)
    if gates is not None:
        items.append(gates)
    # multiply below the sums
    acc = [Term(coef, tuple(nb), ())]
    for x in items:
        if len(x.terms) == 1 and not x.terms[0].bound:
            t = x.terms[0]
            acc = [Term(s.coef * t.coef, s.bound, s.fac + t.fac) for s in acc]
        else:
            new = []
            for s in acc:
                for t in x.terms:
                    t2 = freshen(t) if t.bound else t
                    new.append(Term(s.coef * t2.coef, s.bound + t2.bound, s.fac + t2.fac))
            acc = new
    out = []
    for s in acc:
        out.extend(norm_term(s.coef, s.bound, s.fac).terms)
    return Poly.merge(out)


def subst(p, m, symmap=None):
    """substitute index variables (and scalar symbols) by Polys"""
    if isinstance(p, Lam):
        mm = {k: v for k, v in m.items() if k not in p.vars}
        return Lam([subst(d, mm, symmap) for d in p.shape], p.vars, subst(p.body, mm, symmap))
    fv = p.fv()
    mm = {k: v for k, v in m.items() if k in fv}
    if not mm and not symmap:
        return p
    out = []
    for t in p.terms:
        # protect captured variables
        if t.bound:
            cap = set()
            for v in mm.values():
                cap |= v.fv()
            if cap & set(t.bound):
                t = freshen(t)
        out.extend(subst_term(t.coef, t.bound, t.fac, mm, symmap).terms)
    return Poly.merge(out)


def subst_atom(a, m, symmap=None):
    t = a[0]
    if t == "idx":
        return m[a[1]] if a[1] in m else atom(a)
    if t == "num":
        return atom(a)
    if t == "sym":
        if symmap and a[1] in symmap:
            v = symmap[a[1]]
            return conj(v) if a[3] else v
        return atom(a)
    if not symmap and not (atom_fv(a) & m.keys()):
        return atom(a)
    if t == "el":
        args = tuple(subst(x, m, symmap) for x in a[2])
        if symmap and "leaf:" + a[1] in symmap:
            v = symmap["leaf:" + a[1]](args)
            return conj(v) if a[3] else v
        return atom((t, a[1], args, a[3]))
    if t == "fn":
        r = fn(a[1], tuple(x if isinstance(x, str) else subst(x, m, symmap) for x in a[2]))
        return conj(r) if a[3] else r
    if t == "b":
        return atom((t, a[1], tuple(x if isinstance(x, str) else subst(x, m, symmap) for x in a[2])))
    if t == "P":
        return subst(a[1], m, symmap)
    if t == "eq":
        return eq0(subst(a[1], m, symmap))
    if t == "ge":
        return ge0(subst(a[1], m, symmap))
    if t == "gt":
        return gt0(subst(a[1], m, symmap))
    if t == "div":
        return fdiv(subst(a[1], m, symmap), subst(a[2], m, symmap))
    if t == "mod":
        return fmod(subst(a[1], m, symmap), subst(a[2], m, symmap))
    raise AssertionError(a)


# ------------------------------------------------------------------ powers
def power(p, e):
    p = P(p)
    if isinstance(e, Poly):
        c = e.as_frac()
        if c is None:
            return power_sym(p, e)
        e = c
    e = F(e)
    if e == 0:
        return POLY1
    if e == 1:
        return p
    if e.denominator == 1 and e > 0:
        if len(p.terms) == 1 and not p.terms[0].bound:
            return mono_power(p.terms[0], e)
        if e <= 12:
            r = p
            for _ in range(int(e) - 1):
                r = r * p
            return r
    if p.iszero():
        return ZERO          # total convention 1/0 = 0 (see DESIGN.md): poles occur under gates that exclude them
    if len(p.terms) == 1 and not p.terms[0].bound:
        return mono_power(p.terms[0], e)
    # primitive part
    lead = min(p.terms, key=lambda t: t.key())
    c = lead.coef
    whole = e.denominator == 1
    if not whole:
        c = Q(abs(c.re)) if not c.im else ONE
    common = None
    for t in p.terms:
        s = {} if t.bound else {akey(a, {}): (a, x) for a, x in t.fac if isinstance(x, F) and a[0] != "num" and not is_gate(a)}
        if common is None:
            common = s
        else:
            common = {k: (v[0], min(v[1], s[k][1])) for k, v in common.items() if k in s}
    if not whole:
        common = {k: v for k, v in common.items() if is_positive(base_of(v[0])) or v[1] % 2 == 0 and isreal(base_of(v[0]))}
    mono = Poly((Term(c, (), tuple(common.values())),))
    # divide term by term (multiplying by the inverse would expand it and never cancel again)
    ic, pt = c.inv(), []
    for t in p.terms:
        fac = []
        for a, x in t.fac:
            k = common.get(akey(a, {})) if isinstance(x, F) else None
            if k is not None:
                x = x - k[1]
                if x == 0:
                    continue
            fac.append((a, x))
        pt.extend(norm_term(t.coef * ic, t.bound, tuple(fac)).terms)
    prim = Poly.merge(pt)
    if not any(t.bound for t in prim.terms):
        lo, hi = bounds_poly(prim)
        if hi is not None and hi <= 0 and lo is None:
            if whole:
                prim, mono = -prim, -mono
    if len(prim.terms) == 1 and not prim.terms[0].bound:
        return power(mono, e) * power(prim, e)
    # (real) perfect powers: an even root of a squared sum is |sum|; leave alone
    # gates: a sum of gated alternatives is raised alternative by alternative
    g = gate_split(prim)
    if g is not None:
        gate, yes, no = g
        return power(mono, e) * (gate * power(yes, e) + (POLY1 - gate) * power(no, e))
    return power(mono, e) * atom(("P", prim), e)


def gate_split(p):
    """p = g*yes + (1-g)*no for some gate atom g of p, where both sides are gate-free in g"""
    g = None
    for t in p.terms:
        if t.bound:
            continue
        for a, e in t.fac:
            if is_gate(a):
                g = a
                break
        if g:
            break
    if g is None:
        return None
    k = akey(g, {})
    yes, no = [], []
    for t in p.terms:
        has = any(akey(a, {}) == k for a, e in t.fac)
        if has:
            yes.append(Term(t.coef, t.bound, tuple((a, e) for a, e in t.fac if akey(a, {}) != k)))
        else:
            yes.append(t)
            no.append(t)
    return atom(g), Poly.merge(yes), Poly.merge(no)


def power_sym(p, e):
    """p ** e with symbolic exponent"""
    c = p.const()
    if c is not None:
        if c.isone():
            return POLY1
        if not c.im and c.re == -1 and is_int(e):
            return POLY1 - 2 * fmod(e, const(2))
    if len(p.terms) == 1 and not p.terms[0].bound:
        t = p.terms[0]
        res = POLY1
        cf = t.coef
        if not cf.isone():
            if cf.im:
                res = res * atom(("P", Poly((Term(cf, (), ()),))), e)
            else:
                n, d = cf.re.numerator, cf.re.denominator
                if n < 0:
                    res = res * (power_sym(const(-1), e) if is_int(e) else atom(("P", const(-1)), e))
                    n = -n
                fs = []
                for q, k in primes(n).items():
                    fs.append((q, k))
                for q, k in primes(d).items():
                    fs.append((q, -k))
                for q, k in fs:
                    res = res * norm_term(ONE, (), ((("num", q), e * k),))
        for a, x in t.fac:
            ex = e * (const(x) if isinstance(x, F) else x)
            if is_gate(a):
                res = res * atom(a)
            else:
                res = res * norm_term(ONE, (), ((a, ex),))
        return res
    return norm_term(ONE, (), ((("P", p), e),))


def mono_power(t, e):
    c = t.coef
    res_c = ONE
    fac = []
    if e.denominator == 1:
        n = int(e)
        if n < 0:
            c = c.inv()
            n = -n
        for _ in range(n):
            res_c = res_c * c
    elif not c.isone():
        if c.im or c.re < 0:
            if c.re < 0 and not c.im and e == F(1, 2):
                res_c = Q(0, 1)
                c = Q(-c.re)
            else:
                fac.append((("P", Poly((Term(c, (), ()),))), e))
                c = ONE
        if not c.isone():
            for q, k in primes(c.re.numerator).items():
                fac.append((("num", q), e * k))
            for q, k in primes(c.re.denominator).items():
                fac.append((("num", q), -e * k))
    extra = POLY1
    for a, x in t.fac:
        if is_gate(a):
            if e < 0:
                raise Undecidable("division by a gated value")
            fac.append((a, F(1)))
            continue
        if isinstance(x, F) and x % 2 == 0 and e.denominator % 2 == 0 and isreal(base_of(a)) and not is_positive(base_of(a)) and (x * e).denominator == 1 and (x * e) % 2 == 1:
            # sqrt(x**2) = |x|
            extra = extra * power(fn("abs", (base_of(a),)), x * e)
            continue
        fac.append((a, (x * e) if isinstance(x, F) else x * const(e)))
    return norm_term(res_c, (), tuple(fac)) * extra


# ------------------------------------------------------------------ gates
def lead_sign(p):
    t = min(p.terms, key=lambda t: ((not t.fac and not t.bound), t.key()))
    c = t.coef.re if t.coef.re else t.coef.im
    return 1 if c > 0 else -1


def primitive(p):
    """divide by the positive gcd of the rational coefficients"""
    from math import gcd
    n, d = 0, 1
    for t in p.terms:
        for c in (t.coef.re, t.coef.im):
            if c:
                n = gcd(n, abs(c.numerator))
                d = d * c.denominator // gcd(d, c.denominator)
    if n == 0 or (n == 1 and d == 1):
        return p
    return p * const(F(d, n))


def abs_cases(p):
    """a gate condition |x| = c etc. is kept as it is"""
    return p


def eq0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return POLY1 if c.iszero() else ZERO
    r = bounds_poly(p)
    if r[0] is not None and r[0] > 0 or r[1] is not None and r[1] < 0:
        return ZERO
    g = gate_split(p)
    if g is not None:
        gate, yes, no = g
        return gate * eq0(yes) + (POLY1 - gate) * eq0(no)
    p = primitive(p)
    if is_int(p):
        # parity normal form: [2x + odd == 0] is false
        if p.terms:
            from math import gcd
            gg = 0
            c0 = 0
            for t in p.terms:
                if not t.fac and not t.bound:
                    c0 = t.coef.re
                else:
                    gg = gcd(gg, abs(int(t.coef.re))) if t.coef.re.denominator == 1 else 1
            if gg > 1 and F(c0) % gg:
                return ZERO
    # [mod(x,2) - 1 == 0] -> mod(x,2);  [mod(x,2) == 0] -> 1 - mod(x,2)
    if len(p.terms) <= 2:
        lc = [t for t in p.terms if t.fac]
        if len(lc) == 1 and not lc[0].bound and len(lc[0].fac) == 1 and lc[0].fac[0][1] == 1 and lc[0].fac[0][0][0] == "mod" and lc[0].fac[0][0][2].as_int() == 2:
            c0 = sum((t.coef.re for t in p.terms if not t.fac), F(0))
            v = -c0 / lc[0].coef.re
            m = atom(lc[0].fac[0][0])
            if v == 0:
                return POLY1 - m
            if v == 1:
                return m
            return ZERO
    if lead_sign(p) < 0:
        p = -p
    return atom(("eq", p))


def undiv(p):
    """floor(x/c) + r >= 0  <=>  x + c r >= 0;   r - floor(x/c) >= 0  <=>  c r + c - 1 - x >= 0"""
    for t in p.terms:
        if not t.bound and len(t.fac) == 1 and t.fac[0][1] == 1 and t.fac[0][0][0] == "div" and not t.coef.im and abs(t.coef.re) == 1:
            a = t.fac[0][0]
            c = a[2]
            lo, _ = bounds_poly(c)
            if lo is None or lo < 1:
                continue
            rest = p - Poly((t,))
            if t.coef.re > 0:
                return a[1] + c * rest
            return c * rest + c - 1 - a[1]
    return None


def ge0(p):
    p = P(p)
    if is_int(p):
        q = undiv(p)
        if q is not None:
            return ge0(q)
    c = p.const()
    if c is not None:
        return POLY1 if c.re >= 0 else ZERO
    lo, hi = bounds_poly(p)
    if lo is not None and lo >= 0:
        return POLY1
    if hi is not None and hi < 0:
        return ZERO
    g = gate_split(p)
    if g is not None:
        gate, yes, no = g
        return gate * ge0(yes) + (POLY1 - gate) * ge0(no)
    p = primitive(p)
    if is_int(p):
        if lead_sign(p) < 0:
            return POLY1 - ge0(-p - 1)
        return atom(("ge", p))
    if lead_sign(p) < 0:
        return POLY1 - gt0(-p)
    return atom(("ge", p))


def gt0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return POLY1 if c.re > 0 else ZERO
    lo, hi = bounds_poly(p)
    if lo is not None and lo > 0:
        return POLY1
    if hi is not None and hi <= 0:
        return ZERO
    if is_int(p):
        return ge0(p - 1)
    g = gate_split(p)
    if g is not None:
        gate, yes, no = g
        return gate * gt0(yes) + (POLY1 - gate) * gt0(no)
    p = primitive(p)
    if lead_sign(p) < 0:
        return POLY1 - ge0(-p)
    return atom(("gt", p))


def bgate(name, args=()):
    return atom(("b", name, tuple(args)))


_bounding = set()


def bounds_poly(p, depth=0):
    """(lo, hi) bounds (None = unknown) of an integer/real poly, by intervals; symbolic cancellation by
    substituting the extreme values of the index variables."""
    h = lower(-p, depth)
    return lower(p, depth), None if h is None else -h


def lower(p, depth=0):
    if depth > 10:
        return None
    fv = [v for v in p.fv() if linear_coef(p, ("idx", v))]
    if fv:
        v = max(fv)
        c, rest = linear_coef(p, ("idx", v))
        if c.im:
            return None
        return lower(rest if c.re > 0 else rest + (RANGE[v] - 1) * const(c.re), depth + 1)
    lo = F(0)
    for t in p.terms:
        l, h = bounds_term(t, depth)
        if l is None:
            break
        lo += l
    else:
        return lo
    for t in p.terms:
        # |q| >= q and |q| >= -q
        if len(t.fac) == 1 and not t.bound and not t.coef.im and t.coef.re > 0 and t.fac[0][1] == 1:
            a = t.fac[0][0]
            if a[0] == "fn" and a[1] == "abs":
                rest = p - Poly((t,))
                for q in (a[2][0], -a[2][0]):
                    l = lower(rest + q * t.coef.re, depth + 1)
                    if l is not None:
                        return l
                return None
    return None


def bounds_term(t, depth):
    if t.coef.im:
        return None, None
    if t.bound:
        return None, None
    lo, hi = F(1), F(1)
    for a, e in t.fac:
        al, ah = bounds_atom(a, depth)
        if not isinstance(e, F):
            return None, None
        if e.denominator == 1 and e > 0:
            if al is None or al < 0:
                if e % 2 == 0:
                    al, ah = F(0), None
                else:
                    return None, None
            else:
                al, ah = al ** int(e), None if ah is None else ah ** int(e)
        elif e < 0 and al is not None and al > 0:
            al, ah = F(0), None
        elif al is not None and al >= 0:
            al, ah = F(0), None
        else:
            return None, None
        lo = lo * al
        hi = None if hi is None or ah is None else hi * ah
    c = t.coef.re
    if c > 0:
        return lo * c, None if hi is None else hi * c
    return None if hi is None else hi * c, lo * c


def bounds_atom(a, depth):
    t = a[0]
    if t == "idx":
        R = RANGE[a[1]]
        return F(0), bounds_poly(R - 1, depth + 1)[1]
    if t == "sym":
        if a[1] in SYM_MIN:
            return F(SYM_MIN[a[1]]), None
        return None, None
    if t == "num":
        return F(1), None
    if is_gate(a):
        return F(0), F(1)
    if t == "mod":
        c = a[2].as_int()
        return F(0), F(c - 1) if c else None
    if t == "div":
        l, h = bounds_poly(a[1], depth + 1)
        if l is not None and l >= 0:
            return F(0), None
        return None, None
    if t == "fn" and a[1] in ("abs", "exp", "factorial", "sqrt"):
        return F(0), None
    return None, None


def is_positive(p):
    lo, _ = bounds_poly(p)
    return lo is not None and lo >= 0


# ------------------------------------------------------------------ integers
def is_int(p):
    for t in p.terms:
        if t.coef.im or t.coef.re.denominator != 1:
            if t.coef.im or t.coef.re.denominator != 2:
                return False
            # |q| and q have the same parity
            for u in p.terms:
                if len(u.fac) == 1 and not u.bound and u.coef.re.denominator == 2 and not u.coef.im and u.fac[0][1] == 1:
                    a = u.fac[0][0]
                    if a[0] == "fn" and a[1] == "abs" and is_int(a[2][0]):
                        return is_int(p - Poly((u,)) + a[2][0] * u.coef.re)
            return False
        for a, e in t.fac:
            if isinstance(e, F):
                if e.denominator != 1 or e < 0:
                    return False
            elif not (is_int(e) and is_positive(e)):
                return False
            if a[0] in ("idx", "div", "mod") or is_gate(a):
                continue
            if a[0] == "num":
                continue
            if a[0] == "sym" and a[1] in SYM_INT:
                continue
            if a[0] == "fn" and (a[1] in ("factorial",) or (a[1] in ("abs", "min", "max") and all(is_int(x) for x in a[2]))):
                continue
            if a[0] == "fn" and a[1] in FN_INT:
                continue
            if a[0] == "el" and a[1] in LEAF_INT:
                continue
            return False
    return True


FN_INT = set(["floor", "ceil", "len"])
FN_SIGNED = set()      # integer valued functions that take negative values


def _coulomb_images(a):
    """argument lists of equal value: exchange of the two particles, exchange of bra and ket (real integrals)"""
    q = [tuple(a[2 * k:2 * k + 2]) for k in range(4)]
    return [sum((q[k] for k in o), ()) for o in ((0, 1, 2, 3), (1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 1, 0))]


FN_IMAGES = {"coulomb_ho": _coulomb_images}
LEAF_INT = set()


def fdiv(p, c):
    p, c = P(p), P(c)
    q, r = divsplit(p, c)
    if r.iszero():
        return q
    lo, hi = bounds_poly(r)
    lo2, hi2 = bounds_poly(c - 1 - r)
    if lo is not None and lo >= 0 and lo2 is not None and lo2 >= 0:
        return q
    if not is_int(p) or not is_int(c):
        return fn("floor", (p / c,))
    rc = r.as_int()
    cc = c.as_int()
    if rc is not None and cc is not None and cc:
        return q + const(rc // cc)
    # integer r: floor((k*r')/(k*c')) with common factor
    if len(r.terms) == 1 and cc:
        t = r.terms[0]
        from math import gcd
        k = gcd(abs(int(t.coef.re)), abs(cc)) if t.coef.re.denominator == 1 else 1
        if k > 1:
            return q + fdiv(r * const(F(1, k)), const(cc // k))
    return q + atom(("div", r, c))


def fmod(p, c):
    p, c = P(p), P(c)
    q, r = divsplit(p, c)
    if r.iszero():
        return ZERO
    lo, hi = bounds_poly(r)
    lo2, hi2 = bounds_poly(c - 1 - r)
    if lo is not None and lo >= 0 and lo2 is not None and lo2 >= 0:
        return r
    rc, cc = r.as_int(), c.as_int()
    if rc is not None and cc:
        return const(rc % cc)
    if cc == 2:
        # parity is additive over GF(2): canonical residues; |x| and -x have the parity of x
        out = ZERO
        cst = 0
        for t in r.terms:
            if not t.fac and not t.bound:
                cst = int(t.coef.re) % 2
                continue
            n = Term(ONE, t.bound, t.fac)
            if not t.bound and len(t.fac) == 1 and t.fac[0][1] == 1 and t.fac[0][0][0] == "fn" and t.fac[0][0][1] == "abs":
                out = out + t.fac[0][0][2][0]
                continue
            out = out + Poly((n,))
        # reduce again after |x| -> x
        red = ZERO
        for t in out.terms:
            if not t.fac and not t.bound:
                cst += int(t.coef.re)
                continue
            if t.coef.re.denominator == 1 and int(t.coef.re) % 2:
                red = red + Poly((Term(ONE, t.bound, t.fac),))
        cst %= 2
        if red.iszero():
            return const(cst)
        if len(red.terms) == 1 and not red.terms[0].bound and len(red.terms[0].fac) == 1 and red.terms[0].fac[0][0][0] == "mod" and red.terms[0].fac[0][0][2].as_int() == 2:
            m = red
        else:
            m = atom(("mod", red, c))
        return POLY1 - m if cst else m
    return atom(("mod", r, c))


def divsplit(p, c):
    """p = c*q + r with r containing no multiple of c"""
    ci = c.as_int()
    q, r = [], []
    if ci is not None and ci != 0:
        for t in p.terms:
            if not t.coef.im and t.coef.re.denominator == 1 and is_int(Poly((Term(ONE, t.bound, t.fac),))):
                k = t.coef.re // ci
                rem = t.coef.re - k * ci
                if k:
                    q.append(Term(Q(k), t.bound, t.fac))
                if rem:
                    r.append(Term(Q(rem), t.bound, t.fac))
            else:
                r.append(t)
        return Poly.merge(q), Poly.merge(r)
    if len(c.terms) == 1 and not c.terms[0].bound:
        for t in p.terms:
            d = exact_div(Poly((t,)), c)
            if d is not None and is_int(d):
                q.extend(d.terms)
            else:
                r.append(t)
        return Poly.merge(q), Poly.merge(r)
    if p == c:
        return POLY1, ZERO
    if not any(t.bound for t in c.terms):
        return polydiv(p, c)
    return ZERO, p


def polydiv(p, c):
    """p = c*q + r by division with respect to one leading monomial of c (integer coefficients only)"""
    lead = None
    for t in c.terms:
        if t.fac and abs(t.coef.re) == 1 and not t.coef.im and all(isinstance(e, F) and e > 0 and e.denominator == 1 for a, e in t.fac):
            w = (sum(e for a, e in t.fac), t.key())
            if lead is None or w > lead[0]:
                lead = (w, t)
    if lead is None:
        return ZERO, p
    lp = Poly((lead[1],))
    q, r = ZERO, p
    for _ in range(60):
        for t in r.terms:
            if t.bound:
                continue
            d = exact_div(Poly((t,)), lp)
            if d is not None and is_int(d):
                q, r = q + d, r - d * c
                break
        else:
            return q, r
    return ZERO, p


# ------------------------------------------------------------------ functions
ANALYTIC = {"exp", "log", "sin", "cos", "sinh", "cosh", "tan", "tanh", "sinc", "lgamma", "factorial"}
REALFN = {"abs", "sign", "heaviside", "floor", "ceil", "min", "max", "arctan2"} | ANALYTIC


def fn(name, args):
    args = tuple(a if isinstance(a, (str, Lam)) else P(a) for a in args)
    if name in FN_IMAGES:
        return atom(("fn", name, min(FN_IMAGES[name](args), key=lambda im: [str(x.key()) for x in im]), False))
    if name == "sqrt":
        return power(args[0], F(1, 2))
    if name == "exp":
        x = args[0]
        g = gate_split(x)
        if g is not None:
            gate, yes, no = g
            return gate * fn("exp", (yes,)) + (POLY1 - gate) * fn("exp", (no,))
        if x.iszero():
            return POLY1
        # e^{log a} = a ; pull out logs with natural coefficient
        res = POLY1
        rest = []
        for t in x.terms:
            if not t.bound and len(t.fac) == 1 and t.fac[0][1] == 1 and t.fac[0][0][0] == "fn" and t.fac[0][0][1] == "log" and not t.coef.im:
                res = res * power(t.fac[0][0][2][0], t.coef.re)
            else:
                rest.append(t)
        x = Poly.merge(rest)
        if x.iszero():
            return res
        return res * atom(("fn", "exp", (x,), False))
    if name == "log":
        if args[0] == POLY1:
            return ZERO
    if name == "abs":
        x = args[0]
        c = x.const()
        if c is not None and not c.im:
            return const(abs(c.re))
        lo, hi = bounds_poly(x)
        if lo is not None and lo >= 0:
            return x
        if hi is not None and hi <= 0:
            return -x
        g = gate_split(x)
        if g is not None:
            gate, yes, no = g
            return gate * fn("abs", (yes,)) + (POLY1 - gate) * fn("abs", (no,))
        if len(x.terms) == 1 and not x.terms[0].bound:
            t = x.terms[0]
            if not t.coef.im:
                out = const(abs(t.coef.re))
                for a, e in t.fac:
                    b = power(base_of(a), e)
                    if is_gate(a) or is_positive(b):
                        out = out * b
                    elif a[0] == "fn" and a[1] == "abs":
                        out = out * b
                    elif isinstance(e, F) and e.denominator == 1 and e % 2 == 0 and isreal(base_of(a)):
                        out = out * b
                    elif isinstance(e, F) and e.denominator == 1:
                        out = out * power(atom(("fn", "abs", (base_of(a),), False)), e)
                    else:
                        out = out * atom(("fn", "abs", (b,), False))
                return out
        if lead_sign(x) < 0:
            x = -x
        return atom(("fn", "abs", (x,), False))
    if name == "factorial":
        n = args[0].as_int()
        if n is not None and 0 <= n < 50:
            import math
            return const(math.factorial(n))
    if name == "lgamma":
        n = args[0].as_int()
        if n in (1, 2):
            return ZERO
    if name in ("sin", "sinh", "arctan", "tan", "tanh", "sign") and args[0].terms:
        if args[0].iszero():
            return ZERO
        if lead_sign(args[0]) < 0:
            return -fn(name, (-args[0],))
    if name in ("sin", "sinc", "cos") and args[0].iszero():
        return ZERO if name == "sin" else POLY1
    if name in ("cos", "cosh", "sinc") and args[0].terms and lead_sign(args[0]) < 0:
        return fn(name, (-args[0],))
    if name == "floor" and is_int(args[0]):
        return args[0]
    if name in ("floor", "ceil", "sign", "heaviside", "sinc", "sin", "cos", "lgamma"):
        g = gate_split(args[0])
        if g is not None:
            gate, yes, no = g
            return gate * fn(name, (yes,) + args[1:]) + (POLY1 - gate) * fn(name, (no,) + args[1:])
    if name == "floor" and args[0].as_frac() is not None:
        import math
        return const(math.floor(args[0].as_frac()))
    if name == "floor":
        # integer part of p/c with integer p
        x = args[0]
        den = 1
        ok = True
        for t in x.terms:
            if t.coef.im:
                ok = False
            else:
                den = den * t.coef.re.denominator // __import__("math").gcd(den, t.coef.re.denominator)
        if ok and den > 1 and is_int(x * den):
            return fdiv(x * den, const(den))
    if name in ("min", "max") and len(args) == 2:
        d = args[0] - args[1]
        lo, hi = bounds_poly(d)
        if lo is not None and lo >= 0:
            return args[0] if name == "max" else args[1]
        if hi is not None and hi <= 0:
            return args[1] if name == "max" else args[0]
        args = tuple(sorted(args, key=lambda a: a.key()))
    return atom(("fn", name, args, False))


def isreal(p):
    for t in p.terms:
        if t.coef.im:
            return False
        for a, e in t.fac:
            if isinstance(e, Poly) and not isreal(e):
                return False
            if not atom_real(a):
                return False
    return True


def atom_real(a):
    t = a[0]
    if t in ("idx", "num", "div", "mod") or is_gate(a):
        return True
    if t == "sym":
        return a[2]
    if t == "el":
        return LEAF_REAL.get(a[1], False)
    if t == "fn":
        if a[1] in FN_REAL or a[1] == "abs":
            return True
        if a[1] in REALFN:
            return all(isinstance(x, str) or (isreal(x) if isinstance(x, Poly) else isreal(x.body)) for x in a[2])
        return False
    if t == "P":
        return isreal(a[1])
    return False


def conj(p):
    out = []
    for t in p.terms:
        fac = []
        for a, e in t.fac:
            fac.append((conj_atom(a), conj(e) if isinstance(e, Poly) else e))
        out.extend(norm_term(t.coef.conj(), t.bound, tuple(fac)).terms)
    return Poly.merge(out)


def conj_atom(a):
    t = a[0]
    if atom_real(a):
        return a
    if t == "sym":
        return ("sym", a[1], a[2], not a[3])
    if t == "el":
        return ("el", a[1], a[2], not a[3])
    if t == "fn":
        if a[1] in ANALYTIC:
            return ("fn", a[1], tuple(conj(x) if isinstance(x, Poly) else x for x in a[2]), a[3])
        return ("fn", a[1], a[2], not a[3])
    if t == "P":
        return ("P", conj(a[1]))
    return a


def sumover(p, v):
    """SUM over index variable v of p"""
    out = []
    for t in p.terms:
        if v in t.bound:
            t = freshen(t)
        out.extend(norm_term(t.coef, t.bound + (v,), t.fac).terms)
    return log_factorials(Poly.merge(out))


def log_factorials(p):
    """SUM_{a<n} log(a+c) with natural c  ->  lgamma differences"""
    out = []
    changed = False
    for t in p.terms:
        if len(t.bound) == 1 and len(t.fac) == 1 and t.fac[0][1] == 1:
            a = t.fac[0][0]
            b = t.bound[0]
            if a[0] == "fn" and a[1] == "log" and not a[3]:
                lc = linear_coef(a[2][0], ("idx", b))
                if lc and lc[0].isone() and lc[1].as_int() is not None and lc[1].as_int() >= 1:
                    c = lc[1].as_int()
                    import math
                    r = fn("lgamma", (RANGE[b] + c,))
                    for k in range(2, c):
                        r = r - fn("log", (const(k),))
                    out.extend((r * Poly((Term(t.coef, (), ()),))).terms)
                    changed = True
                    continue
        out.append(t)
    return Poly.merge(out) if changed else p


def syms_of(p, acc=None):
    acc = set() if acc is None else acc
    for t in p.terms:
        for b in t.bound:
            syms_of(RANGE[b], acc)
        for a, e in t.fac:
            syms_atom(a, acc)
            if isinstance(e, Poly):
                syms_of(e, acc)
    return acc


def syms_atom(a, acc):
    t = a[0]
    if t == "sym":
        acc.add(a[1])
    elif t in ("el", "fn", "b"):
        acc.add(("leaf" if t == "el" else t) + ":" + a[1])
        for x in a[2]:
            if isinstance(x, Poly):
                syms_of(x, acc)
            elif isinstance(x, Lam):
                syms_of(x.body, acc)
    elif t in ("P", "eq", "ge", "gt"):
        syms_of(a[1], acc)
    elif t in ("div", "mod"):
        syms_of(a[1], acc)
        syms_of(a[2], acc)


# ------------------------------------------------------------------ printing
def show(p, names=None, limit=600):
    names = dict(names or {})
    pool = iter("abcdefghijkmnopqrstuvwxyz")

    def nm(i):
        if i not in names:
            names[i] = "k%d" % i
        return names[i]

    def sp(p):
        if not p.terms:
            return "0"
        return " + ".join(st(t) for t in sorted(p.terms, key=lambda t: t.key()))

    def st(t):
        c = t.coef.key()
        s = "*".join(sa(a) + ("" if e == 1 else f"^{e}" if isinstance(e, F) else f"^({sp(e)})") for a, e in t.fac)
        b = "".join(f"Sum[{nm(b)}<{sp(RANGE[b])}] " for b in t.bound)
        if not s:
            return b + c
        if c == "1":
            return b + s
        return b + ("-" + s if c == "-1" else c + "*" + s)

    def sa(a):
        t = a[0]
        if t == "idx":
            return nm(a[1])
        if t == "sym":
            return a[1] + ("*" if a[3] else "")
        if t == "num":
            return str(a[1])
        if t in ("el",):
            return a[1] + ("*" if a[3] else "") + "[" + ",".join(sp(x) for x in a[2]) + "]"
        if t == "fn" or t == "b":
            return a[1] + ("*" if t == "fn" and a[3] else "") + "(" + ",".join(x if isinstance(x, str) else sp(x) if isinstance(x, Poly) else "<array " + sp(x.body) + ">" for x in a[2]) + ")"
        if t == "P":
            return "(" + sp(a[1]) + ")"
        if t == "eq":
            return "[" + sp(a[1]) + "==0]"
        if t == "ge":
            return "[" + sp(a[1]) + ">=0]"
        if t == "gt":
            return "[" + sp(a[1]) + ">0]"
        return f"({sp(a[1])} {'//' if t == 'div' else '%'} {sp(a[2])})"
    s = sp(p)
    return s if len(s) <= limit else s[:limit] + "..."
