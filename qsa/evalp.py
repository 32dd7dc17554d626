"""Random interpretation of extracted terms.

An equality of two extracted value terms that the normal form leaves open is refuted only by a valuation: an
assignment of small integers to size symbols and index variables, and of pseudo-random numbers to leaf
elements and uninterpreted functions, under which the two terms differ.  Nothing of the analysed program runs
here; the terms are the ones the dataflow analysis extracted."""
import cmath
import hashlib
import itertools
import math
import time
from fractions import Fraction as F

from . import alg
from .alg import Poly, Lam


class Inconclusive(Exception):
    pass


def rnd(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0 ** 64


DIGITS = [6]


def canon(x):
    if isinstance(x, str):
        return x
    if isinstance(x, complex):
        if abs(x.imag) < 1e-9 * (1 + abs(x.real)):
            x = x.real
        else:
            return ("c", canon(x.real), canon(x.imag))
    if abs(x) < 1e-9:
        return 0.0
    return float("%.*g" % (DIGITS[0], x))


class Val:
    def __init__(self, seed, fixed=None, budget=400000, hints=(), mags=()):
        self.seed = seed
        self.hints = hints          # integers that comparisons of the terms mention
        self.mags = mags            # real numbers that comparisons of the terms mention
        self.syms = dict(fixed or {})
        self.idx = {}
        self.budget = budget
        self.memo = {}
        self.forced = {}
        self.mag = 0
        self.alias = {}

    def near(self, key, signed=False):
        """an integer next to one the comparisons mention, or None"""
        if not self.hints or rnd(self.seed, key, "h") >= 0.6:
            return None
        v = self.hints[int(rnd(self.seed, key, "hk") * len(self.hints))] + int(rnd(self.seed, key, "ho") * 3) - 1
        return -v if signed and rnd(self.seed, key, "hs") < 0.5 else v

    def scale(self, key):
        """a real of the size of one the comparisons mention, or None"""
        if not self.mags or rnd(self.seed, key, "m") >= 0.4:
            return None
        return self.mags[int(rnd(self.seed, key, "mk") * len(self.mags))] * (0.5 + 1.2 * rnd(self.seed, key, "mo"))

    def sym(self, name):
        if name not in self.syms and name in self.alias:
            self.syms[name] = self.poly(self.alias[name])
        if name not in self.syms:
            if name[:1] in "?\u22a4\u27e8":
                raise Inconclusive("value not modelled: " + name)
            if name == "pi":
                self.syms[name] = math.pi
            elif name == "INF":
                raise Inconclusive("division by zero")
            elif name in alg.SYM_INT:
                lo = alg.SYM_MIN.get(name)
                v = self.near(name)
                if v is not None:
                    self.syms[name] = v if lo is None else max(int(lo), v)
                elif lo is None:
                    self.syms[name] = int(rnd(self.seed, name) * 9) - 4
                else:
                    self.syms[name] = int(lo) + int(rnd(self.seed, name) * 4)
            else:
                v = self.scale(name)
                if v is None:
                    v = rnd(self.seed, name) * 1.7 + 0.2
                lo = alg.SYM_MIN.get(name)
                if lo is not None:
                    v += float(lo)
                elif rnd(self.seed, name, "s") < 0.4:
                    v = -v
                if not alg.SYM_REAL.get(name, True):
                    v = complex(v, rnd(self.seed, name, "im") * 2 - 1)
                self.syms[name] = v
        return self.syms[name]

    def poly(self, p, env=None):
        env = env or {}
        tot, mag = 0, 0
        for t in p.terms:
            x = self.term(t, env)
            tot += x
            mag += abs(x)
        if mag and len(p.terms) > 1:
            if mag > self.mag:
                self.mag = mag
            if abs(tot) < 1e-12 * mag:
                return 0                    # cancellation: rounding noise, not a value
        return tot

    def term(self, t, env):
        c = t.coef
        cc = (int(c.re) if c.re.denominator == 1 else float(c.re)) if not c.im else complex(float(c.re), float(c.im))
        if not t.bound:
            return cc * self.prod(t.fac, env)
        bs = alg.order_bound(t.bound)
        # evaluate gates as soon as their variables are bound
        free = set(bs)
        stages = [[] for _ in range(len(bs) + 1)]
        for a, e in t.fac:
            fv = set(alg.atom_fv(a))
            if isinstance(e, Poly):
                fv |= e.fv()
            k = max([i + 1 for i, b in enumerate(bs) if b in fv], default=0)
            stages[k].append((a, e))
        for s in stages:
            s.sort(key=lambda ae: 0 if alg.is_gate(ae[0]) else 1)

        def rec(i, env, acc):
            acc = acc * self.prod(stages[i], env)
            if acc == 0:
                return 0
            if i == len(bs):
                return acc
            r = self.integer(alg.RANGE[bs[i]], env)
            s = 0
            for v in range(r):
                e2 = dict(env)
                e2[bs[i]] = v
                s += rec(i + 1, e2, acc)
            return s
        return cc * rec(0, env, 1)

    def integer(self, p, env):
        r = self.poly(p, env)
        if isinstance(r, complex):
            if abs(r.imag) > 1e-6:
                raise Inconclusive("complex integer")
            r = r.real
        if abs(r - round(r)) > 1e-6:
            raise Inconclusive("non-integer range")
        return int(round(r))

    def prod(self, fac, env):
        x = 1
        for a, e in sorted(fac, key=lambda ae: 0 if alg.is_gate(ae[0]) else 1) if len(fac) > 1 else fac:
            self.budget -= 1
            if self.budget < 0:
                raise Inconclusive("too large")
            v = self.atom(a, env)
            if e != 1:
                ev = (int(e) if e.denominator == 1 else float(e)) if isinstance(e, F) else self.poly(e, env)
                v = self.pow(v, ev)
            if v == 0 and alg.is_gate(a):
                return 0
            x = x * v
        return x

    def pow(self, v, e):
        try:
            if v == 0:
                return 1 if e == 0 else 0      # total convention 1/0 = 0
            if isinstance(v, (int, float)) and v < 0 and not isinstance(e, complex) and e != int(e):
                return complex(v) ** e
            if isinstance(v, int) and isinstance(e, int) and e < 0:
                return float(v) ** e
            return v ** e
        except OverflowError:
            raise Inconclusive("overflow")

    def real(self, x):
        if isinstance(x, complex):
            if abs(x.imag) > 1e-7 * (1 + abs(x.real)):
                raise Inconclusive("ordering of complex values")
            return x.real
        return x

    def atom(self, a, env):
        t = a[0]
        if t == "idx":
            if a[1] in env:
                return env[a[1]]
            if a[1] not in self.idx:
                r = self.integer(alg.RANGE[a[1]], {})
                if r <= 0:
                    raise Inconclusive("empty range")
                k = len(self.idx)
                v = self.near(("i", k)) if r > 6 else None
                self.idx[a[1]] = v if v is not None and 0 <= v < r else int(rnd(self.seed, "i", k) * r)
            return self.idx[a[1]]
        if t == "sym":
            v = self.sym(a[1])
            return v.conjugate() if a[3] and isinstance(v, complex) else v
        if t == "num":
            return a[1]
        if t == "P":
            return self.poly(a[1], env)
        if t == "eq":
            v = self.poly(a[1], env)
            return 1 if abs(v) < 1e-7 else 0
        if t == "ge":
            return 1 if self.real(self.poly(a[1], env)) >= -1e-9 else 0
        if t == "gt":
            return 1 if self.real(self.poly(a[1], env)) > 1e-9 else 0
        if t == "b":
            args = tuple(self.arg(x, env) for x in a[2])
            return 1 if rnd(self.seed, "b", a[1], args) < 0.5 else 0
        if t in ("div", "mod"):
            x, y = self.integer(a[1], env), self.integer(a[2], env)
            if y == 0:
                raise Inconclusive("division by zero")
            return x // y if t == "div" else x % y
        if t == "el":
            args = []
            for x in a[2]:
                args.append(canon(self.poly(x, env)))
            key = (a[1], tuple(args))
            v = self.leaf(key, alg.LEAF_REAL.get(a[1], False), a[1] in alg.LEAF_INT)
            return v.conjugate() if a[3] and isinstance(v, complex) else v
        if t == "fn":
            v = self.fn(a[1], a[2], env)
            return v.conjugate() if a[3] and isinstance(v, complex) else v
        raise AssertionError(a)

    def satisfy(self, p):
        """choose the value of one integer unknown of p, which occurs linearly, such that p = 0 (best effort)"""
        cands = []
        for t in p.terms:
            if t.bound or len(t.fac) != 1 or t.fac[0][1] != 1 or t.coef.im or abs(t.coef.re) != 1:
                continue
            a = t.fac[0][0]
            if a[0] == "idx" or a[0] == "sym" and a[1] in alg.SYM_INT or a[0] == "fn" and (a[1] in alg.FN_INT or a[1] in alg.FN_SIGNED):
                cands.append((a, int(t.coef.re)))
        if len(cands) < 1 or abs(self.poly(p)) < 1e-9:
            return
        cands.sort(key=lambda ac: rnd(self.seed, "sat", repr(ac[0])))
        for a, c in cands:
            v = self.atom(a, {}) - c * self.integer(p, {})
            if a[0] == "idx":
                if 0 <= v < self.integer(alg.RANGE[a[1]], {}):
                    self.idx[a[1]] = v
                    return
            elif a[0] == "sym":
                lo = alg.SYM_MIN.get(a[1])
                if lo is None or v >= lo:
                    self.syms[a[1]] = v
                    return
            elif v >= 0 or a[1] in alg.FN_SIGNED:
                try:
                    av = tuple(self.arg(x, {}) for x in a[2])
                except Inconclusive:
                    continue
                if a[1] in alg.FN_IMAGES or ("fn", a[1], av) in self.forced:
                    continue
                self.forced["fn", a[1], av] = v
                return

    def leaf(self, key, real, integer=False):
        if integer:
            v = self.near(key)
            return v if v is not None and v >= 0 else int(rnd(self.seed, key) * 5)
        x = rnd(self.seed, key) * 2 - 1
        w = rnd(self.seed, key, "w")
        if w < 0.2:
            x *= 1 + 15 * w
        m = self.scale(key)
        if m is not None:
            x = math.copysign(m, x)
        if real:
            return x
        return complex(x, rnd(self.seed, key, "im") * 2 - 1)

    def arg(self, x, env):
        if isinstance(x, str):
            return x
        if isinstance(x, Lam):
            rs = [self.integer(d, env) for d in x.shape]
            n = 1
            for r in rs:
                n *= max(r, 0)
            if n > 3000:
                raise Inconclusive("array argument too large")
            out = []
            for ix in itertools.product(*[range(r) for r in rs]):
                e2 = dict(env)
                e2.update(zip(x.vars, ix))
                out.append(canon(self.poly(x.body, e2)))
            return (tuple(rs), tuple(out))
        return canon(self.poly(x, env))

    def inverse(self, args, env):
        lam = args[0]
        n, m = (self.integer(d, env) for d in lam.shape)
        if n != m or n > 12:
            raise Inconclusive("inverse of a non-square or large matrix")
        flat = []
        for ix in itertools.product(range(n), range(n)):
            e2 = dict(env)
            e2.update(zip(lam.vars, ix))
            flat.append(self.poly(lam.body, e2))
        flat = tuple(flat)
        if ("inv", flat) not in self.memo:
            A = [[flat[i * n + j] for j in range(n)] + [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
            for k in range(n):
                q = max(range(k, n), key=lambda i: abs(A[i][k]))
                if abs(A[q][k]) < 1e-3:
                    raise Inconclusive("inverse of a nearly singular matrix")
                A[k], A[q] = A[q], A[k]
                A[k] = [x / A[k][k] for x in A[k]]
                for i in range(n):
                    if i != k:
                        f = A[i][k]
                        A[i] = [x - f * y for x, y in zip(A[i], A[k])]
            self.memo["inv", flat] = [r[n:] for r in A]
        i, j = (self.integer(x, env) for x in args[1:])
        if not (0 <= i < n and 0 <= j < n):
            raise Inconclusive("index out of range")
        return self.memo["inv", flat][i][j]

    def fn(self, name, args, env):
        try:
            if name in FN and all(isinstance(x, Poly) for x in args):
                return FN[name](*[self.poly(x, env) for x in args])
        except (OverflowError, ValueError, ZeroDivisionError) as ex:
            raise Inconclusive(f"{name}: {ex}")
        if name[:1] in "?\u22a4":
            raise Inconclusive("value not modelled: " + name)
        if name == "firstfalse":
            lam = args[0]
            for k in range(3000):
                e2 = dict(env)
                e2[lam.vars[0]] = k
                if abs(self.poly(lam.body, e2)) < 1e-9:
                    return k
            raise Inconclusive("loop does not end")
        if name == "prod":
            lam = args[0]
            r = 1
            for k in range(self.integer(lam.shape[0], env)):
                e2 = dict(env)
                e2[lam.vars[0]] = k
                r = r * self.poly(lam.body, e2)
            return r
        if name in ("inv", "inv:real"):
            return self.inverse(args, env)
        av = tuple(self.arg(x, env) for x in args)
        if name in alg.FN_IMAGES:
            ims = alg.FN_IMAGES[name](av)
            if name == "coulomb_ho":
                try:
                    ims += alg.FN_IMAGES[name](tuple(-x if k % 2 else x for k, x in enumerate(av)))
                except TypeError:
                    pass
            av = min(ims, key=str)
        key = ("fn", name, av)
        if key in self.forced:
            return self.forced[key]
        if name in alg.FN_SIGNED:
            v = self.near(key, True)
            return v if v is not None else int(rnd(self.seed, key) * 7) - 3
        return self.leaf(key, name in alg.FN_REAL or name in alg.REALFN, name in alg.FN_INT)


def _r(x):
    if isinstance(x, complex):
        if abs(x.imag) > 1e-7 * (1 + abs(x.real)):
            raise Inconclusive("complex")
        return x.real
    return x


def _lgamma(x):
    x = _r(x)
    if x < 0.5 and abs(x - round(x)) < 1e-9:
        return 1e5              # a pole: the reciprocal of the gamma function vanishes there
    return math.lgamma(x)


def _wrap(bits, signed):
    n, o = 1 << bits, (1 << (bits - 1)) if signed else 0
    return lambda x: (int(round(_r(x))) + o) % n - o


FN = {
    "wrap_int8": _wrap(8, True), "wrap_int16": _wrap(16, True), "wrap_uint8": _wrap(8, False), "wrap_uint16": _wrap(16, False),
    "exp": cmath.exp, "log": lambda x: cmath.log(x), "abs": abs, "sin": cmath.sin, "cos": cmath.cos,
    "tan": cmath.tan, "sinh": cmath.sinh, "cosh": cmath.cosh, "tanh": cmath.tanh,
    "sinc": lambda x: 1.0 if abs(x) < 1e-12 else cmath.sin(math.pi * x) / (math.pi * x),
    "floor": lambda x: math.floor(_r(x) + 1e-9), "ceil": lambda x: math.ceil(_r(x) - 1e-9),
    "trunc": lambda x: math.trunc(_r(x) + (1e-9 if _r(x) >= 0 else -1e-9)),
    "lgamma": _lgamma, "gamma": lambda x: math.gamma(_r(x)),
    "factorial": lambda x: math.gamma(_r(x) + 1),
    "sign": lambda x: (_r(x) > 0) - (_r(x) < 0),
    "heaviside": lambda x, h: 0 if _r(x) < 0 else 1 if _r(x) > 0 else h,
    "min": lambda *a: min(_r(x) for x in a), "max": lambda *a: max(_r(x) for x in a),
    "real": lambda x: x.real, "imag": lambda x: x.imag if isinstance(x, complex) else 0,
    "arctan2": lambda y, x: math.atan2(_r(y), _r(x)), "arctan": lambda x: cmath.atan(x),
    "round": lambda x: round(_r(x)),
}


def close(a, b, mag=0):
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)) + 1e-9 * mag


def hints_of(conds):
    """integer constants in the conditions, as candidate values for sizes"""
    out = set()
    for c, _ in conds:
        p = c if isinstance(c, Poly) else (c[1] if len(c) > 1 and isinstance(c[1], Poly) else None)
        if p is None:
            continue
        for t in p.terms:
            if not t.fac and not t.bound and not t.coef.im and t.coef.re.denominator == 1 and 4 < abs(t.coef.re):
                v = abs(int(t.coef.re))
                if v < 4000:
                    out.add(v)
                if v < 10 ** 7 and any(sum(e for a, e in u.fac if not isinstance(e, Poly)) >= 2 for u in p.terms):
                    r = v ** 0.5                    # thresholds of quadratic quantities
                    out.update(x for x in (int(r / 2), int(r), int(2 * r)) if 4 < x < 4000)
    return sorted(out)


WRAPS = {"wrap_int8": 2 ** 7, "wrap_uint8": 2 ** 8, "wrap_int16": 2 ** 15, "wrap_uint16": 2 ** 16}


def parts(p, seen, gates, fns=None):
    """the comparisons anywhere in a term"""
    for t in p.terms:
        for a, e in t.fac:
            part(a, seen, gates)
            if isinstance(e, Poly):
                parts(e, seen, gates)
        for b in t.bound:
            if b not in seen:
                seen.add(b)
                parts(alg.RANGE[b], seen, gates)


def part(a, seen, gates):
    if a in seen or len(seen) > 4000:
        return
    seen.add(a)
    t = a[0]
    if t in ("eq", "ge", "gt"):
        gates.append(a)
    if t in ("P", "eq", "ge", "gt"):
        parts(a[1], seen, gates)
    elif t in ("div", "mod"):
        parts(a[1], seen, gates)
        parts(a[2], seen, gates)
    elif t in ("el", "fn", "b"):
        if t == "fn" and a[1] in ("min", "max") and all(isinstance(x, Poly) for x in a[2]):
            for x, y in itertools.combinations(a[2], 2):
                for z in (x - y, y - x):
                    gates += [f[0] for u in alg.ge0(z).terms for f in u.fac if f[0][0] in ("ge", "gt", "eq")][:1]
        elif t == "fn" and a[1] in ("heaviside", "sign") and isinstance(a[2][0], Poly):
            gates += [f[0] for u in alg.ge0(a[2][0]).terms for f in u.fac if f[0][0] in ("ge", "gt", "eq")][:1]
        elif t == "fn" and a[1] in WRAPS and isinstance(a[2][0], Poly):
            gates += [f[0] for u in alg.ge0(a[2][0] - WRAPS[a[1]]).terms for f in u.fac if f[0][0] in ("ge", "gt", "eq")][:1]
        for x in a[2]:
            if isinstance(x, Lam):
                parts(x.body, seen, gates)
            elif isinstance(x, Poly):
                parts(x, seen, gates)
    elif t == "idx" and a[1] not in seen and a[1] in alg.RANGE:
        seen.add(a[1])
        parts(alg.RANGE[a[1]], seen, gates)


def mags_of(gates):
    """constants of ordinary comparisons, as candidate sizes of real quantities"""
    out, small = set(), set()
    for g in gates:
        for t in g[1].terms:
            if not t.fac and not t.bound and not t.coef.im and t.coef.re:
                c = abs(float(t.coef.re))
                if c not in (0.5, 1.0, 2.0, 3.0) and 1e-4 <= c <= 1e6:
                    out.add(c)
                    if any(sum(e for _, e in u.fac if not isinstance(e, Poly)) >= 2 for u in g[1].terms):
                        out.add(c ** 0.5)
                elif c >= 1:
                    small.add(c)
    return (sorted(out) + sorted(small))[:8]


def aliases(conds):
    """{symbol: term} from conditions symbol = term (the symbol not occurring in the term)"""
    out = {}
    for c, want in conds:
        if not want:
            continue
        if isinstance(c, Poly):
            t = c.terms[0] if len(c.terms) == 1 else None
            fs = [a for a, e in t.fac if a[0] == "eq"] if t is not None and not t.bound and len(t.fac) == 1 else []
        else:
            fs = [c] if c[0] == "eq" else []
        for a in fs:
            best = None
            for t in a[1].terms:
                if not t.bound and len(t.fac) == 1 and t.fac[0][0][0] == "sym" and t.fac[0][1] == 1 and not t.coef.im:
                    n = t.fac[0][0][1]
                    if n in alg.SYM_INT or n in out or not alg.SYM_REAL.get(n, True):
                        continue
                    r = Poly(tuple(u for u in a[1].terms if u is not t)) * (F(-1) / t.coef.re)
                    ss = alg.syms_of(r)
                    if n not in ss and not any(x in out for x in ss) and not any(n in alg.syms_of(w) for w in out.values()) and (best is None or n.count(":") > best[0].count(":")):
                        best = n, r
            if best:
                out[best[0]] = best[1]
    return out


def evaluate(a, b, conds, seed, fx, hints=(), mags=(), goals=()):
    v = Val(seed, fx, hints=hints, mags=mags)
    v.alias = aliases(conds)
    for g, want in goals:
        if want and g[0] == "eq":
            v.satisfy(g[1])
    for g, want in goals:
        if (v.atom(g, {}) != 0) != want:
            return None
    if not all((abs(v.poly(c if isinstance(c, Poly) else alg.atom(c))) > 1e-9) == want for c, want in conds):
        return None
    return v, v.poly(a), v.poly(b)


def attempt(a, b, conds, seed, fx, hints, mags, goals=()):
    """None | (valuation, equal?) ; raises Inconclusive"""
    r = evaluate(a, b, conds, seed, fx, hints, mags, goals)
    if r is None:
        return None
    v, x, y = r
    if close(x, y, v.mag):
        return v, True, ""
    # a difference counts only if it does not hinge on the rounding of hashed arguments
    for dg in (5, 7):
        DIGITS[0] = dg
        try:
            r2 = evaluate(a, b, conds, seed, fx, hints, mags, goals)
        finally:
            DIGITS[0] = 6
        if r2 is None or close(r2[1], r2[2], r2[0].mag):
            raise Inconclusive("difference depends on rounding")
    vals = {s: (round(q, 4) if isinstance(q, float) else q) for s, q in v.syms.items() if s != "pi"}
    return v, False, f"{x:.6g} != {y:.6g} at {vals} indices {list(v.idx.values())}"


def determines(entries, outer=(), conds=(), samples=10):
    """entries: [(keys, val, gate, index variables)].  False if, in some valuation, two index points (of one entry or
    of two) with gate = 1 and equal keys give different values"""
    t0 = time.time()
    few = max(len(e[3]) for e in entries) < 3
    for k in range(samples):
        if time.time() - t0 > 10:
            break
        v = Val(f"fd:{k}")
        v.alias = aliases(conds)
        base = {}
        try:
            for i in list(outer) + [i for e in entries for i in e[3]]:
                for n in sorted(alg.syms_of(alg.RANGE[i])):
                    if n in alg.SYM_INT and n not in v.syms:
                        v.syms[n] = v.sym(n) + (2 + k if few else k % 4)
            for i in outer:
                v.idx = base
                base = {**base, i: int(rnd(k, "o", len(base)) * v.integer(alg.RANGE[i], {}))}
            if not all((abs(v.poly(c if isinstance(c, Poly) else alg.atom(c))) > 1e-9) == want for c, want in conds):
                continue
        except Inconclusive:
            continue
        seen = {}
        for keys, val, gate, ivars in entries:
            pts = [base]
            try:
                for i in ivars:
                    nxt = []
                    for e in pts:
                        v.idx = e
                        nxt += [{**e, i: x} for x in range(v.integer(alg.RANGE[i], {}))]
                    if len(nxt) > 4000:
                        nxt.sort(key=lambda e: rnd(k, *e.values()))
                        del nxt[4000:]
                    pts = nxt
            except Inconclusive:
                continue
            for e in pts:
                v.idx, v.budget = e, 20000
                try:
                    if abs(v.poly(gate)) < 1e-9:
                        continue
                    kk = tuple(canon(v.poly(q)) for q in keys)
                    x = v.poly(val)
                except Inconclusive:
                    continue
                if kk in seen and abs(seen[kk] - x) > 1e-5 * (1 + abs(x)):
                    return False
                seen.setdefault(kk, x)
                if time.time() - t0 > 10:
                    break
    return True


def test_equal(a, b, conds=(), fixed=None, tries=24, samples=10, seed=1):
    """-> ('equal', n) | ('different', valuation text) | ('inconclusive', why).
    conds: list of (gate atom or Poly, bool) that must hold in a valuation."""
    n = 0
    conds = list(conds)
    why = "no admissible valuation found"
    seen, gates = set(), []
    parts(a, seen, gates)
    na = len(gates)
    parts(b, seen, gates)
    hs = hints_of(conds + [(g, True) for g in gates])
    ms = mags_of(gates)
    open_ = {(g, w) for g in gates for w in (True, False)}
    t0 = time.time()

    def note(v):
        for g in gates:
            if (g, True) in open_ or (g, False) in open_:
                try:
                    open_.discard((g, v.atom(g, {}) != 0))
                except (Inconclusive, KeyError):
                    pass
    for k in range(max(tries, samples * 2) * 6):
        if n >= 8 and time.time() - t0 > 4 or time.time() - t0 > 20:
            break
        fx = fixed(k) if callable(fixed) else fixed
        try:
            r = attempt(a, b, conds, f"{seed}:{k}", fx, hs if k % 2 else (), ms if k % 4 == 3 else ())
        except Inconclusive as ex:
            why = str(ex)
            continue
        if r is None:
            continue
        n += 1
        if not r[1]:
            return "different", r[2]
        if n <= 12:
            note(r[0])
        if n >= samples:
            break
    if not n:
        return "inconclusive", why
    # comparisons that took only one truth value so far: look for valuations on the other side;
    # terms in which the two sides differ: look for valuations that satisfy all their comparisons at once
    goals = [((g, w),) for g in gates for w in (True, False) if (g, w) in open_][:24]
    sets = {}
    for t in (a - b).terms:
        gs = tuple(sorted({f for f, _ in t.fac if f[0] in ("eq", "ge", "gt")}, key=lambda f: (f[0] != "eq", repr(f))))
        if len(gs) > 1:
            sets.setdefault(gs, tuple((g, True) for g in gs))
    goals = [goals[k] if w == 0 else list(sets.values())[k] for k in range(max(len(goals), len(sets))) for w in (0, 1)
             if (k < len(goals) if w == 0 else k < min(len(sets), 24))]
    t1 = time.time()
    for j, goal in enumerate(goals):
        got = 0
        for k in range(160):
            if got >= 3 or time.time() - t1 > 0.2 * (j + 1) + 0.5:
                break
            fx = fixed(k) if callable(fixed) else fixed
            try:
                r = attempt(a, b, conds, f"{seed}:g{j}:{k}", fx, hs if k % 3 else (), ms if k % 2 else (), goal)
            except (Inconclusive, KeyError):
                continue
            if r is None:
                continue
            got += 1
            n += 1
            if not r[1]:
                return "different", r[2]
    return "equal", n
