"""Models of builtins and of the external functions the package uses (numpy & co)."""
import math
import posixpath
from fractions import Fraction as F

from . import alg
from .alg import (Poly, P, POLY1, ZERO, Lam, sym, newidx, idx, el, fn, subst, sumover, eq0, ge0, gt0, bgate,
                  conj, power, fdiv, fmod, const, PI)
from .values import *

ARRAY_ROOTS = {"numpy", "xp", "cupy"}
EXC = ["Exception", "ValueError", "TypeError", "AssertionError", "NotImplementedError", "AttributeError", "KeyError",
       "IndexError", "RuntimeError", "ImportError", "ModuleNotFoundError", "ZeroDivisionError", "OSError", "IOError", "FileNotFoundError",
       "FileExistsError", "StopIteration", "NameError", "BaseException", "UserWarning", "DeprecationWarning", "RuntimeWarning",
       "Warning", "EOFError", "ArithmeticError", "LookupError", "PermissionError", "FutureWarning", "KeyboardInterrupt"]

MODELS = {}
BUILTINS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def npf(*names):
    """numpy-namespace function: f(I, mod, args, kw)"""
    def deco(f):
        for n in names:
            MODELS["np:" + n] = f
        return f
    return deco


def bi(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return deco


def builtin(I, name):
    if name in BUILTINS:
        return (PyFn(BUILTINS[name], name),)
    if name in EXC:
        return (Ext("builtins", name),)
    if name == "object":
        return (Ext("builtins", "object"),)
    if name in ("int", "float", "complex", "bool", "str", "list", "tuple", "dict", "set"):
        return (Ext("builtins", name),)
    if name == "__name__":
        return ("module",)
    if name == "NotImplemented":
        return (Opq("NotImplemented"),)
    if name == "Ellipsis":
        return (Ellipsis,)
    return None


# ------------------------------------------------------------------ helpers
def getarg(args, kw, k, name, default=None):
    if len(args) > k:
        return args[k]
    return kw.get(name, default)


NARROW = {"float32": "f", "float16": "f", "complex64": "c", "int8": "i", "uint8": "i", "int16": "i", "uint16": "i"}


def todt(I, v):
    """DT from a dtype-like value, or None"""
    if isinstance(v, DT):
        return v
    if isinstance(v, Ext):
        n = v.path.split(".")[-1] if v.path else ""
        n = {"single": "float32", "half": "float16", "csingle": "complex64", "byte": "int8", "short": "int16"}.get(n, n)
        if n in NARROW:
            return DT(NarrowK(NARROW[n], n))
        if n in ("float", "float64", "float_", "double", "longdouble"):
            return DT("f")
        if n in ("complex", "complex128", "complex_", "cdouble", "clongdouble"):
            return DT("c")
        if n in ("int", "int64", "int32", "int_", "intp", "uint64", "uint32", "intc", "longlong"):
            return DT("i")
        if n in ("bool", "bool_"):
            return DT("b")
    if isinstance(v, str):
        s = v.lstrip("<>=|")
        s = {"f4": "float32", "f2": "float16", "c8": "complex64", "F": "complex64", "f": "float32", "e": "float16", "i1": "int8", "i2": "int16", "u1": "uint8", "b": "int8"}.get(s, s)
        if s in NARROW:
            return DT(NarrowK(NARROW[s], s))
        if s.startswith("complex") or s in ("c16", "c8", "D", "F"):
            return DT("c")
        if s.startswith("float") or s in ("f8", "f4", "d", "f"):
            return DT("f")
        if s.startswith("int") or s in ("i8", "i4", "i", "l"):
            return DT("i")
        if s.startswith("bool") or s == "?":
            return DT("b")
    if isinstance(v, PyFn):
        return todt(I, v.name)
    return None


def isarr(v):
    return isinstance(v, Arr)


def opq_array(I, v):
    return I.mk(v.shape, lambda ix: el(v.key, ix), v.dt)


def toarray(I, v, dt=None, mod="numpy", copy=False):
    """np.array semantics (a fresh array for lists; the same array for arrays unless copy)"""
    if isinstance(v, Arr):
        d = I.dt(v)
        if dt is not None and (dt != d or isinstance(dt, NarrowK)):
            return astype(I, v, dt, mod)
        if copy or I.S.cells[v.cell].mod != mod:
            return copyarr(I, v, mod)
        return v
    if isinstance(v, Opq) and v.shape is not None:
        a = opq_array(I, v)
        return toarray(I, a, dt, mod)
    s = I.sc(v)
    if s is not None:
        return I.mk((), lambda ix: I.cast_store(s.p, None, dt) if dt else s.p, dt or s.k, mod)
    if isinstance(v, (ListR, tuple, Iter)) or isinstance(v, DictR):
        items = I.list_items(v) if not isinstance(v, tuple) else list(v)
        if not items:
            return I.mk((ZERO,), lambda ix: ZERO, dt or "f", mod)
        if any(isinstance(x, Top) for x in items):
            raise Undecided(next(x for x in items if isinstance(x, Top)).why)
        if len(items) == 1 and isinstance(items[0], Seg):
            sg = items[0]
            val = sg.value
            t = template_array(I, val)
            kind = dt or t.dt

            def f(ix):
                b = subst(t.body, {sg.var: ix[0], **dict(zip(t.vars, ix[1:]))})
                return I.cast_store(b, None, kind)
            return I.mk((sg.length,) + tuple(subst(d, {}) for d in t.shape), f, kind, mod)
        if any(isinstance(x, Seg) for x in items):
            I.undec("array from mixed list")
        subs = [toarray(I, x, None, mod) for x in items]
        sh = subs[0].shape
        for x in subs[1:]:
            if len(x.shape) != len(sh) or not all(I.same_dim(a, b) for a, b in zip(x.shape, sh)):
                I.raise_("ValueError", "inhomogeneous shape")
        ks = dt or kjoin(*[I.dt(x) for x in subs])
        ts = [I.tmpl(x) for x in subs]

        def f(ix):
            tot = ZERO
            for k, t in enumerate(ts):
                tot = tot + eq0(ix[0] - k) * I.cast_store(I.at(t, ix[1:]), None, ks)
            return tot
        return I.mk((const(len(subs)),) + tuple(sh), f, ks, mod)
    if v is None:
        I.undec("array of None")
    if isinstance(v, Top):
        raise Undecided(v.why)
    I.undec(f"array from {v!r}")


def template_array(I, v):
    """ArrT for a template value (scalar, tuple of templates, ArrT)"""
    if isinstance(v, ArrT):
        return v
    s = I.sc(v)
    if s is not None:
        return ArrT((), (), s.p, s.k, "numpy")
    if isinstance(v, Arr):
        return I.tmpl(v)
    if isinstance(v, tuple):
        ts = [template_array(I, x) for x in v]
        k = newidx(const(len(ts)))
        vs = tuple(newidx(d) for d in ts[0].shape)
        tot = ZERO
        for j, t in enumerate(ts):
            tot = tot + eq0(idx(k) - j) * subst(t.body, dict(zip(t.vars, [idx(x) for x in vs])))
        return ArrT((const(len(ts)),) + tuple(ts[0].shape), (k,) + vs, tot, kjoin(*[t.dt for t in ts]), "numpy")
    I.undec(f"array element {v!r}")


def copyarr(I, a, mod=None):
    t = I.tmpl(a)
    return I.mk(a.shape, lambda ix: I.at(t, ix), t.dt, mod or t.mod)


def astype(I, a, dt, mod=None):
    t = I.tmpl(a)
    return I.mk(a.shape, lambda ix: I.cast_store(I.at(t, ix), None, dt), dt, mod or t.mod)


def shape_arg(I, v):
    """tuple of Polys from an int or sequence"""
    if isinstance(v, (int, Sc)) and not isinstance(v, bool):
        return (I.poly(v),)
    if isinstance(v, (tuple, ListR)):
        items = list(v) if isinstance(v, tuple) else I.S.lists[v.id]
        if any(isinstance(x, Seg) for x in items):
            I.undec("symbolic rank")
        return tuple(I.poly(x) for x in items)
    if isinstance(v, Arr):
        it = I.iterate(v)
        if it.items is not None:
            return tuple(I.poly(x) for x in it.items)
    I.undec(f"shape {v!r}")


def shapev(I, sh):
    return tuple(I.norm(Sc(d, "i")) for d in sh)


def axis_of(I, v, n):
    v = I.norm(v) if isinstance(v, Sc) else v
    if not isinstance(v, int):
        I.undec("symbolic axis")
    if v < 0:
        v += n
    if not 0 <= v < n:
        I.raise_("ValueError", f"axis {v} out of bounds")
    return v


def arr(I, v, mod="numpy"):
    return v if isinstance(v, Arr) else toarray(I, v, None, mod)


# ------------------------------------------------------------------ indexing
def norm_key(I, a, k):
    ks = list(k) if isinstance(k, tuple) else [k]
    out = []
    for x in ks:
        if isinstance(x, (ListR,)):
            x = toarray(I, x)
        if isinstance(x, Opq) and x.shape is not None:
            x = opq_array(I, x)
        out.append(x)
    n = len(a.shape)

    def used(x):
        if x is None or x is Ellipsis:
            return 0
        if isinstance(x, Arr) and I.dt(x) == "b":
            return len(x.shape)
        return 1
    cnt = sum(used(x) for x in out)
    if cnt > n:
        I.raise_("IndexError", "too many indices for array")
    if not any(x is Ellipsis for x in out):
        out.append(Ellipsis)
    res = []
    for x in out:
        if x is Ellipsis:
            res.extend([SliceV(None, None, None)] * (n - cnt))
        else:
            res.append(x)
    return res


def slice_parts(I, s, dim):
    """(start Poly, length Poly, step int)"""
    step = 1 if s.c is None else I.norm(s.c)
    if not isinstance(step, int):
        I.undec("symbolic slice step")
    if step < 0:
        if s.a is None and s.b is None:
            if step == -1:
                return dim - 1, dim, -1
        I.undec("negative slice step")
    if step == 0:
        I.raise_("ValueError", "slice step cannot be zero")

    def bound(v, default):
        if v is None:
            return default
        p = I.poly(v)
        c = p.as_int()
        if c is not None and c < 0:
            p = dim + c
        else:
            lo, hi = alg.bounds_poly(p)
            if (lo is None or lo < 0) and c is None:
                b = I.branch(ge0(p)) if not I.gated(ge0(p)) else True
                if b is False:
                    p = dim + p
        return p

    a = bound(s.a, ZERO)
    b = bound(s.b, dim)
    for nm in ("a", "b"):
        p = a if nm == "a" else b
        if p == dim or p.iszero():
            continue
        g = I.simp(ge0(dim - p))
        if g == POLY1:
            continue
        if I.gated(g):
            continue
        if I.branch(g) is False:
            if nm == "a":
                a = dim
            else:
                b = dim
    ln = b - a
    if step > 1:
        q = alg.exact_div(ln, const(step))
        if q is None:
            q2 = alg.exact_div(ln + 0, const(step))
            q = fdiv(ln + (step - 1), const(step))
        ln = q
    g = I.simp(ge0(ln))
    if g.iszero():
        ln = ZERO
    elif g != POLY1 and not I.gated(g):
        if I.branch(g) is False:
            ln = ZERO
    return a, ln, step


def int_index(I, x, dim):
    p = I.poly(x)
    c = p.as_int()
    d = dim.as_int()
    if c is not None:
        if d is not None and not -d <= c < d:
            I.raise_("IndexError", f"index {c} is out of bounds for axis of size {d}")
        if c < 0:
            return dim + c
    else:
        lo, hi = alg.bounds_poly(p)
        if hi is not None and hi < 0:
            return dim + p
    return p


def view(I, a, key):
    """(Arr view or fancy pseudo-view, is_basic) or Masked"""
    ks = norm_key(I, a, key)
    # boolean masks
    masks = [x for x in ks if isinstance(x, Arr) and I.dt(x) == "b"]
    if masks:
        if len(masks) == 1 and len([x for x in ks if not isinstance(x, SliceV) or x is masks[0]]) == 1 and ks[0] is masks[0]:
            m = masks[0]
            for d1, d2 in zip(m.shape, a.shape):
                if not I.same_dim(d1, d2):
                    I.raise_("IndexError", "boolean index did not match")
            vs = tuple(newidx(d) for d in a.shape)
            ix = [idx(v) for v in vs]
            return ("mask", vs, I.at(m, ix[: len(m.shape)]), I.at(a, ix))
        I.undec("boolean mask index")
    fancy = [k for k, x in enumerate(ks) if isinstance(x, Arr) and len(x.shape) > 0 or (isinstance(x, Arr))]
    fancy = [k for k, x in enumerate(ks) if isinstance(x, Arr)]
    shape, nvars, exprs = [], [], []
    ax = 0
    fshape = None
    if fancy:
        fshape = I.bshape(*[ks[k].shape for k in fancy])
        fvars = [newidx(d) for d in fshape]
        fix = [idx(v) for v in fvars]
        ints = [k for k, x in enumerate(ks) if not isinstance(x, (SliceV, Arr)) and x is not None]
        adv = sorted(fancy + ints)
        contiguous = all(b - a_ == 1 for a_, b in zip(adv, adv[1:]))
        placed = False
        if not contiguous:
            shape.extend(fshape)
            nvars.extend(fvars)
            placed = True
    for k, x in enumerate(ks):
        if x is None:
            shape.append(POLY1)
            nvars.append(newidx(POLY1))
            continue
        dim = a.shape[ax]
        if isinstance(x, SliceV):
            if x.a is None and x.b is None and x.c is None:
                v = newidx(dim)
                shape.append(dim)
                nvars.append(v)
                exprs.append(idx(v))
            else:
                st, ln, step = slice_parts(I, x, dim)
                v = newidx(ln)
                shape.append(ln)
                nvars.append(v)
                exprs.append(st + idx(v) * step)
        elif isinstance(x, Arr):
            if not placed:
                shape.extend(fshape)
                nvars.extend(fvars)
                placed = True
            e = I.bat(x, fix)
            c = e.as_int()
            exprs.append(dim + c if c is not None and c < 0 else e)
        else:
            if isinstance(x, Top):
                raise Undecided(x.why)
            if fancy and not placed and contiguous:
                shape.extend(fshape)
                nvars.extend(fvars)
                placed = True
            if I.sc(x) is None:
                I.raise_("IndexError", f"invalid index {x!r}") if x is not None and not isinstance(x, Opq) else I.undec("opaque index")
            exprs.append(int_index(I, x, dim))
        ax += 1
    m = dict(zip(a.vars, exprs))
    imap = tuple(subst(e, m) for e in a.imap)
    return ("view", Arr(a.cell, shape, nvars, imap), not fancy)


def index(I, a, key):
    r = view(I, a, key)
    if r[0] == "mask":
        return Masked(a.shape, r[1], r[2], r[3], I.dt(a))
    _, v, basic = r
    if not v.shape:
        return I.norm(Sc(I.at(v, []), I.dt(a)))
    if basic:
        return v
    return copyarr(I, v)


def setindex(I, a, key, val):
    if isinstance(val, Top):
        c = I.S.cells[a.cell]
        I.S.writes.append((a.cell, c.label, I.loc()))
        I.S.cells[a.cell] = c.with_body(fn("?" + val.why, ()))
        return
    if isinstance(val, Opq):
        if val.shape is not None:
            val = opq_array(I, val)
        else:
            val = Sc(fn("?" + val.key, ()), "c")
    r = view(I, a, key)
    if r[0] == "mask":
        _, vs, mask, _old = r
        c = I.S.cells[a.cell]
        if isinstance(val, Masked):
            m = dict(zip(val.vars, [idx(v) for v in vs]))
            if subst(val.mask, m) != mask:
                I.undec("store with a different boolean mask")
            body = subst(val.body, m)
        else:
            s = I.sc(val)
            if s is None:
                I.undec("array stored through a boolean mask")
            body = s.p
        ref = Arr(a.cell, a.shape, a.vars, a.imap)
        old = I.tmpl(a)

        def f(ix):
            mm = dict(zip(vs, ix))
            g = subst(mask, mm)
            return g * subst(body, mm) + (POLY1 - g) * I.at(old, ix)
        I.store(ref, f)
        return
    _, v, basic = r
    if isinstance(val, (ListR, tuple)):
        val = toarray(I, val)
    if isinstance(val, Masked):
        I.undec("mask selection stored")
    if isinstance(val, Arr):
        vs = list(val.shape)
        while len(vs) > len(v.shape):
            if vs[0] != POLY1:
                I.raise_("ValueError", "could not broadcast input array into shape")
            vs.pop(0)
        t = I.tmpl(val)
        drop = len(val.shape) - len(vs)
        for d, e in zip(reversed(vs), reversed(v.shape)):
            if d != POLY1 and not I.same_dim(d, e):
                I.raise_("ValueError", f"could not broadcast input array of length {d} into {e}")
        off = len(v.shape) - len(vs)

        def f(ix):
            return I.at(t, [ZERO] * drop + [ZERO if d == POLY1 else i for d, i in zip(vs, ix[off:])])
    else:
        s = I.sc(val)
        if s is None:
            if val is None:
                I.raise_("TypeError", "None stored into an array")
            I.raise_("TypeError", f"cannot store {type(val).__name__} into an array")
        f = lambda ix: s.p
    I.store(v, f)


# ------------------------------------------------------------------ linear algebra
def contract(I, ops, labels, out, mod="numpy"):
    """einsum: ops arrays, labels list of label lists, out label list"""
    dims = {}
    for a, ls in zip(ops, labels):
        if len(ls) != len(a.shape):
            I.raise_("ValueError", f"einsum: operand has {len(a.shape)} axes, subscripts {len(ls)}")
        for d, x in zip(a.shape, ls):
            if x in dims:
                if dims[x] == POLY1:
                    dims[x] = d
                elif d != POLY1 and not I.same_dim(dims[x], d):
                    I.raise_("ValueError", f"shapes not aligned: {dims[x]} and {d}")
            else:
                dims[x] = d
    for x in out:
        if x not in dims:
            I.raise_("ValueError", "einsum: output subscript not in inputs")
    summed = [x for x in dims if x not in out]
    ts = [I.tmpl(a) for a in ops]
    k = kjoin(*[t.dt for t in ts])

    def f(ix):
        env = dict(zip(out, ix))
        sv = {}
        for x in summed:
            sv[x] = newidx(dims[x])
            env[x] = idx(sv[x])
        prod = POLY1
        for t, ls in zip(ts, labels):
            prod = prod * I.at(t, [ZERO if d == POLY1 else env[x] for x, d in zip(ls, t.shape)])
        for x in summed:
            prod = sumover(prod, sv[x])
        return prod
    r = I.mk([dims[x] for x in out], f, k if k != "b" else "i", mod)
    return r


def scal(I, r):
    """0-d results become scalars"""
    if isinstance(r, Arr) and not r.shape:
        return I.norm(Sc(I.at(r, []), I.dt(r)))
    return r


def dot(I, a, b, mod="numpy"):
    sa, sb = (None if isinstance(x, Arr) else I.sc(x) for x in (a, b))
    if isinstance(a, Top) or isinstance(b, Top):
        raise Undecided("dot of unknown")
    if sa is not None or sb is not None:
        return I.binop("Mult", a, b)
    a, b = arr(I, a), arr(I, b)
    if not a.shape or not b.shape:
        return I.binop("Mult", a, b)
    la = [f"a{k}" for k in range(len(a.shape))]
    lb = [f"b{k}" for k in range(len(b.shape))]
    s = la[-1]
    kb = len(b.shape) - 2 if len(b.shape) >= 2 else 0
    lb[kb] = s
    return scal(I, contract(I, [a, b], [la, lb], la[:-1] + [x for x in lb if x != s], mod))


def matmul(I, a, b, mod=None):
    if isinstance(a, Top) or isinstance(b, Top):
        return a if isinstance(a, Top) else b
    a, b = arr(I, a), arr(I, b)
    if not a.shape or not b.shape:
        I.raise_("ValueError", "matmul: operand does not have enough dimensions")
    mod = mod or I.S.cells[a.cell].mod
    if len(a.shape) <= 2 and len(b.shape) <= 2:
        return dot(I, a, b, mod)
    # batched
    na, nb = len(a.shape), len(b.shape)
    if na == 1 or nb == 1:
        if na == 1:
            la, lb = ["s"], [f"x{k}" for k in range(nb)]
            lb[-2] = "s"
            return contract(I, [a, b], [la, lb], [x for x in lb if x != "s"], mod)
        la = [f"x{k}" for k in range(na)]
        la[-1] = "s"
        return contract(I, [a, b], [la, ["s"]], [x for x in la if x != "s"], mod)
    nbatch = max(na, nb) - 2
    bl = [f"B{k}" for k in range(nbatch)]
    la = bl[nbatch - (na - 2):] + ["m", "s"]
    lb = bl[nbatch - (nb - 2):] + ["s", "n"]
    return contract(I, [a, b], [la, lb], bl + ["m", "n"], mod)


@npf("dot")
def _(I, mod, args, kw):
    r = dot(I, args[0], args[1], mod)
    return outarg(I, r, kw)


def outarg(I, r, kw):
    o = kw.get("out")
    if isinstance(o, tuple) and len(o) == 1:
        o = o[0]
    if isinstance(o, Arr):
        t = I.tmpl(arr(I, r))
        if len(t.shape) != len(o.shape):
            I.raise_("ValueError", "output array has the wrong shape")
        I.store(o, lambda ix: I.at(t, ix))
        return o
    return r


@npf("linalg.multi_dot")
def _(I, mod, args, kw):
    items = I.list_items(args[0])
    r = items[0]
    for x in items[1:]:
        r = dot(I, r, x, mod)
    return r


@model("builtins.object.__new__")
def _(I, args, kw):
    return I.blank(args[0])


@model("builtins.object.__setattr__")
def _(I, args, kw):
    return I.rawset(args[0], args[1], args[2])


@npf("matmul")
def _(I, mod, args, kw):
    return outarg(I, matmul(I, args[0], args[1], mod), kw)


@npf("vdot")
def _(I, mod, args, kw):
    a, b = arr(I, args[0]), arr(I, args[1])
    a, b = ravel(I, a), ravel(I, b)
    return scal(I, contract(I, [npconj(I, a), b], [["s"], ["s"]], [], mod))


@npf("inner")
def _(I, mod, args, kw):
    a, b = arr(I, args[0]), arr(I, args[1])
    la = [f"a{k}" for k in range(len(a.shape))]
    lb = [f"b{k}" for k in range(len(b.shape))]
    lb[-1] = la[-1]
    return scal(I, contract(I, [a, b], [la, lb], la[:-1] + lb[:-1], mod))


@npf("outer")
def _(I, mod, args, kw):
    a, b = ravel(I, arr(I, args[0])), ravel(I, arr(I, args[1]))
    return contract(I, [a, b], [["a"], ["b"]], ["a", "b"], mod)


@npf("tensordot")
def _(I, mod, args, kw):
    a, b = arr(I, args[0]), arr(I, args[1])
    axes = getarg(args, kw, 2, "axes", 2)
    if isinstance(axes, int):
        n = axes
        ax_a = list(range(len(a.shape) - n, len(a.shape)))
        ax_b = list(range(n))
    else:
        xa, xb = I.unpack(axes, 2)

        def lst(x, n):
            if isinstance(x, (tuple, ListR)):
                return [axis_of(I, y, n) for y in (x if isinstance(x, tuple) else I.S.lists[x.id])]
            return [axis_of(I, x, n)]
        ax_a, ax_b = lst(xa, len(a.shape)), lst(xb, len(b.shape))
    if len(ax_a) != len(ax_b):
        I.raise_("ValueError", "shape-mismatch for sum")
    la = [f"a{k}" for k in range(len(a.shape))]
    lb = [f"b{k}" for k in range(len(b.shape))]
    for k, (x, y) in enumerate(zip(ax_a, ax_b)):
        if a.shape[x] != b.shape[y] and not I.same_dim(a.shape[x], b.shape[y]):
            I.raise_("ValueError", f"shape-mismatch for sum: {a.shape[x]} and {b.shape[y]}")
        la[x] = lb[y] = f"s{k}"
    out = [x for x in la if x[0] == "a"] + [x for x in lb if x[0] == "b"]
    return contract(I, [a, b], [la, lb], out, mod)


@npf("einsum")
def _(I, mod, args, kw):
    if not isinstance(args[0], str):
        # interleaved format: einsum(op, [labels], op, [labels], ..., [out])
        ops, labels, rest = [], [], list(args)
        while len(rest) >= 2:
            ops.append(arr(I, rest.pop(0)))
            labels.append([f"n{I.norm(x)}" for x in I.unpack(rest.pop(0), None)])
        if rest:
            out = [f"n{I.norm(x)}" for x in I.unpack(rest[0], None)]
        else:
            flat = [x for l in labels for x in l]
            out = sorted({x for x in flat if flat.count(x) == 1})
        return outarg(I, scal(I, contract(I, ops, labels, out, mod)), kw)
    spec = args[0].replace(" ", "")
    ops = [arr(I, x) for x in args[1:]]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        flat = ins.replace(",", "").replace("...", "")
        out = ("..." if "..." in ins else "") + "".join(sorted(x for x in set(flat) if flat.count(x) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        I.raise_("ValueError", "einsum: number of operands")

    nell = 0
    for s, a in zip(ins, ops):
        if "..." in s:
            nell = max(nell, len(a.shape) - (len(s) - 3))
    ell = [f".{k}" for k in range(nell)]

    def expand(s, n=None):
        if "..." not in s:
            return list(s)
        a, b = s.split("...")
        m = nell if n is None else n - len(a) - len(b)
        return list(a) + ell[nell - m:] + list(b)
    labels = [expand(s, len(a.shape)) for s, a in zip(ins, ops)]
    r = contract(I, ops, labels, expand(out), mod)
    return outarg(I, scal(I, r), kw)


@npf("kron")
def _(I, mod, args, kw):
    a, b = arr(I, args[0]), arr(I, args[1])
    n = max(len(a.shape), len(b.shape))
    sa = (POLY1,) * (n - len(a.shape)) + a.shape
    sb = (POLY1,) * (n - len(b.shape)) + b.shape
    ta, tb = I.tmpl(a), I.tmpl(b)
    shape = [x * y for x, y in zip(sa, sb)]

    def f(ix):
        ia = [fdiv(i, y) for i, y in zip(ix, sb)][n - len(a.shape):]
        ib = [fmod(i, y) for i, y in zip(ix, sb)][n - len(b.shape):]
        return I.at(ta, ia) * I.at(tb, ib)
    return I.mk(shape, f, kjoin(ta.dt, tb.dt), mod)


def trace(I, a, offset=0, ax1=0, ax2=1, mod="numpy"):
    a = arr(I, a)
    n = len(a.shape)
    ax1, ax2 = axis_of(I, ax1, n), axis_of(I, ax2, n)
    if I.norm(offset) != 0:
        I.undec("trace offset")
    if ax1 == ax2:
        I.raise_("ValueError", "axis1 and axis2 cannot be the same")
    la = [f"x{k}" for k in range(n)]
    la[ax2] = la[ax1]
    if a.shape[ax1] != a.shape[ax2] and not I.same_dim(a.shape[ax1], a.shape[ax2]):
        I.undec("trace of a rectangular matrix")
    return scal(I, contract(I, [a], [la], [x for x in la if x != la[ax1]], mod))


@npf("trace")
def _(I, mod, args, kw):
    return trace(I, args[0], getarg(args, kw, 1, "offset", 0), getarg(args, kw, 2, "axis1", 0), getarg(args, kw, 3, "axis2", 1), mod)


def diagonal(I, a, offset=0, ax1=0, ax2=1, mod="numpy"):
    a = arr(I, a)
    n = len(a.shape)
    ax1, ax2 = axis_of(I, ax1, n), axis_of(I, ax2, n)
    off = I.norm(offset)
    if not isinstance(off, int):
        I.undec("diagonal offset")
    rest = [k for k in range(n) if k not in (ax1, ax2)]
    if off:
        ln = a.shape[ax1] - abs(off)
    else:
        ln = a.shape[ax1]
        if a.shape[ax1] != a.shape[ax2]:
            I.undec("diagonal of rectangular matrix")
    nv = [newidx(a.shape[k]) for k in rest] + [newidx(ln)]
    ex = [None] * n
    for k, v in zip(rest, nv):
        ex[k] = idx(v)
    ex[ax1] = idx(nv[-1]) + (-off if off < 0 else 0)
    ex[ax2] = idx(nv[-1]) + (off if off > 0 else 0)
    m = dict(zip(a.vars, ex))
    return Arr(a.cell, [a.shape[k] for k in rest] + [ln], nv, [subst(e, m) for e in a.imap])


@npf("diagonal")
def _(I, mod, args, kw):
    return diagonal(I, args[0], getarg(args, kw, 1, "offset", 0), getarg(args, kw, 2, "axis1", 0), getarg(args, kw, 3, "axis2", 1), mod)


@npf("diag")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    k = I.norm(getarg(args, kw, 1, "k", 0))
    if not isinstance(k, int):
        I.undec("diag offset")
    if len(a.shape) == 2:
        return diagonal(I, a, k, 0, 1, mod)
    return diagflat(I, a, k, mod)


def diagflat(I, a, k, mod):
    t = I.tmpl(a)
    n = a.shape[0] + abs(k)

    def f(ix):
        r, c = ix
        if k >= 0:
            return eq0(c - r - k) * I.at(t, [r])* inr(r, a.shape[0])
        return eq0(r - c + k) * I.at(t, [c]) * inr(c, a.shape[0])

    def inr(i, d):
        return ge0(d - 1 - i) if k else POLY1
    return I.mk((n, n), f, t.dt, mod)


@npf("diagflat")
def _(I, mod, args, kw):
    return diagflat(I, ravel(I, arr(I, args[0])), I.norm(getarg(args, kw, 1, "k", 0)), mod)


# ------------------------------------------------------------------ shape manipulation (views)
def transpose(I, a, axes=None):
    n = len(a.shape)
    if axes is None:
        axes = list(range(n))[::-1]
    if len(axes) != n or sorted(axes) != list(range(n)):
        I.raise_("ValueError", "axes don't match array")
    return Arr(a.cell, [a.shape[k] for k in axes], [a.vars[k] for k in axes], a.imap)


@npf("transpose", "permute_dims")
def _(I, mod, args, kw):
    a = arr(I, args[0], mod)
    ax = getarg(args, kw, 1, "axes")
    return transpose(I, a, None if ax is None else [axis_of(I, x, len(a.shape)) for x in I.unpack(ax, None)])


@npf("swapaxes")
def _(I, mod, args, kw):
    a = arr(I, args[0], mod)
    return swapaxes(I, a, args[1], args[2])


def swapaxes(I, a, x, y):
    n = len(a.shape)
    x, y = axis_of(I, x, n), axis_of(I, y, n)
    ax = list(range(n))
    ax[x], ax[y] = ax[y], ax[x]
    return transpose(I, a, ax)


@npf("moveaxis", "rollaxis")
def _(I, mod, args, kw):
    a = arr(I, args[0], mod)
    n = len(a.shape)

    def lst(x):
        return [axis_of(I, y, n) for y in I.unpack(x, None)] if isinstance(x, (tuple, ListR)) else [axis_of(I, x, n)]
    s, d = lst(args[1]), lst(args[2])
    order = [k for k in range(n) if k not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return transpose(I, a, order)


def ravel(I, a):
    if len(a.shape) == 1:
        return a
    n = POLY1
    for d in a.shape:
        n = n * d
    return reshape(I, a, (n,))


def reshape(I, a, shape):
    shape = list(shape)
    tot = POLY1
    for d in a.shape:
        tot = tot * d
    neg = [k for k, d in enumerate(shape) if d.as_int() == -1]
    if neg:
        rest = POLY1
        for k, d in enumerate(shape):
            if k != neg[0]:
                rest = rest * d
        q = alg.exact_div(tot, rest) if rest != POLY1 else tot
        if q is None:
            I.undec("reshape with unknown length")
        shape[neg[0]] = q
    new = POLY1
    for d in shape:
        new = new * d
    if new != tot and not I.same_dim(new, tot):
        I.raise_("ValueError", f"cannot reshape array of size {tot} into {new}")
    if len(shape) == len(a.shape) and all(x == y for x, y in zip(shape, a.shape)):
        return Arr(a.cell, a.shape, a.vars, a.imap)
    # drop / insert unit axes as views
    if [d for d in shape if d != POLY1] == [d for d in a.shape if d != POLY1]:
        src = [k for k, d in enumerate(a.shape) if d != POLY1]
        nv, it = [], iter(src)
        m = {}
        for d in shape:
            v = newidx(d)
            nv.append(v)
            if d != POLY1:
                m[a.vars[next(it)]] = idx(v)
        for k, d in enumerate(a.shape):
            if d == POLY1:
                m[a.vars[k]] = ZERO
        return Arr(a.cell, shape, nv, [subst(e, m) for e in a.imap])
    nv = [newidx(d) for d in shape]
    # align axis groups with equal products
    m = {}
    i = j = 0
    ok = True
    A, B = list(a.shape), list(shape)
    while i < len(A) or j < len(B):
        gi, gj = [i] if i < len(A) else [], [j] if j < len(B) else []
        pi = A[i] if i < len(A) else POLY1
        pj = B[j] if j < len(B) else POLY1
        i2, j2 = i + 1, j + 1
        while pi != pj:
            c = alg.exact_div(pj, pi)
            if c is not None and i2 < len(A):
                pi = pi * A[i2]
                gi.append(i2)
                i2 += 1
            elif j2 < len(B):
                pj = pj * B[j2]
                gj.append(j2)
                j2 += 1
            elif i2 < len(A):
                pi = pi * A[i2]
                gi.append(i2)
                i2 += 1
            else:
                ok = False
                break
        if not ok:
            break
        lin = ZERO
        for k in gj:
            lin = lin * B[k] + idx(nv[k])
        for k in reversed(gi):
            if k == gi[0]:
                m[a.vars[k]] = lin
            else:
                m[a.vars[k]] = fmod(lin, A[k])
                lin = fdiv(lin, A[k])
        i, j = i2, j2
    if not ok:
        I.undec("reshape")
    return Arr(a.cell, shape, nv, [subst(e, m) for e in a.imap])


@npf("reshape")
def _(I, mod, args, kw):
    return reshape(I, arr(I, args[0], mod), shape_arg(I, getarg(args, kw, 1, "newshape", kw.get("shape"))))


@npf("ravel")
def _(I, mod, args, kw):
    return ravel(I, arr(I, args[0], mod))


@npf("expand_dims")
def _(I, mod, args, kw):
    a = arr(I, args[0], mod)
    ax = I.norm(getarg(args, kw, 1, "axis"))
    if not isinstance(ax, int):
        I.undec("expand_dims")
    ax = axis_of(I, ax, len(a.shape) + 1)
    key = [SliceV(None, None, None)] * ax + [None]
    return index(I, a, tuple(key))


@npf("squeeze")
def _(I, mod, args, kw):
    a = arr(I, args[0], mod)
    return squeeze(I, a, getarg(args, kw, 1, "axis"))


def squeeze(I, a, ax=None):
    if ax is None:
        key = tuple(0 if d == POLY1 else SliceV(None, None, None) for d in a.shape)
    else:
        ax = axis_of(I, ax, len(a.shape))
        key = tuple(0 if k == ax else SliceV(None, None, None) for k in range(len(a.shape)))
    r = view(I, a, key)[1]
    return r


@npf("atleast_1d", "atleast_2d")
def _(I, mod, args, kw):
    a = arr(I, args[0], mod)
    return a if a.shape else reshape(I, a, (POLY1,))


# ------------------------------------------------------------------ creation
def creator(value, like=False):
    def f(I, mod, args, kw):
        if like:
            a = args[0]
            if isinstance(a, (ListR, tuple)) or (not isinstance(a, Arr) and I.sc(a) is not None) or isinstance(a, Opq):
                a = arr(I, a)
            if not isinstance(a, Arr):
                if isinstance(a, Top):
                    raise Undecided(a.why)
                I.raise_("TypeError", "like of non-array")
            shape = a.shape
            k = 2 if value == "fill" else 1
            dt = getarg(args, kw, k, "dtype")
            d = todt(I, dt).k if dt is not None and todt(I, dt) else I.dt(a)
        else:
            shape = shape_arg(I, getarg(args, kw, 0, "shape"))
            k = 2 if value == "fill" else 1
            dt = getarg(args, kw, k, "dtype")
            if dt is None:
                d = "f"
                if value == "fill":
                    d = I.kind(getarg(args, kw, 1, "fill_value"))
            else:
                t = todt(I, dt)
                if t is None:
                    I.undec(f"dtype {dt!r}")
                d = t.k
        if value == "fill":
            v = getarg(args, kw, 1, "fill_value")
            va = arr(I, v)
            return I.mk(shape, lambda ix: I.cast_store(I.bat(va, ix), None, d), d, mod)
        if value == "empty":
            name = f"\u22a4uninit{fresh()}"
            return I.mk(shape, lambda ix: el(name, ix), d, mod)
        return I.mk(shape, lambda ix: const(value), d, mod)
    return f


MODELS["np:zeros"] = creator(0)
MODELS["np:ones"] = creator(1)
MODELS["np:empty"] = creator("empty")
MODELS["np:full"] = creator("fill")
MODELS["np:zeros_like"] = creator(0, True)
MODELS["np:ones_like"] = creator(1, True)
MODELS["np:empty_like"] = creator("empty", True)
MODELS["np:full_like"] = creator("fill", True)


@npf("eye", "identity")
def _(I, mod, args, kw):
    n = I.poly(args[0])
    m = getarg(args, kw, 1, "M")
    if todt(I, m) is not None and not isinstance(m, (int, Sc)):
        kw = dict(kw, dtype=m)
        m = None
    k = I.norm(getarg(args, kw, 2, "k", 0))
    m = n if m is None else I.poly(m)
    dt = todt(I, getarg(args, kw, 3, "dtype"))
    kp = I.poly(k)
    return I.mk((n, m), lambda ix: eq0(ix[1] - ix[0] - kp), dt.k if dt else "f", mod)


@npf("arange")
def _(I, mod, args, kw):
    args = [a for a in args]
    if len(args) == 1:
        lo, hi, st = ZERO, I.poly(args[0]), POLY1
    else:
        lo, hi = I.poly(args[0]), I.poly(args[1])
        st = I.poly(getarg(args, kw, 2, "step", 1))
    dt = todt(I, kw.get("dtype"))
    k = kjoin(*[I.kind(a) for a in args])
    if not (alg.is_int(lo) and alg.is_int(hi) and alg.is_int(st)):
        I.undec("non-integer arange")
    if st == POLY1:
        n = hi - lo
    elif st.as_int() == -1:
        n = lo - hi
    elif st.as_int() and st.as_int() > 0:
        n = fdiv(hi - lo + st - 1, st)
    else:
        I.undec("arange step")
    return I.mk((n,), lambda ix: I.cast_store(lo + ix[0] * st, None, dt.k) if dt else lo + ix[0] * st, dt.k if dt else (k if k != "b" else "i"), mod)


@npf("linspace")
def _(I, mod, args, kw):
    a, b = I.poly(args[0]), I.poly(args[1])
    n = I.poly(getarg(args, kw, 2, "num", 50))
    endpoint = kw.get("endpoint", True)
    if endpoint is not True and endpoint is not False:
        I.undec("linspace endpoint")
    den = n - 1 if endpoint else n
    step = (b - a) * power(den, F(-1))
    r = I.mk((n,), lambda ix: a + ix[0] * step, "f" if I.kind(args[0]) != "c" else "c", mod)
    if kw.get("retstep") is True:
        return (r, Sc(step, "f"))
    return r


@npf("meshgrid")
def _(I, mod, args, kw):
    arrs = [arr(I, a) for a in args]
    ts = [I.tmpl(a) for a in arrs]
    ij = kw.get("indexing", "xy")
    n = len(arrs)
    order = list(range(n))
    if ij == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    shape = [arrs[k].shape[0] for k in order]
    out = []
    for k, t in enumerate(ts):
        p = order.index(k)
        out.append(I.mk(shape, lambda ix, t=t, p=p: I.at(t, [ix[p]]), t.dt, mod))
    return tuple(out)


@npf("array", "copy")
def _(I, mod, args, kw):
    dt = todt(I, getarg(args, kw, 1, "dtype"))
    cp = kw.get("copy", True)
    if isinstance(args[0], Opq) and args[0].shape is None:
        return args[0]
    return toarray(I, args[0], dt.k if dt else None, mod, copy=cp is not False)


@npf("asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "require")
def _(I, mod, args, kw):
    dt = todt(I, getarg(args, kw, 1, "dtype"))
    if args[0] is None:
        return Opq("array(None)")
    if isinstance(args[0], Opq) and args[0].shape is None:
        return Opq(args[0].key)
    return toarray(I, args[0], dt.k if dt else None, mod)


@npf("stack", "concatenate", "hstack", "vstack", "block", "column_stack", "append")
def _(I, mod, args, kw):
    I.undec("array joining")


def stack(I, mod, args, kw):
    axis = I.norm(getarg(args, kw, 1, "axis", 0))
    items = I.list_items(args[0])
    if len(items) == 1 and isinstance(items[0], Seg):
        r = toarray(I, args[0], None, mod)
    else:
        r = toarray(I, I.newlist([arr(I, x) for x in items]), None, mod)
    if axis == 0:
        return r
    n = len(r.shape)
    axis = axis_of(I, axis, n)
    order = list(range(1, n))
    order.insert(axis, 0)
    return transpose(I, r, order)


MODELS["np:stack"] = stack


def concat(I, arrs, axis, mod):
    arrs = [arr(I, a) for a in arrs]
    n = len(arrs[0].shape)
    axis = axis_of(I, axis, n)
    ts = [I.tmpl(a) for a in arrs]
    tot = ZERO
    offs = []
    for a in arrs:
        offs.append(tot)
        tot = tot + a.shape[axis]
    shape = list(arrs[0].shape)
    for a in arrs[1:]:
        for k in range(n):
            if k != axis and not I.same_dim(a.shape[k], shape[k]):
                I.raise_("ValueError", "concatenate: dimensions must match")
    shape[axis] = tot

    def f(ix):
        r = ZERO
        for t, o, a in zip(ts, offs, arrs):
            j = list(ix)
            j[axis] = ix[axis] - o
            g = ge0(ix[axis] - o) * ge0(o + a.shape[axis] - 1 - ix[axis])
            if g.iszero():
                continue
            r = r + g * I.at(t, j)
        return r
    return I.mk(shape, f, kjoin(*[t.dt for t in ts]), mod)


@npf("concatenate")
def _(I, mod, args, kw):
    return concat(I, I.unpack(args[0], None), getarg(args, kw, 1, "axis", 0), mod)


@npf("hstack")
def _(I, mod, args, kw):
    xs = I.unpack(args[0], None)
    a0 = arr(I, xs[0])
    return concat(I, xs, 0 if len(a0.shape) == 1 else 1, mod)


@npf("vstack")
def _(I, mod, args, kw):
    xs = [arr(I, x) for x in I.unpack(args[0], None)]
    xs = [x if len(x.shape) > 1 else reshape(I, x, (POLY1, x.shape[0])) for x in xs]
    return concat(I, xs, 0, mod)


@npf("repeat")
def _(I, mod, args, kw):
    return repeat(I, arr(I, args[0]), args[1] if len(args) > 1 else kw["repeats"], getarg(args, kw, 2, "axis"), mod)


def repeat(I, a, n, axis, mod="numpy"):
    if axis is None:
        a = ravel(I, a)
        axis = 0
    axis = axis_of(I, axis, len(a.shape))
    n = I.poly(n)
    t = I.tmpl(a)
    shape = list(a.shape)
    shape[axis] = shape[axis] * n

    def f(ix):
        j = list(ix)
        j[axis] = fdiv(ix[axis], n)
        return I.at(t, j)
    return I.mk(shape, f, t.dt, mod)


@npf("tile")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    reps = args[1]
    reps = [I.poly(x) for x in (I.unpack(reps, None) if isinstance(reps, (tuple, ListR)) else [reps])]
    while len(reps) < len(a.shape):
        reps.insert(0, POLY1)
    k = len(reps) - len(a.shape)
    t = I.tmpl(a)
    sh = [POLY1] * k + list(a.shape)
    return I.mk([r * d for r, d in zip(reps, sh)], lambda ix: I.at(t, [fmod(i, d) for i, d in zip(ix[k:], a.shape)]), t.dt, mod)


@npf("broadcast_to")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    sh = shape_arg(I, args[1])
    t = I.tmpl(a)
    I.bshape(a.shape, sh)
    return I.mk(sh, lambda ix: I.bat(t, ix), t.dt, mod)


@npf("fill_diagonal")
def _(I, mod, args, kw):
    a = args[0]
    v = I.sc(args[1])
    if v is None:
        va = arr(I, args[1])
        t = I.tmpl(va)
        g = lambda i: I.at(t, [i])
    else:
        g = lambda i: v.p
    old = I.tmpl(a)

    def f(ix):
        d = POLY1
        for x in ix[1:]:
            d = d * eq0(x - ix[0])
        return d * g(ix[0]) + (POLY1 - d) * I.at(old, ix)
    I.store(a, f)
    return None


@npf("diag_indices")
def _(I, mod, args, kw):
    n = I.poly(args[0])
    nd = I.norm(getarg(args, kw, 1, "ndim", 2))
    a = I.mk((n,), lambda ix: ix[0], "i", mod)
    return (a,) * nd


@npf("diag_indices_from")
def _(I, mod, args, kw):
    n = args[0].shape[0]
    a = I.mk((n,), lambda ix: ix[0], "i", mod)
    return (a,) * len(args[0].shape)


@npf("ix_")
def _(I, mod, args, kw):
    out = []
    n = len(args)
    for k, x in enumerate(args):
        a = arr(I, x)
        out.append(reshape(I, a, tuple(a.shape[0] if j == k else POLY1 for j in range(n))))
    return tuple(out)


@npf("indices")
def _(I, mod, args, kw):
    sh = shape_arg(I, args[0])
    n = len(sh)

    def f(ix):
        tot = ZERO
        for k in range(n):
            tot = tot + eq0(ix[0] - k) * ix[1 + k]
        return tot
    return I.mk((const(n),) + sh, f, "i", mod)


@npf("tril", "triu")
def _(I, mod, args, kw):
    I.undec("tril/triu")


def _tri(sign):
    def f(I, mod, args, kw):
        a = arr(I, args[0])
        k = I.poly(getarg(args, kw, 1, "k", 0))
        t = I.tmpl(a)

        def g(ix):
            r, c = ix[-2], ix[-1]
            gate = ge0(r - c + k) if sign < 0 else ge0(c - r - k)
            return gate * I.at(t, ix)
        return I.mk(a.shape, g, t.dt, mod)
    return f


MODELS["np:tril"] = _tri(-1)
MODELS["np:triu"] = _tri(1)


@npf("where")
def _(I, mod, args, kw):
    if len(args) == 3:
        c, a, b = args
        cs = I.sc(c)
        kind = kjoin(I.kind(a), I.kind(b))

        def f(x, y, z):
            return x * y + (POLY1 - x) * z
        return I.elementwise(f, [c, a, b], kind, mod)
    return Top("np.where")


# ------------------------------------------------------------------ elementwise
def npconj(I, a):
    k = I.kind(a)
    return I.elementwise(conj, [a], k)


def ufunc1(name, f, kind=None):
    def g(I, mod, args, kw):
        a = args[0]
        if isinstance(a, (ListR, tuple)):
            a = toarray(I, a)
        if isinstance(a, Top):
            return a
        if isinstance(a, Opq):
            if a.shape is not None:
                a = opq_array(I, a)
            else:
                return Opq(f"{name}({a.key})")
        k = I.kind(a)
        kk = kind(k) if callable(kind) else (kind or kjoin(k, "f"))
        return outarg(I, I.elementwise(f, [a], kk, mod if isinstance(a, Arr) else None), kw)
    return g


def _realpart(p):
    if alg.isreal(p):
        return p
    return (p + conj(p)) * F(1, 2)


def _imagpart(p):
    if alg.isreal(p):
        return ZERO
    return (p - conj(p)) * P(-0.5j)


def _abs(p):
    if alg.isreal(p):
        return fn("abs", (p,))
    return power(p * conj(p), F(1, 2))


same = lambda k: k
U1 = {
    "conj": (conj, same), "conjugate": (conj, same), "negative": (lambda p: -p, same), "positive": (lambda p: p, same),
    "sqrt": (lambda p: power(p, F(1, 2)), None), "exp": (lambda p: fn("exp", (p,)), None), "log": (lambda p: fn("log", (p,)), None),
    "sin": (lambda p: fn("sin", (p,)), None), "cos": (lambda p: fn("cos", (p,)), None), "tan": (lambda p: fn("tan", (p,)), None),
    "sinh": (lambda p: fn("sinh", (p,)), None), "cosh": (lambda p: fn("cosh", (p,)), None), "tanh": (lambda p: fn("tanh", (p,)), None),
    "sinc": (lambda p: fn("sinc", (p,)), None), "sign": (lambda p: fn("sign", (p,)), same),
    "abs": (_abs, lambda k: "f" if k == "c" else k), "absolute": (_abs, lambda k: "f" if k == "c" else k), "fabs": (_abs, "f"),
    "square": (lambda p: p * p, same), "real": (_realpart, lambda k: "f" if k == "c" else k), "imag": (_imagpart, lambda k: "f" if k == "c" else k),
    "floor": (lambda p: fn("floor", (p,)), None), "ceil": (lambda p: fn("ceil", (p,)), None), "reciprocal": (lambda p: power(p, F(-1)), None),
    "logical_not": (lambda p: eq0(p) if p * p != p else POLY1 - p, "b"), "log2": (lambda p: fn("log", (p,)) * power(fn("log", (const(2),)), F(-1)), None),
    "arctan": (lambda p: fn("arctan", (p,)), None), "exp2": (lambda p: power(const(2), p), None), "cbrt": (lambda p: power(p, F(1, 3)), None),
    "deg2rad": (lambda p: p * PI * F(1, 180), None),
}
for _n, (_f, _k) in U1.items():
    MODELS["np:" + _n] = ufunc1(_n, _f, _k)

BINNP = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow", "float_power": "Pow",
         "floor_divide": "FloorDiv", "mod": "Mod", "remainder": "Mod", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor",
         "logical_and": "BitAnd", "logical_or": "BitOr", "logical_xor": "BitXor"}
for _n, _o in BINNP.items():
    def _mk(op):
        def g(I, mod, args, kw):
            a, b = args[0], args[1]
            if isinstance(a, (ListR, tuple)):
                a = toarray(I, a)
            if isinstance(b, (ListR, tuple)):
                b = toarray(I, b)
            return outarg(I, I.binop(op, a, b), kw)
        return g
    MODELS["np:" + _n] = _mk(_o)
CMPNP = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE"}
for _n, _o in CMPNP.items():
    MODELS["np:" + _n] = (lambda op: lambda I, mod, args, kw: I.compare(op, args[0], args[1]))(_o)


@npf("heaviside")
def _(I, mod, args, kw):
    return I.elementwise(lambda x, h: fn("heaviside", (x, h)), [args[0], args[1]], "f", mod)


@npf("maximum", "fmax")
def _(I, mod, args, kw):
    return I.elementwise(lambda x, h: fn("max", (x, h)), [args[0], args[1]], kjoin(I.kind(args[0]), I.kind(args[1])), mod)


@npf("minimum", "fmin")
def _(I, mod, args, kw):
    return I.elementwise(lambda x, h: fn("min", (x, h)), [args[0], args[1]], kjoin(I.kind(args[0]), I.kind(args[1])), mod)


@npf("hypot")
def _(I, mod, args, kw):
    return I.elementwise(lambda x, y: power(x * x + y * y, F(1, 2)), [args[0], args[1]], "f", mod)


@npf("arctan2")
def _(I, mod, args, kw):
    return I.elementwise(lambda x, y: fn("arctan2", (x, y)), [args[0], args[1]], "f", mod)


# ------------------------------------------------------------------ reductions
def npsum(I, a, axis=None, mod="numpy", keepdims=False):
    if isinstance(a, (ListR, tuple)):
        items = I.list_items(a)
        if any(isinstance(x, Seg) for x in items) or all(not isinstance(x, Arr) for x in items) or axis is not None:
            a = toarray(I, a)
        else:
            a = toarray(I, a)
    if isinstance(a, Masked):
        tot = a.mask * a.body
        for v in a.vars:
            tot = sumover(tot, v)
        return I.norm(Sc(tot, a.dt if a.dt != "b" else "i"))
    s = I.sc(a) if not isinstance(a, Arr) else None
    if s is not None:
        return a
    a = arr(I, a)
    n = len(a.shape)
    if axis is None:
        axes = list(range(n))
    elif isinstance(axis, (tuple, ListR)):
        axes = [axis_of(I, x, n) for x in I.unpack(axis, None)]
    else:
        axes = [axis_of(I, axis, n)]
    la = [f"x{k}" for k in range(n)]
    r = contract(I, [a], [la], [x for k, x in enumerate(la) if k not in axes], mod)
    if keepdims is True:
        r = reshape(I, r, tuple(POLY1 if k in axes else a.shape[k] for k in range(n)))
        return r
    return scal(I, r)


@npf("sum", "nansum", "add.reduce")
def _(I, mod, args, kw):
    return npsum(I, args[0], getarg(args, kw, 1, "axis"), mod, kw.get("keepdims", False))


@npf("mean")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    ax = getarg(args, kw, 1, "axis")
    s = npsum(I, a, ax, mod)
    n = POLY1
    for k, d in enumerate(a.shape):
        if ax is None or k == axis_of(I, ax, len(a.shape)):
            n = n * d
    return I.binop("Div", s, Sc(n, "i"))


@npf("prod")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    if len(a.shape) == 1 and a.shape[0].as_int() is not None and a.shape[0].as_int() < 12:
        r = POLY1
        for k in range(a.shape[0].as_int()):
            r = r * I.at(a, [const(k)])
        return I.norm(Sc(r, I.dt(a)))
    return Sc(fn("?prod", (I.lam(a),)), I.dt(a))


@npf("all", "any", "alltrue")
def _(I, mod, args, kw):
    return Top("np.all")


def np_all(I, mod, args, kw):
    v = args[0]
    if isinstance(v, (ListR, tuple)):
        return BUILTINS["all"](I, [v], {})
    s = I.sc(v)
    if s is not None:
        t = I.truth(v)
        return t if isinstance(t, bool) else I.boolv(t)
    if isinstance(v, Arr):
        n = 1
        for d in v.shape:
            c = d.as_int()
            n = None if n is None or c is None else n * c
        body = I.tmpl(v).body
        if body == POLY1:
            return True
        if n is not None and n <= 16:
            import itertools
            acc = POLY1
            for ix in itertools.product(*[range(d.as_int()) for d in v.shape]):
                acc = acc * I.at(v, [const(i) for i in ix])
            return I.boolv(acc) if acc.const() is None else not acc.iszero()
        return I.boolv(bgate("all", (I.lam(v),)))
    return Top("np.all")


MODELS["np:all"] = np_all


@npf("any")
def _(I, mod, args, kw):
    v = args[0]
    if isinstance(v, (ListR, tuple)):
        return BUILTINS["any"](I, [v], {})
    if isinstance(v, Arr):
        neg = I.elementwise(lambda p: POLY1 - p, [v], "b")
        r = np_all(I, mod, [neg], {})
        if isinstance(r, Top):
            return r
        t = I.truth(r)
        return (not t) if isinstance(t, bool) else I.boolv(POLY1 - t)
    return Top("np.any")


@npf("allclose", "array_equal", "isclose")
def _(I, mod, args, kw):
    a, b = args[0], args[1]
    xs = [I.lam(arr(I, x)) for x in (a, b)]
    if xs[0].key() == xs[1].key():
        return True
    return I.boolv(bgate("allclose", tuple(xs)))


@npf("max", "min", "amax", "amin", "argmax", "argmin", "argsort", "sort", "unique", "cumsum", "cumprod", "diff", "nonzero", "count_nonzero", "round", "around", "isnan", "isfinite", "roll", "flip", "interp", "searchsorted", "linalg.inv", "linalg.solve", "linalg.det", "linalg.norm", "linalg.qr", "linalg.svd", "linalg.eig")
def _(I, mod, args, kw):
    return Top("numpy function not modelled")


@npf("flip")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    ax = getarg(args, kw, 1, "axis")
    n = len(a.shape)
    axes = range(n) if ax is None else [axis_of(I, ax, n)]
    return index(I, a, tuple(SliceV(None, None, -1) if k in axes else SliceV(None, None, None) for k in range(n)))


@npf("diff")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    if len(a.shape) != 1 or len(args) > 1 or kw:
        return Top("np.diff")
    t = I.tmpl(a)
    return I.mk((a.shape[0] - 1,), lambda ix: I.at(t, [ix[0] + 1]) - I.at(t, ix), t.dt, mod)


@npf("trapz", "trapezoid")
def _(I, mod, args, kw):
    y = arr(I, args[0])
    x = getarg(args, kw, 1, "x")
    dx = getarg(args, kw, 2, "dx", 1)
    ax = axis_of(I, getarg(args, kw, 3, "axis", -1), len(y.shape))
    t = I.tmpl(y)
    n = y.shape[ax]
    xt = I.tmpl(arr(I, x)) if x is not None else None
    if xt is not None and len(xt.shape) != 1:
        I.undec("trapz x")
    dxp = I.poly(dx) if x is None else None
    shape = [d for k, d in enumerate(y.shape) if k != ax]

    def f(ix):
        v = newidx(n - 1)
        i0, i1 = list(ix), list(ix)
        i0.insert(ax, idx(v))
        i1.insert(ax, idx(v) + 1)
        w = dxp if xt is None else I.at(xt, [idx(v) + 1]) - I.at(xt, [idx(v)])
        return sumover((I.at(t, i0) + I.at(t, i1)) * w * F(1, 2), v)
    return scal(I, I.mk(shape, f, kjoin(t.dt, "f"), mod))


@npf("linalg.inv")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    if len(a.shape) != 2:
        return Top("inverse of a stack")
    if not I.same_dim(a.shape[0], a.shape[1]):
        I.raise_("LinAlgError", "inverse of a non-square matrix")
    L = I.lam(a)
    real = alg.isreal(L.body)
    nm = "inv:real" if real else "inv"
    if real:
        alg.FN_REAL.add(nm)
    return I.mk(a.shape, lambda ix: fn(nm, (L, ix[0], ix[1])), kjoin(I.dt(a), "f"), mod)


@npf("linalg.solve")
def _(I, mod, args, kw):
    r = I.call(Ext(mod, "linalg.inv"), [args[0]], {})
    if not isinstance(r, Arr):
        return r
    return matmul(I, r, arr(I, args[1]), mod)


@npf("cumsum")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    ax = getarg(args, kw, 1, "axis")
    if len(a.shape) != 1 and ax is None or set(kw) - {"axis"}:
        return Top("np.cumsum")
    ax = 0 if ax is None else axis_of(I, ax, len(a.shape))
    t = I.tmpl(a)

    def f(ix):
        v = newidx(a.shape[ax])
        return sumover(ge0(ix[ax] - idx(v)) * I.at(t, list(ix[:ax]) + [idx(v)] + list(ix[ax + 1:])), v)
    return I.mk(a.shape, f, t.dt, mod)


@npf("roll")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    k, ax = getarg(args, kw, 1, "shift"), getarg(args, kw, 2, "axis")
    s = I.sc(k)
    if s is None or len(a.shape) != 1 and ax is None:
        return Top("np.roll")
    ax = 0 if ax is None else axis_of(I, ax, len(a.shape))
    t = I.tmpl(a)
    n = a.shape[ax]
    return I.mk(a.shape, lambda ix: I.at(t, list(ix[:ax]) + [fmod(ix[ax] - s.p, n)] + list(ix[ax + 1:])), t.dt, mod)


@npf("linalg.norm")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    o, ax = getarg(args, kw, 1, "ord"), getarg(args, kw, 2, "axis")
    if ax is not None or not (o is None or o == 2 and len(a.shape) == 1 or o == "fro" and len(a.shape) == 2) or kw.get("keepdims"):
        return Top("np.linalg.norm")
    t = I.tmpl(a)
    vs = [newidx(d) for d in a.shape]
    x = I.at(t, [idx(v) for v in vs])
    p = x * alg.conj(x)
    for v in vs:
        p = sumover(p, v)
    return Sc(fn("sqrt", (p,)), "f")


@npf("linalg.eigh")
def _(I, mod, args, kw):
    return eigh(I, args[0], mod)


def eigh(I, a, mod="numpy"):
    a = arr(I, a)
    L = I.lam(a)
    alg.FN_REAL.add("eigh_w")
    n = a.shape[0]
    real = alg.isreal(L.body)
    if real:
        alg.FN_REAL.add("eigh_v:real")
    nm = "eigh_v:real" if real else "eigh_v"
    w = I.mk((n,), lambda ix: fn("eigh_w", (L, ix[0])), "f", mod)
    v = I.mk((n, n), lambda ix: fn(nm, (L, ix[0], ix[1])), I.dt(a), mod)
    return (w, v)


@model("scipy.linalg.eigh")
def _(I, args, kw):
    return eigh(I, args[0])


@model("scipy.linalg.eigh_tridiagonal")
def _(I, args, kw):
    d, e = arr(I, args[0]), arr(I, args[1])
    if kw:
        return Top("eigh_tridiagonal options")
    td, te = I.tmpl(d), I.tmpl(e)
    n = d.shape[0]
    h = I.mk((n, n), lambda ix: eq0(ix[0] - ix[1]) * I.at(td, [ix[0]]) + eq0(ix[1] - ix[0] - 1) * I.at(te, [ix[0]]) + eq0(ix[0] - ix[1] - 1) * I.at(te, [ix[1]]), kjoin(td.dt, te.dt))
    return eigh(I, h)


@npf("linalg.norm")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    if len(args) > 1 or kw:
        return Top("norm options")
    t = I.tmpl(a)
    s = t.body * conj(t.body)
    for v in t.vars:
        s = sumover(s, v)
    return Sc(power(s, F(1, 2)), "f")


@npf("ndim")
def _(I, mod, args, kw):
    a = args[0]
    if isinstance(a, Arr):
        return len(a.shape)
    if isinstance(a, (ListR, tuple)):
        return len(toarray(I, a).shape)
    if isinstance(a, Opq) and a.shape is not None:
        return len(a.shape)
    if isinstance(a, (Opq, Top)):
        I.undec("rank of an opaque value")
    return 0


@npf("shape")
def _(I, mod, args, kw):
    a = args[0]
    if isinstance(a, Arr):
        return shapev(I, a.shape)
    if I.sc(a) is not None:
        return ()
    return shapev(I, arr(I, a).shape)


@npf("size")
def _(I, mod, args, kw):
    return size(I, arr(I, args[0]))


def size(I, a):
    n = POLY1
    for d in a.shape:
        n = n * d
    return I.norm(Sc(n, "i"))


@npf("iscomplexobj", "isrealobj", "result_type", "promote_types", "common_type", "dtype", "can_cast", "find_common_type", "isscalar")
def _(I, mod, args, kw):
    return Top("dtype query")


def _dtq(I, v):
    t = todt(I, v)
    if t:
        return t.k
    return I.kind(v)


@npf("iscomplexobj")
def _(I, mod, args, kw):
    return I.kind(args[0]) == "c"


@npf("isrealobj")
def _(I, mod, args, kw):
    return I.kind(args[0]) != "c"


@npf("result_type", "promote_types", "common_type")
def _(I, mod, args, kw):
    return DT(kjoin(*[_dtq(I, a) for a in args]))


@npf("dtype")
def _(I, mod, args, kw):
    return todt(I, args[0]) or Top("dtype")


@npf("isscalar")
def _(I, mod, args, kw):
    return I.sc(args[0]) is not None and not isinstance(args[0], Arr)


@npf("copyto")
def _(I, mod, args, kw):
    setindex(I, args[0], Ellipsis, args[1])
    return None


@npf("vectorize")
def _(I, mod, args, kw):
    f = args[0]

    def g(I2, a, k):
        arrs = [x for x in a if isinstance(x, Arr)]
        if not arrs:
            return I2.call(f, a, k)
        sh = I2.bshape(*[x.shape for x in arrs])
        kind = [None]

        def body(ix):
            for v in ix:
                I2.loopvars |= v.fv()
            r = I2.call(f, [I2.norm(Sc(I2.bat(x, ix), I2.kind(x))) if isinstance(x, Arr) else x for x in a], k)
            s = I2.sc(r)
            if s is None:
                I2.undec("vectorize")
            kind[0] = s.k
            return s.p
        r = I2.mk(sh, body, "f")
        c = I2.S.cells[r.cell]
        c.dt = kind[0]
        return r
    return PyFn(g, "vectorized")


@npf("errstate", "seterr", "printoptions", "set_printoptions")
def _(I, mod, args, kw):
    return Opq("errstate")


@npf("finfo", "iinfo")
def _(I, mod, args, kw):
    return Opq("finfo")


_rand = [0]


# Random draws: every draw is a fresh real unknown, one per iteration of the enclosing loops; draws from a generator with a given seed
# are functions of the seed and the number of the draw.
RANDOM = {"random": (0, "size"), "random_sample": (0, "size"), "ranf": (0, "size"), "sample": (0, "size"), "standard_normal": (0, "size"),
          "uniform": (2, "size"), "normal": (2, "size"), "rand": (None, None), "randn": (None, None)}


def draw(I, stream, n, args, kw, mod, counter=None):
    pos, key = RANDOM[n]
    if n in ("rand", "randn"):
        sh = tuple(args) if args else None
    else:
        sh = getarg(args, kw, pos, key)
    cnt = I.__dict__.setdefault("nrand", {})
    counter = counter or stream
    cnt[counter] = cnt.get(counter, 0) + 1
    name = f"random:{stream}:{cnt[counter]}"
    own = tuple(idx(v) for v in sorted(I.loopvars))
    alg.LEAF_REAL[name] = True
    scale, off = POLY1, ZERO
    if n == "uniform":
        lo, hi = I.poly(getarg(args, kw, 0, "low", 0)), I.poly(getarg(args, kw, 1, "high", 1))
        scale, off = hi - lo, lo
    elif n == "normal":
        off, scale = I.poly(getarg(args, kw, 0, "loc", 0)), I.poly(getarg(args, kw, 1, "scale", 1))
    if sh is None:
        return Sc(el(name, own) * scale + off, "f")
    return I.mk(shape_arg(I, sh), lambda ix: el(name, own + tuple(ix)) * scale + off, "f", mod)


def _mkdraw(n):
    @npf("random." + n)
    def _(I, mod, args, kw):
        return draw(I, I.__dict__.get("rngseed", "global"), n, args, kw, mod)


for _n in RANDOM:
    _mkdraw(_n)


@npf("random.default_rng", "random.RandomState")
def _(I, mod, args, kw):
    s = args[0] if args else kw.get("seed")
    if isinstance(s, Opq) and s.key.startswith("rng:"):
        return s
    return Opq(f"rng:{'entropy%d' % fresh() if s is None else 'seed' + I.vkey(s)}")


@npf("random.seed")
def _(I, mod, args, kw):
    s = args[0] if args else kw.get("seed")
    I.rngseed = f"entropy{fresh()}" if s is None else "seed" + I.vkey(s)
    I.__dict__.setdefault("nrand", {})[I.rngseed] = 0
    return None


@npf("load")
def _(I, mod, args, kw):
    key = pathkey(I, args[0])
    key = key[3:] if key.startswith("fd:") else key
    I.S.events.append(("load", key, I.loc()))
    I.S.events.append(("loadopts", I.vkey(tuple(kw.items())), I.loc()))
    if I.vfs is not None:
        if key not in I.vfs:
            I.raise_("FileNotFoundError", key)
        c = I.vfs[key]
        return I.inst(c) if isinstance(c, ArrT) else Top("content of file " + key)
    return Opq("file:" + key, getattr(I, "file_shape", None), "c")


@npf("save")
def _(I, mod, args, kw):
    key = pathkey(I, args[0])
    v = args[1] if len(args) > 1 else kw.get("arr")
    obj = args[0]
    if not key.endswith(".npy") and not key.startswith("fd:"):
        key += ".npy"
    I.S.events.append(("save", key, I.loc(), freezeval(I, v)))
    vfs_write(I, key, freezeval(I, v))
    return None


def vfs_write(I, key, v):
    """files are part of the analysed history when the scenario asks for it"""
    if I.vfs is not None:
        key = key[3:] if key.startswith("fd:") else key
        if I.vdirs is not None:
            d = posixpath.dirname(npath(key))
            if d and d not in I.vdirs:
                I.raise_("FileNotFoundError", key)
        I.vfs[key] = v


@npf("savez", "savez_compressed", "savetxt")
def _(I, mod, args, kw):
    I.S.events.append(("save", pathkey(I, args[0]), I.loc(), None))
    vfs_write(I, pathkey(I, args[0]), None)
    return None


def freezeval(I, v):
    if isinstance(v, Arr):
        return I.tmpl(v)
    if isinstance(v, DictR):
        return ("dict", v.id, dict(I.S.dicts[v.id]))
    return v


def pathkey(I, p):
    if isinstance(p, Obj):
        f, _ = p.cls.find("__fspath__")
        if f is not None:
            return pathkey(I, I.call(Bound(f, p), [], {}))
    if isinstance(p, Opq):
        return p.key
    return p if isinstance(p, str) else I.vkey(p).strip("'")


# ------------------------------------------------------------------ external calls
NPCONST = {"pi": lambda: Sc(PI, "f"), "newaxis": lambda: None, "inf": lambda: Sc(sym("INF"), "f"), "e": lambda: Sc(fn("exp", (POLY1,)), "f")}
DTNAMES = {"complex128", "complex64", "complex_", "cdouble", "float64", "float32", "float_", "double", "int64", "int32", "int_", "intp", "bool_", "uint8", "int8", "int16", "longdouble", "uint64",
           "float16", "half", "single", "csingle", "uint16", "uint32", "intc", "longlong", "byte", "short", "clongdouble"}


def extconst(I, e):
    """value of an external name"""
    last = e.path.split(".")[-1] if e.path else ""
    if e.root in ARRAY_ROOTS or e.root in ("math", "scipy", "cmath", "sympy"):
        if e.path in ("pi", "constants.pi"):
            return Sc(PI, "f")
        if e.root == "sympy" and e.path == "oo":
            return Sc(sym("oo", lo=1000), "f")
        if e.root == "sympy" and e.path == "I":
            return Sc(alg.IUNIT, "c")
        if e.path in NPCONST and e.root != "sympy":
            return NPCONST[e.path]()
        if e.root in ARRAY_ROOTS and e.path in DTNAMES:
            return todt(I, e)
    if e.root == "sys" and e.path == "path":
        return I.newlist([SymStr([("fmt", "sys.path[0]")]), Opq("sys.path[1:]")])
    if e.root == "os" and e.path in ("sep",):
        return "/"
    if e.root == "builtins":
        return e
    return e


def _hof(name, nargs=1):
    """scipy.special style function of nargs args, elementwise"""
    def g(I, args, kw):
        k = kjoin(*[I.kind(a) for a in args])
        return I.elementwise(lambda *ps: fn(name, ps), list(args), kjoin(k, "f"))
    return g


MODELS["scipy.special.factorial"] = lambda I, args, kw: I.elementwise(lambda p: fn("factorial", (p,)), [args[0]], "f" if kw.get("exact") is not True else "i")
MODELS["math.factorial"] = lambda I, args, kw: I.elementwise(lambda p: fn("factorial", (p,)), [args[0]], "i")
MODELS["scipy.special.gamma"] = lambda I, args, kw: I.elementwise(lambda p: fn("factorial", (p - 1,)), [args[0]], "f")
MODELS["math.gamma"] = MODELS["scipy.special.gamma"]
MODELS["math.lgamma"] = lambda I, args, kw: I.elementwise(lambda p: fn("lgamma", (p,)), [args[0]], "f")
MODELS["scipy.special.gammaln"] = MODELS["math.lgamma"]
MODELS["scipy.special.loggamma"] = MODELS["math.lgamma"]
MODELS["scipy.special.assoc_laguerre"] = lambda I, args, kw: I.elementwise(lambda x, n, k: fn("laguerre", (n, k, x)), [args[0], args[1], getarg(args, kw, 2, "k", 0)], "f")
MODELS["scipy.special.eval_genlaguerre"] = lambda I, args, kw: I.elementwise(lambda n, k, x: fn("laguerre", (n, k, x)), list(args), "f")
MODELS["scipy.special.genlaguerre"] = lambda I, args, kw: PyFn(lambda I2, a, k: I2.elementwise(lambda x: fn("laguerre", (I2.poly(args[0]), I2.poly(args[1]), x)), [a[0]], "f"))
MODELS["sympy.assoc_laguerre"] = lambda I, args, kw: I.elementwise(lambda n, k, x: fn("laguerre", (n, k, x)), list(args), "f")
MODELS["scipy.special.hermite"] = lambda I, args, kw: PyFn(lambda I2, a, k: I2.elementwise(lambda x: fn("hermite", (I2.poly(args[0]), x)), [a[0]], "f"))
MODELS["scipy.special.eval_hermite"] = lambda I, args, kw: I.elementwise(lambda n, x: fn("hermite", (n, x)), list(args), "f")
alg.FN_REAL.update({"laguerre", "hermite"})
for _n in ("sqrt", "exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "floor", "ceil", "fabs"):
    for _r in ("math", "sympy", "cmath"):
        def _mk2(n):
            f, k = U1[n]

            def g(I, args, kw):
                kind = "i" if n in ("floor", "ceil") else kjoin(I.kind(args[0]), "f")
                return I.elementwise(f, [args[0]], kind)
            return g
        MODELS[f"{_r}.{_n}"] = _mk2(_n)
MODELS["sympy.Float"] = lambda I, args, kw: args[0]
MODELS["sympy.Integer"] = MODELS["sympy.sympify"] = MODELS["sympy.S"] = MODELS["sympy.N"] = MODELS["sympy.simplify"] = MODELS["sympy.expand"] = lambda I, args, kw: args[0]
MODELS["sympy.Abs"] = lambda I, args, kw: BUILTINS["abs"](I, args, kw)
MODELS["sympy.conjugate"] = lambda I, args, kw: npconj(I, args[0])
MODELS["math.pow"] = lambda I, args, kw: I.binop("Pow", args[0], args[1])
MODELS["math.prod"] = lambda I, args, kw: MODELS["np:prod"](I, "numpy", args, kw)
MODELS["math.isclose"] = lambda I, args, kw: I.boolv(bgate("isclose", (I.poly(args[0]), I.poly(args[1]))))
MODELS["math.fsum"] = lambda I, args, kw: npsum(I, args[0])
MODELS["math.hypot"] = lambda I, args, kw: I.elementwise(lambda x, y: power(x * x + y * y, F(1, 2)), list(args), "f")
MODELS["math.comb"] = lambda I, args, kw: I.elementwise(lambda n, k: fn("factorial", (n,)) * power(fn("factorial", (k,)) * fn("factorial", (n - k,)), F(-1)), list(args), "i")
MODELS["scipy.special.comb"] = MODELS["scipy.special.binom"] = MODELS["math.comb"]


@model("sympy.Symbol", "sympy.symbols", "sympy.Dummy")
def _(I, args, kw):
    n = args[0]
    if not isinstance(n, str) or "," in n or " " in n:
        I.undec("sympy symbols")
    real = True
    return Sc(sym(f"sympy:{n}", real=True, lo=0), "f")


@model("sympy.integrate")
def _(I, args, kw):
    if len(args) != 2 or not isinstance(args[1], tuple) or len(args[1]) != 3:
        return Top("sympy.integrate form")
    body = I.poly(args[0])
    v, a, b = [I.poly(x) for x in args[1]]
    t = v.terms
    if len(t) != 1 or len(t[0].fac) != 1 or t[0].fac[0][0][0] != "sym":
        return Top("sympy.integrate variable")
    name = t[0].fac[0][0][1]
    # factors independent of the integration variable are pulled out
    out = ZERO
    canon = sym("\u222b", real=True, lo=0)
    for term in body.terms:
        inside, outside = [], []
        for x, e in term.fac:
            s = set()
            alg.syms_atom(x, s)
            if isinstance(e, Poly):
                alg.syms_of(e, s)
            (inside if name in s else outside).append((x, e))
        ins = subst(alg.norm_term(alg.ONE, term.bound, tuple(inside)), {}, {name: canon})
        # exact: e.g. combine
        I_ = fn("integral", (ins, a, b))
        alg.FN_REAL.add("integral") if alg.isreal(ins) else None
        out = out + alg.norm_term(term.coef, (), tuple(outside)) * I_
    return Sc(out, "f")


# os / sys / time / warnings ...
@model("os.environ.get", "os.getenv")
def _(I, args, kw):
    name = args[0]
    d = args[1] if len(args) > 1 else kw.get("default")
    I.S.events.append(("env", name, I.loc()))
    if name in I.env:
        v = I.env[name]
        return d if v is None else v
    if d is not None:
        return Opq("env:" + str(name))
    return Opq("maybe-none:env:" + str(name))


def env_has(I, name):
    I.S.events.append(("env", name, I.loc()))
    if name in I.env:
        return I.env[name] is not None
    return None


@model("os.path.join")
def _(I, args, kw):
    parts = []
    args = [pathkey(I, a) if isinstance(a, Obj) else a for a in args]
    if all(isinstance(a, str) for a in args):
        return posixpath.join(*args)
    for k, a in enumerate(args):
        if k:
            parts.append("/")
        parts.append(a if isinstance(a, (str, SymStr)) else ("fmt", pathkey(I, a)))
    return I.mkstr(parts)


def npath(k):
    return posixpath.normpath(k) if k else "."


@model("os.path.exists", "os.path.isfile", "os.path.lexists", "os.access")
def _(I, args, kw):
    key = pathkey(I, args[0])
    I.S.events.append(("exists", key, I.loc()))
    if I.vdirs is not None and npath(key) in I.vdirs:
        return True
    if I.vfs is not None:
        return key in I.vfs
    return I.boolv(bgate("exists:" + key))


@model("os.path.isdir")
def _(I, args, kw):
    key = pathkey(I, args[0])
    I.S.events.append(("exists", key, I.loc()))
    if I.vdirs is not None:
        return npath(key) in I.vdirs
    return I.boolv(bgate("isdir:" + key))


@model("os.path.dirname", "os.path.basename", "os.path.normpath")
def _pathpart(I, args, kw, n=None):
    return args[0]


def _mkpath(n):
    @model("os.path." + n)
    def _(I, args, kw):
        a = pathkey(I, args[0]) if isinstance(args[0], Obj) else args[0]
        return getattr(posixpath, n)(a) if isinstance(a, str) else a


for _n in ("dirname", "basename", "normpath"):
    _mkpath(_n)


@model("os.path.abspath", "os.path.realpath", "os.fspath", "os.path.expanduser")
def _(I, args, kw):
    return pathkey(I, args[0]) if isinstance(args[0], Obj) else args[0]


@model("os.path.splitext")
def _(I, args, kw):
    p = args[0]
    if isinstance(p, str):
        import os
        return os.path.splitext(p)
    last = p.parts[-1] if isinstance(p, SymStr) else ""
    if isinstance(last, str) and "." in last:
        b, e = last.rsplit(".", 1)
        return (I.mkstr(list(p.parts[:-1]) + [b]), "." + e)
    return Top("splitext")


@model("os.path.getsize", "os.stat", "os.path.getmtime")
def _(I, args, kw):
    return Opq("stat:" + pathkey(I, args[0]))


@model("os.makedirs")
def _(I, args, kw):
    return mkdir(I, args, kw, True)


@model("os.mkdir")
def _(I, args, kw):
    return mkdir(I, args, kw, False)


def mkdir(I, args, kw, parents):
    eo = getarg(args, kw, 2, "exist_ok", False) if parents else False
    p = pathkey(I, args[0] if args else kw.get("name", kw.get("path")))
    I.S.events.append(("mkdir", p, I.loc(), eo))
    if I.vdirs is not None:
        d = npath(p)
        if d in I.vdirs:
            if not truthy(I, eo):
                I.raise_("FileExistsError", d)
            return None
        up = posixpath.dirname(d)
        while up and up not in I.vdirs:
            if not parents:
                I.raise_("FileNotFoundError", d)
            I.vdirs.add(up)
            up = posixpath.dirname(up)
        I.vdirs.add(d)
    return None


def truthy(I, v):
    t = I.truth(v)
    return t if isinstance(t, bool) else I.branch(t)


@model("os.replace", "os.rename", "shutil.move", "os.link")
def _(I, args, kw):
    a, b = pathkey(I, args[0]), pathkey(I, args[1])
    I.S.events.append(("rename", a, I.loc(), b))
    if I.vfs is not None:
        if a not in I.vfs:
            I.raise_("FileNotFoundError", a)
        I.vfs[b] = I.vfs.pop(a)
    return None


@model("os.remove", "os.unlink", "os.rmdir", "shutil.rmtree")
def _(I, args, kw):
    I.S.events.append(("remove", pathkey(I, args[0]), I.loc()))
    if I.vfs is not None:
        if pathkey(I, args[0]) not in I.vfs:
            I.raise_("FileNotFoundError", pathkey(I, args[0]))
        del I.vfs[pathkey(I, args[0])]
    return None


@model("os.fsync", "os.close", "os.fdopen")
def _(I, args, kw):
    return args[0] if args else None


@model("os.getpid")
def _(I, args, kw):
    return SymStr([("fmt", "pid")])


@model("os.getcwd")
def _(I, args, kw):
    return SymStr([("fmt", "cwd")])


@model("threading.get_ident")
def _(I, args, kw):
    return SymStr([("fmt", "thread")])


@model("contextlib.contextmanager")
def _(I, args, kw):
    f = args[0]
    if not isinstance(f, Func):
        I.undec("contextmanager")
    f.ctx = True
    return f


@model("uuid.uuid4", "uuid.uuid1", "time.time_ns", "os.urandom", "secrets.token_hex")
def _(I, args, kw):
    I.nuniq = getattr(I, "nuniq", 0) + 1
    return SymStr([("fmt", f"unique{I.nuniq}")])


@model("tempfile.mkstemp")
def _(I, args, kw):
    suf = kw.get("suffix", args[0] if args else "")
    d = kw.get("dir", args[2] if len(args) > 2 else None)
    parts = [d if d is not None else "/tmp", "/tmp-unique", suf or ""]
    p = I.mkstr([x if isinstance(x, (str, SymStr)) else ("fmt", pathkey(I, x)) for x in parts])
    return (Opq("fd:" + pathkey(I, p)), p)


@model("tempfile.NamedTemporaryFile", "tempfile.TemporaryFile")
def _(I, args, kw):
    d = kw.get("dir")
    suf = kw.get("suffix", "")
    p = I.mkstr([d if isinstance(d, (str, SymStr)) else "/tmp", "/tmp-unique", suf or ""])
    return Opq("fd:" + pathkey(I, p))


@model("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.thread_time")
def _(I, args, kw):
    return Sc(sym(f"time{fresh()}"), "f")


@model("time.sleep", "warnings.simplefilter", "warnings.filterwarnings")
def _(I, args, kw):
    return None


@model("warnings.catch_warnings")
def _(I, args, kw):
    return Opq("catch_warnings")


@model("logging.warning", "logging.info", "logging.debug")
def _log(I, args, kw):
    return None


@model("warnings.warn")
def _(I, args, kw):
    I.S.events.append(("warn", "", I.loc()))
    return None


@model("logging.getLogger")
def _(I, args, kw):
    return Opq("logger")


@model("functools.partial")
def _(I, args, kw):
    return Partial(args[0], tuple(args[1:]), dict(kw))


@model("functools.reduce")
def _(I, args, kw):
    it = I.iterate(args[1])
    if it.items is None:
        I.undec("reduce over a symbolic sequence")
    items = list(it.items)
    acc = args[2] if len(args) > 2 else items.pop(0)
    for x in items:
        acc = I.call(args[0], [acc, x], {})
    return acc


@model("functools.wraps", "functools.update_wrapper")
def _(I, args, kw):
    return PyFn(lambda I2, a, k: a[0])


@model("functools.lru_cache", "functools.cache")
def _(I, args, kw):
    def deco(I2, a, k):
        f = a[0]
        if isinstance(f, Func):
            f.cached = {}
        return f
    if args and isinstance(args[0], Func):
        return deco(I, args, kw)
    return PyFn(deco)


@model("functools.cached_property")
def _(I, args, kw):
    return Prop(args[0])


@model("abc.abstractmethod")
def _(I, args, kw):
    return args[0]


@model("numba.njit", "numba.jit", "numba.vectorize", "numba.guvectorize", "numba.extending.register_jitable")
def _(I, args, kw):
    if args and isinstance(args[0], Func):
        return args[0]
    return PyFn(lambda I2, a, k: a[0], "jit")


@model("numba.get_num_threads", "os.cpu_count", "multiprocessing.cpu_count")
def _(I, args, kw):
    I.threads_read = True
    n = getattr(I, "nthreads", None)
    return n if n is not None else I.norm(Sc(sym("nthreads", integer=True, lo=1), "i"))


@model("numba.prange")
def _(I, args, kw):
    r = BUILTINS["range"](I, args, kw)
    if r.items is not None:
        return r
    return Iter(length=r.length, fn=r.fn, par=True)


@model("itertools.product")
def _(I, args, kw):
    its = [I.iterate(a) for a in args]
    rep = I.norm(kw.get("repeat", 1))
    its = its * rep
    if all(x.items is not None for x in its):
        import itertools
        return Iter(items=[tuple(t) for t in itertools.product(*[x.items for x in its])])
    lens = [x.length if x.items is None else const(len(x.items)) for x in its]

    def fnn(k):
        out = []
        for x, n in reversed(list(zip(its, lens))):
            j = fmod(k, n)
            k = fdiv(k, n)
            out.append(x.fn(j) if x.items is None else I.select(x.items, Sc(j, "i")))
        return tuple(reversed(out))
    tot = POLY1
    for n in lens:
        tot = tot * n
    return Iter(length=tot, fn=fnn)


@npf("ndindex")
def _(I, mod, args, kw):
    dims = shape_arg(I, args[0]) if len(args) == 1 and isinstance(args[0], (tuple, ListR)) else tuple(I.poly(a) for a in args)
    return MODELS["itertools.product"](I, [BUILTINS["range"](I, [I.norm(Sc(d, "i"))], {}) for d in dims], {})


@npf("ndenumerate")
def _(I, mod, args, kw):
    a = arr(I, args[0])
    base = MODELS["np:ndindex"](I, mod, [shapev(I, a.shape)], {})
    if base.items is not None:
        return Iter(items=[(t, index(I, a, t)) for t in base.items])
    return Iter(length=base.length, fn=lambda k: (lambda t: (t, index(I, a, t)))(base.fn(k)))


@model("itertools.chain")
def _(I, args, kw):
    out = []
    for a in args:
        out.extend(I.list_items(a))
    return I.newlist(out)


@model("itertools.combinations", "itertools.permutations", "itertools.combinations_with_replacement")
def _(I, args, kw):
    I.undec("itertools")


@model("operator.attrgetter")
def _(I, args, kw):
    return PyFn(lambda I2, a, k: I2.getattr(a[0], args[0]))


@model("operator.itemgetter")
def _(I, args, kw):
    return PyFn(lambda I2, a, k: I2.getitem(a[0], args[0]))


for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod"), ("pow", "Pow"), ("matmul", "MatMult")):
    MODELS["operator." + _n] = (lambda op: lambda I, args, kw: I.binop(op, args[0], args[1]))(_o)


@model("contextlib.contextmanager")
def _(I, args, kw):
    return args[0]


@model("contextlib.suppress", "contextlib.nullcontext")
def _(I, args, kw):
    return Opq("context")


# ------------------------------------------------------------------ copy
def ident(I, v):
    """identity key of a value"""
    if isinstance(v, Obj):
        return ("obj", v.id)
    if isinstance(v, (ListR, DictR)):
        return ("c", type(v).__name__, v.id)
    if isinstance(v, Arr):
        return ("arr", v.cell, I.vkey_view(v))
    if isinstance(v, Ext):
        return ("ext", v.full)
    if isinstance(v, (Func, Cls, LeafFn, Opq, Prop, Mod, ModelObj)):
        return ("py", id(v))
    return ("val", I.vkey(v))


IDS = {}


def idnum(I, v):
    k = ident(I, v)
    if k not in IDS:
        IDS[k] = 10 ** 6 + len(IDS)
    return IDS[k]


def deepcopy(I, v, memo, udict=None):
    k = ident(I, v)
    if k in memo:
        return memo[k]
    if udict is not None:
        d = I.S.dicts[udict.id]
        n = IDS.get(k)
        if n is not None and n in d:
            return d[n]
    if v is None or isinstance(v, (bool, int, str, float, Sc, SymStr, DT, Func, Cls, LeafFn, PyFn, Opq, Top, SliceV, Static)):
        return v
    if isinstance(v, ModelObj):
        memo[k] = v.copy()
        return memo[k]
    if isinstance(v, (Ext, Mod)):
        if isinstance(v, Mod) or v.path == "" or v.full in ("numpy.linalg", "scipy.special"):
            I.raise_("TypeError", "cannot pickle 'module' object")
        return v
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo, udict) for x in v)
    if isinstance(v, Arr):
        r = copyarr(I, v)
        memo[k] = r
        return r
    if isinstance(v, ListR):
        r = I.newlist([], type(v))
        memo[k] = r
        I.S.lists[r.id] = [x if isinstance(x, Seg) else deepcopy(I, x, memo, udict) for x in I.S.lists[v.id]]
        return r
    if isinstance(v, DictR):
        r = I.newdict()
        memo[k] = r
        I.S.dicts[r.id] = {kk: deepcopy(I, x, memo, udict) for kk, x in I.S.dicts[v.id].items()}
        return r
    if isinstance(v, Bound):
        return Bound(v.fn, deepcopy(I, v.self, memo, udict))
    if isinstance(v, Partial):
        return Partial(deepcopy(I, v.fn, memo, udict), tuple(deepcopy(I, x, memo, udict) for x in v.args), {kk: deepcopy(I, x, memo, udict) for kk, x in v.kw.items()})
    if isinstance(v, Obj):
        f, _ = v.cls.find("__deepcopy__")
        if f is not None:
            md = udict or I.newdict()
            I._dcmemo = memo
            r = I.call(Bound(f, v), [MemoV(memo, md)], {})
            memo[k] = r
            return r
        for m in ("__reduce__", "__reduce_ex__", "__getnewargs__", "__copy__"):
            if m != "__copy__" and v.cls.find(m)[0] is not None:
                I.undec("custom pickling")
        o = Obj(fresh(), v.cls)
        I.S.objs[o.id] = {}
        memo[k] = o
        gs, _ = v.cls.find("__getstate__")
        if gs is not None:
            st = I.call(Bound(gs, v), [], {})
            st = deepcopy(I, st, memo, udict)
        else:
            st = None
        ss, _ = v.cls.find("__setstate__")
        if st is None:
            items = {a: deepcopy(I, x, memo, udict) for a, x in list(I.S.objs[v.id].items())}
            if ss is not None:
                I.call(Bound(ss, o), [I.newdict(items)], {})
            else:
                I.S.objs[o.id].update(items)
        elif ss is not None:
            I.call(Bound(ss, o), [st], {})
        elif isinstance(st, DictR):
            I.S.objs[o.id].update(I.S.dicts[st.id])
        else:
            I.undec("custom pickling state")
        return o
    I.undec(f"deepcopy of {v!r}")


class MemoV(Opq):
    """the memo dictionary handed to __deepcopy__"""
    __slots__ = ("memo", "ud")

    def __init__(self, memo, ud):
        Opq.__init__(self, "memo")
        self.memo, self.ud = memo, ud


@model("copy.deepcopy")
def _(I, args, kw):
    memo = args[1] if len(args) > 1 else kw.get("memo")
    if isinstance(memo, MemoV):
        return deepcopy(I, args[0], memo.memo, memo.ud)
    return deepcopy(I, args[0], {}, memo if isinstance(memo, DictR) else None)


@model("copy.copy")
def _(I, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        f, _ = v.cls.find("__copy__")
        if f is not None:
            return I.call(Bound(f, v), [], {})
        gs, _ = v.cls.find("__getstate__")
        o = Obj(fresh(), v.cls)
        if gs is not None:
            st = I.call(Bound(gs, v), [], {})
            I.S.objs[o.id] = dict(I.S.dicts[st.id])
        else:
            I.S.objs[o.id] = dict(I.S.objs[v.id])
        return o
    if isinstance(v, Arr):
        return copyarr(I, v)
    if isinstance(v, ListR):
        return I.newlist(I.S.lists[v.id], type(v))
    if isinstance(v, DictR):
        return I.newdict(I.S.dicts[v.id])
    return v


# ------------------------------------------------------------------ builtins
@bi("len")
def _(I, args, kw):
    v = args[0]
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, Arr):
        if not v.shape:
            I.raise_("TypeError", "len() of unsized object")
        return I.norm(Sc(v.shape[0], "i"))
    if isinstance(v, SetR):
        return I.norm(Sc(I.set_len(I.S.lists[v.id]), "i"))
    if isinstance(v, ListR):
        n = ZERO
        for x in I.S.lists[v.id]:
            if isinstance(x, Top):
                return Top(x.why)
            n = n + (x.length if isinstance(x, Seg) else POLY1)
        return I.norm(Sc(n, "i"))
    if isinstance(v, DictR):
        return len(I.S.dicts[v.id])
    if isinstance(v, Iter):
        return len(v.items) if v.items is not None else I.norm(Sc(v.length, "i"))
    if isinstance(v, Opq):
        if v.shape:
            return I.norm(Sc(v.shape[0], "i"))
        return I.norm(Sc(fn("?len:" + v.key, ()), "i"))
    if isinstance(v, Obj):
        f, _ = v.cls.find("__len__")
        if f is not None:
            return I.call(Bound(f, v), [], {})
    if isinstance(v, Top):
        return v
    if isinstance(v, Masked):
        return Top("length of mask selection")
    if v is None or I.sc(v) is not None:
        I.raise_("TypeError", "object has no len()")
    I.undec("len")


@bi("range")
def _(I, args, kw):
    ps = []
    for a in args:
        if isinstance(a, Top):
            raise Undecided(a.why)
        s = I.sc(a)
        if s is None:
            if isinstance(a, Opq):
                s = Sc(fn("?" + a.key, ()), "i")
                alg.FN_INT.add("?" + a.key)
            else:
                I.raise_("TypeError", "range() of a non-integer")
        if s.k not in ("i", "b") and not alg.is_int(s.p):
            if s.k == "f" and (s.p.as_frac() is not None or not any("\u22a4" in str(x) for x in alg.syms_of(s.p))):
                I.raise_("TypeError", "float object cannot be interpreted as an integer")
        ps.append(s.p)
    lo, st = ZERO, POLY1
    if len(ps) == 1:
        hi = ps[0]
    else:
        lo, hi = ps[0], ps[1]
        if len(ps) == 3:
            st = ps[2]
    s = st.as_int()
    if s == 0:
        I.raise_("ValueError", "range() arg 3 must not be zero")
    if s is None:
        I.undec("symbolic range step")
    n = hi - lo if s == 1 else lo - hi if s == -1 else fdiv(hi - lo + (s - 1), const(s)) if s > 0 else fdiv(lo - hi + (-s - 1), const(-s))
    n = I.simp(n)
    c = n.as_int()
    if c is not None:
        if c <= getattr(I, "range_unroll", 64):
            return Iter(items=[I.norm(Sc(lo + k * s, "i")) for k in range(max(c, 0))])
    return Iter(length=n, fn=lambda k: I.norm(Sc(lo + k * s, "i")))


@bi("enumerate")
def _(I, args, kw):
    it = I.iterate(args[0])
    st = I.poly(getarg(args, kw, 1, "start", 0))
    if it.items is not None:
        return Iter(items=[(I.norm(Sc(st + k, "i")), x) for k, x in enumerate(it.items)])
    return Iter(length=it.length, fn=lambda k: (I.norm(Sc(st + k, "i")), it.fn(k)), par=it.par)


@bi("zip")
def _(I, args, kw):
    its = [I.iterate(a) for a in args]
    if all(x.items is not None for x in its):
        return Iter(items=[tuple(t) for t in zip(*[x.items for x in its])])
    symit = [x for x in its if x.items is None]
    fin = [x for x in its if x.items is not None]
    if fin:
        n = min(len(x.items) for x in fin)
        for x in symit:
            if I.same_dim(x.length, const(n)) is not True:
                I.undec("zip of sequences of different length")
        return Iter(items=[tuple(x.items[k] if x.items is not None else x.fn(const(k)) for x in its) for k in range(n)])
    n = symit[0].length
    for x in symit[1:]:
        if not I.same_dim(n, x.length):
            I.undec("zip of sequences of different length")
    return Iter(length=n, fn=lambda k: tuple(x.fn(k) for x in its))


@bi("map")
def _(I, args, kw):
    z = BUILTINS["zip"](I, args[1:], {})
    f = args[0]
    if z.items is not None:
        return I.newlist([I.call(f, list(t), {}) for t in z.items])
    return Iter(length=z.length, fn=lambda k: I.call(f, list(z.fn(k)), {}))


@bi("filter")
def _(I, args, kw):
    it = I.iterate(args[1])
    if it.items is None:
        I.undec("filter over a symbolic sequence")
    out = []
    for x in it.items:
        t = I.truth(x if args[0] is None else I.call(args[0], [x], {}))
        b = t if isinstance(t, bool) else I.branch(t)
        if b is None:
            I.undec("filter")
        if b:
            out.append(x)
    return I.newlist(out)


@bi("abs")
def _(I, args, kw):
    v = args[0]
    if isinstance(v, Opq) and v.shape is None:
        return Opq(f"abs({v.key})")
    k = I.kind(v)
    return I.elementwise(_abs, [v], "f" if k == "c" else "i" if k == "b" else k)


@bi("sum")
def _(I, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    v = args[0]
    if isinstance(v, Arr) and len(v.shape) == 1:
        return I.binop("Add", npsum(I, v), start) if start != 0 else npsum(I, v)
    items = I.list_items(v)
    acc = start
    for x in items:
        if isinstance(x, Top):
            return x
        if isinstance(x, Seg):
            t = template_array(I, x.value)
            if t.shape == ():
                s = Sc(sumover(t.body, x.var), t.dt if t.dt != "b" else "i")
            else:
                s = I.inst(ArrT(t.shape, t.vars, sumover(t.body, x.var), t.dt, t.mod))
            acc = s if acc == 0 and isinstance(acc, int) else I.binop("Add", acc, s)
        else:
            if isinstance(acc, int) and acc == 0 and not isinstance(x, (bool,)) and I.sc(x) is None:
                acc = I.binop("Add", acc, x)
            else:
                acc = I.binop("Add", acc, x)
    return acc


@bi("all")
def _(I, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        return np_all(I, "numpy", [v], {})
    acc = POLY1
    for x in I.list_items(v):
        if isinstance(x, Seg):
            t = I.truth(x.value)
            if t is True:
                continue
            if t is False:
                acc = acc * eq0(x.length)
                continue
            acc = acc * bgate("all", (Lam((x.length,), (x.var,), t),))
            continue
        t = I.truth(x)
        if t is False:
            return False
        if t is not True:
            acc = acc * t
    c = acc.const()
    return I.boolv(acc) if c is None else not c.iszero()


@bi("any")
def _(I, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        return MODELS["np:any"](I, "numpy", [v], {})
    acc = POLY1
    for x in I.list_items(v):
        if isinstance(x, Seg):
            I.undec("any over symbolic sequence")
        t = I.truth(x)
        if t is True:
            return True
        if t is not False:
            acc = acc * (POLY1 - t)
    r = POLY1 - acc
    c = r.const()
    return I.boolv(r) if c is None else not c.iszero()


def _minmax(name):
    def f(I, args, kw):
        vals = list(args) if len(args) > 1 else I.list_items(args[0])
        if "key" in kw:
            I.undec("min/max key")
        if any(isinstance(v, Seg) for v in vals):
            return I.top_scalar(name)
        acc = vals[0]
        for v in vals[1:]:
            acc = I.elementwise(lambda x, y: fn(name, (x, y)), [acc, v], kjoin(I.kind(acc), I.kind(v)))
        return acc
    return f


BUILTINS["min"] = _minmax("min")
BUILTINS["max"] = _minmax("max")


@bi("isinstance")
def _(I, args, kw):
    v, c = args
    cs = list(c) if isinstance(c, tuple) else [c]
    res = False
    for x in cs:
        if isinstance(x, Cls):
            if isinstance(v, Obj) and x in v.cls.mro:
                return True
            if isinstance(v, (Opq, Top)):
                return I.boolv(bgate(f"isinstance({I.vkey(v)},{x.name})"))
        elif isinstance(x, Ext):
            n = x.path.split(".")[-1]
            ok = {
                "ndarray": isinstance(v, Arr), "int": isinstance(v, (int, bool)) or (isinstance(v, Sc) and v.k in ("i", "b")),
                "float": isinstance(v, Sc) and v.k == "f", "complex": isinstance(v, Sc) and v.k == "c", "bool": isinstance(v, bool) or (isinstance(v, Sc) and v.k == "b"),
                "str": isinstance(v, (str, SymStr)), "list": isinstance(v, ListR) and not isinstance(v, SetR), "tuple": isinstance(v, tuple), "dict": isinstance(v, DictR), "set": isinstance(v, SetR),
                "integer": isinstance(v, Sc) and v.k == "i" or isinstance(v, int), "Number": I.sc(v) is not None and not isinstance(v, Arr), "Real": I.sc(v) is not None and not isinstance(v, Arr) and I.kind(v) != "c",
                "Integral": isinstance(v, int) or isinstance(v, Sc) and v.k == "i", "Callable": callable_(I, v), "Complex": I.sc(v) is not None and not isinstance(v, Arr), "generic": False, "number": I.sc(v) is not None and not isinstance(v, Arr),
                "Sequence": isinstance(v, (tuple, ListR)), "Iterable": isinstance(v, (tuple, ListR, Arr, DictR, str)), "floating": isinstance(v, Sc) and v.k == "f", "object": True,
                "complexfloating": isinstance(v, Sc) and v.k == "c",
            }.get(n)
            if ok is None:
                if isinstance(v, (Obj, int, tuple, ListR)) or v is None:
                    ok = False
                else:
                    return I.boolv(bgate(f"isinstance({I.vkey(v)},{x.full})"))
            if isinstance(v, (Opq, Top)) and v.__class__ is not MemoV:
                return I.boolv(bgate(f"isinstance({I.vkey(v)},{x.full})"))
            if ok:
                return True
        elif isinstance(x, DT):
            if isinstance(v, Sc) and v.k == x.k:
                return True
        elif isinstance(x, PyFn):
            if x.name == "type" and isinstance(v, Cls):
                return True
        else:
            I.undec("isinstance class")
    return res


@bi("issubclass")
def _(I, args, kw):
    cs = args[1] if isinstance(args[1], tuple) else (args[1],)
    return any(isinstance(c, Cls) and c in args[0].mro for c in cs)


def callable_(I, v):
    if isinstance(v, (Func, Bound, Cls, LeafFn, PyFn, Partial, Ext, Static)):
        return True
    if isinstance(v, Obj):
        return v.cls.find("__call__")[0] is not None
    return False


@bi("callable")
def _(I, args, kw):
    if isinstance(args[0], Top):
        raise Undecided(args[0].why)
    if isinstance(args[0], Opq):
        return I.boolv(bgate("callable:" + args[0].key))
    return callable_(I, args[0])


@bi("getattr")
def _(I, args, kw):
    v, n = args[0], args[1]
    if not isinstance(n, str):
        I.undec("getattr with symbolic name")
    if len(args) > 2:
        try:
            return I.getattr(v, n)
        except Raised as r:
            if r.exc == "AttributeError":
                return args[2]
            raise
    return I.getattr(v, n)


@bi("hasattr")
def _(I, args, kw):
    if isinstance(args[0], (Opq, Top)):
        return I.boolv(bgate(f"hasattr({I.vkey(args[0])},{args[1]})"))
    try:
        I.getattr(args[0], args[1])
        return True
    except Raised as r:
        if r.exc == "AttributeError":
            return False
        raise


@bi("setattr")
def _(I, args, kw):
    if not isinstance(args[1], str):
        I.undec("setattr with symbolic name")
    I.setattr(args[0], args[1], args[2])
    return None


@bi("delattr")
def _(I, args, kw):
    I.S.objs[args[0].id].pop(args[1], None)
    return None


@bi("vars")
def _(I, args, kw):
    return I.obj_dict(args[0])


@bi("print")
def _(I, args, kw):
    return None


@bi("id")
def _(I, args, kw):
    return idnum(I, args[0])


@bi("property")
def _(I, args, kw):
    return Prop(getarg(args, kw, 0, "fget"), getarg(args, kw, 1, "fset"))


@bi("staticmethod")
def _(I, args, kw):
    return Static(args[0])


@bi("classmethod")
def _(I, args, kw):
    return ClassM(args[0])


@bi("type")
def _(I, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        return v.cls
    for t, n in ((bool, "bool"), (int, "int"), (str, "str"), (tuple, "tuple"), (SetR, "set"), (ListR, "list"), (DictR, "dict")):
        if isinstance(v, t):
            return Ext("builtins", n)
    if isinstance(v, Arr):
        return Ext("numpy", "ndarray")
    if isinstance(v, Sc):
        return Ext("builtins", {"b": "bool", "i": "int", "f": "float", "c": "complex"}[v.k])
    if v is None:
        return Ext("builtins", "NoneType")
    if isinstance(v, GenR):
        return Ext("builtins", "generator")
    if isinstance(v, Iter):
        return Ext("builtins", "iterator")
    return Opq("type:" + I.vkey(v))


@bi("slice")
def _(I, args, kw):
    a = list(args)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@bi("iter")
def _(I, args, kw):
    return args[0]


@bi("reversed")
def _(I, args, kw):
    it = I.iterate(args[0])
    if it.items is not None:
        return Iter(items=list(reversed(it.items)))
    return Iter(length=it.length, fn=lambda k: it.fn(it.length - 1 - k))


@bi("sorted")
def _(I, args, kw):
    it = I.iterate(args[0])
    if it.items is not None and all(isinstance(x, (int, str)) for x in it.items) and not kw:
        return I.newlist(sorted(it.items))
    return Top("sorted")


@bi("round")
def _(I, args, kw):
    return I.elementwise(lambda p: p if alg.is_int(p) else fn("round", (p,)), [args[0]], "i")


@bi("pow")
def _(I, args, kw):
    return I.binop("Pow", args[0], args[1])


@bi("divmod")
def _(I, args, kw):
    return (I.binop("FloorDiv", args[0], args[1]), I.binop("Mod", args[0], args[1]))


@bi("repr")
def _(I, args, kw):
    return I.mkstr([I.strpart(args[0])])


@bi("next")
def _(I, args, kw):
    if isinstance(args[0], GenR):
        g = args[0]
        items = I.S.lists[g.list.id]
        if any(isinstance(x, Seg) for x in items):
            I.undec("next")
        if items and not I.S.objs.get(("gen", g.id), {}).get("used"):
            I.S.lists[g.list.id] = items[1:]
            return items[0]
        if len(args) > 1:
            return args[1]
        I.raise_("StopIteration")
    it = I.iterate(args[0])
    if it.items is not None:
        if it.items:
            return it.items[0]
        if len(args) > 1:
            return args[1]
        I.raise_("StopIteration")
    I.undec("next")


@bi("hash")
def _(I, args, kw):
    return Opq("hash")


@bi("format")
def _(I, args, kw):
    return I.mkstr([I.strpart(args[0], args[1] if len(args) > 1 else "")])


@bi("open")
def _(I, args, kw):
    key = pathkey(I, args[0])
    mode = getarg(args, kw, 1, "mode", "r")
    rd = "r" in str(mode) and "+" not in str(mode)
    I.S.events.append(("open" if rd else "save", key, I.loc(), None))
    if not rd:
        vfs_write(I, key, None)
    elif I.vfs is not None and key not in I.vfs:
        I.raise_("FileNotFoundError", key)
    return Opq("fd:" + key)


@bi("globals", "locals", "exec", "eval", "compile", "__import__", "input")
def _(I, args, kw):
    I.undec("dynamic code")


def cast_scalar(I, d, args):
    if not args:
        return I.sc(0)
    v = args[0]
    if isinstance(v, Arr) and len(v.shape) > 0 and I.sc(v) is None:
        return astype(I, v, d.k)
    s = I.sc(v)
    if s is None:
        return Top("scalar cast")
    return I.norm(Sc(I.cast_store(s.p, None, d.k), d.k))


def callbuiltin(I, n, args, kw):
    if n in EXC:
        return Opq("exception:" + n)
    if n == "list":
        return I.newlist(I.list_items(args[0]) if args else [])
    if n == "tuple":
        if not args:
            return ()
        items = I.list_items(args[0])
        if any(isinstance(x, Seg) for x in items):
            return I.newlist(items)
        return tuple(items)
    if n == "set":
        items = I.list_items(args[0]) if args else []
        if any(isinstance(x, (Obj, str, LeafFn)) for x in items):
            # no particular order: any but the one they came in
            items = list(items)[::-1]
        return I.newset(items)
    if n == "dict":
        d = {}
        if args:
            if isinstance(args[0], DictR):
                d.update(I.S.dicts[args[0].id])
            else:
                for x in I.list_items(args[0]):
                    k, v = I.unpack(x, 2)
                    d[I.dkey(k)] = v
        d.update(kw)
        return I.newdict(d)
    if n == "str":
        if not args:
            return ""
        return I.mkstr([I.strpart(args[0])])
    if n == "object":
        return Opq(f"object#{fresh()}")
    if not args:
        return {"int": 0, "bool": False, "float": I.sc(0.0), "complex": I.sc(0j)}[n]
    v = args[0]
    if isinstance(v, Top):
        return v
    if n == "bool":
        t = I.truth(v)
        return t if isinstance(t, bool) else I.boolv(t)
    if isinstance(v, (str, SymStr)):
        try:
            return {"int": int, "float": lambda s: I.sc(float(s)), "complex": lambda s: I.sc(complex(s))}[n](v)
        except Exception:
            return I.top_scalar("number from string", "f")
    if n == "complex" and len(args) == 2:
        return I.binop("Add", v, I.binop("Mult", I.sc(1j), args[1]))
    if isinstance(v, Opq):
        return v
    s = I.sc(v)
    if s is None:
        if v is None or isinstance(v, (ListR, tuple, Obj)):
            I.raise_("TypeError", f"{n}() argument must be a number")
        if isinstance(v, Arr):
            I.raise_("TypeError", "only length-1 arrays can be converted to Python scalars")
        return Top("scalar cast")
    if n == "int":
        if s.k == "c":
            I.raise_("TypeError", "can't convert complex to int")
        p = s.p if alg.is_int(s.p) else fn("trunc", (s.p,))
        if not alg.is_int(p):
            alg.FN_INT.add("trunc")
        return I.norm(Sc(p, "i"))
    if n == "float":
        if s.k == "c" and not alg.isreal(s.p):
            I.raise_("TypeError", "can't convert complex to float")
        return Sc(s.p, "f")
    return Sc(s.p, "c")


alg.FN_INT.add("trunc")
alg.REALFN.add("trunc")


def callext(I, e, args, kw):
    e2 = extconst(I, e)
    if not isinstance(e2, Ext):
        return I.call(e2, args, kw) if not isinstance(e2, Sc) else I.raise_("TypeError", "not callable")
    if e.root == "builtins":
        return callbuiltin(I, e.path, args, kw)
    for a in args:
        if isinstance(a, Top) and e.root in ARRAY_ROOTS:
            return a
    if e.root in ARRAY_ROOTS:
        f = MODELS.get("np:" + e.path)
        if f is not None:
            return f(I, e.root, args, kw)
        if e.path in DTNAMES:
            return cast_scalar(I, todt(I, e), args)
    f = MODELS.get(e.full)
    if f is not None:
        return f(I, args, kw)
    if e.root == "scipy" and MODELS.get("np:" + e.path.split(".")[-1]) and e.path.split(".")[0] in ("integrate",):
        return MODELS["np:" + e.path.split(".")[-1]](I, "numpy", args, kw)
    h = I.intercepts.get("ext:" + e.full) or I.intercepts.get("extroot:" + e.root)
    if h is not None:
        r = h(I, e, args, kw)
        if r is not NotImplemented:
            return r
    if e.root in ("pyscf",):
        return pyscf_call(I, e, args, kw)
    if e.root == "pandas":
        if e.path == "DataFrame":
            from .frames import frame_new
            return frame_new(I, args, kw)
    I.unmodelled.add(e.full)
    for a in args:
        # an unknown function may modify arrays handed to it
        pass
    try:
        key = f"?{e.full}({','.join(I.vkey(a) for a in args)})"
    except Exception:
        key = f"?{e.full}#{fresh()}"
    return Top(key)


# ------------------------------------------------------------------ leaf functions and opaque objects
def call_leaffn(I, f, args, kw):
    if kw or len(args) < 1:
        I.undec("call of a caller-supplied function with keywords")
    I.S.events.append(("leafcall", f.name, I.loc()))
    a = args[0]
    if f.shape is not None:
        p = tuple(I.poly(x) for x in args)
        return I.mk(f.shape, lambda ix: fn(f.name, p + tuple(ix)), "f" if f.real else "c")
    return I.elementwise(lambda *ps: fn(f.name, ps), list(args), "f" if f.real else "c")


def call_opaque(I, f, args, kw):
    h = I.intercepts.get("opaque")
    if h is not None:
        r = h(I, f, args, kw)
        if r is not NotImplemented:
            return r
    if f.key.startswith("pyscf"):
        return pyscf_method(I, f, args, kw)
    if f.key.startswith("logger") or f.key.startswith("fd:"):
        return None
    try:
        a = ",".join([I.vkey(x) for x in args] + [f"{k}={I.vkey(v)}" for k, v in sorted(kw.items())])
    except Exception:
        a = f"#{fresh()}"
    I.S.events.append(("opaque-call", f.key + "(" + a + ")", I.loc(), tuple(freezeval(I, x) for x in args)))
    return Opq(f"{f.key}({a})")


def arr_attr(I, a, n):
    c = I.S.cells[a.cell]
    if n == "shape":
        return shapev(I, a.shape)
    if n == "T":
        return transpose(I, a)
    if n == "ndim":
        return len(a.shape)
    if n == "dtype":
        return DT(c.dt)
    if n == "size":
        return size(I, a)
    if n in ("values", "flat"):
        return a
    if n == "real":
        return I.elementwise(_realpart, [a], "f" if c.dt == "c" else c.dt)
    if n == "imag":
        return I.elementwise(_imagpart, [a], "f" if c.dt == "c" else c.dt)
    if n in ("itemsize", "nbytes", "strides", "flags"):
        return Opq("arrmeta")

    def m(I2, args, kw):
        return arr_method(I2, a, n, args, kw)
    if n in ARRM:
        return PyFn(m, n)
    I.raise_("AttributeError", f"ndarray has no attribute {n}")


ARRM = {"conj", "conjugate", "transpose", "copy", "astype", "reshape", "fill", "sum", "dot", "trace", "diagonal", "ravel", "flatten", "swapaxes",
        "squeeze", "repeat", "item", "tolist", "all", "any", "max", "min", "mean", "round", "prod", "nonzero", "argmax", "argmin", "argsort", "sort", "view",
        "cumsum", "clip", "take", "put", "setflags", "std", "var", "resize", "to_numpy", "__len__", "searchsorted", "byteswap", "itemset", "compress"}


def arr_method(I, a, n, args, kw):
    if n in ("conj", "conjugate"):
        return npconj(I, a)
    if n == "transpose":
        if not args or args == [None]:
            return transpose(I, a)
        ax = I.unpack(args[0], None) if isinstance(args[0], (tuple, ListR)) else list(args)
        return transpose(I, a, [axis_of(I, x, len(a.shape)) for x in ax])
    if n in ("copy", "flatten", "to_numpy"):
        r = copyarr(I, a)
        return ravel(I, r) if n == "flatten" else r
    if n == "astype":
        t = todt(I, args[0] if args else kw.get("dtype"))
        if t is None:
            I.undec("astype")
        if kw.get("copy") is False and t.k == I.dt(a):
            return a
        return astype(I, a, t.k)
    if n == "reshape":
        sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, ListR)) else tuple(args)
        return reshape(I, a, shape_arg(I, sh))
    if n == "fill":
        s = I.sc(args[0])
        if s is None:
            I.undec("fill")
        I.store(a, lambda ix: s.p)
        return None
    if n == "sum":
        return npsum(I, a, getarg(args, kw, 0, "axis"), I.S.cells[a.cell].mod, kw.get("keepdims", False))
    if n == "dot":
        return dot(I, a, args[0], I.S.cells[a.cell].mod)
    if n == "trace":
        return trace(I, a, getarg(args, kw, 0, "offset", 0), getarg(args, kw, 1, "axis1", 0), getarg(args, kw, 2, "axis2", 1), I.S.cells[a.cell].mod)
    if n == "diagonal":
        return diagonal(I, a, getarg(args, kw, 0, "offset", 0), getarg(args, kw, 1, "axis1", 0), getarg(args, kw, 2, "axis2", 1))
    if n == "ravel":
        return ravel(I, a)
    if n == "swapaxes":
        return swapaxes(I, a, args[0], args[1])
    if n == "squeeze":
        return squeeze(I, a, getarg(args, kw, 0, "axis"))
    if n == "repeat":
        return repeat(I, a, args[0], getarg(args, kw, 1, "axis"))
    if n == "item":
        s = I.sc(a) if not args else None
        if s is not None:
            return I.norm(Sc(s.p, s.k))
        return index(I, a, tuple(args))
    if n == "all":
        return np_all(I, "numpy", [a], {})
    if n == "any":
        return MODELS["np:any"](I, "numpy", [a], {})
    if n == "mean":
        return MODELS["np:mean"](I, "numpy", [a] + list(args), kw)
    if n == "prod":
        return MODELS["np:prod"](I, "numpy", [a], {})
    if n == "view":
        return a
    if n == "tolist":
        return I.newlist(I.list_items(a))
    if n == "setflags":
        return None
    if n in ("sort", "put", "resize", "itemset"):
        c = I.S.cells[a.cell]
        I.S.writes.append((a.cell, c.label, I.loc()))
        I.S.cells[a.cell] = c.with_body(fn("?" + n, ()))
        return None
    return Top("ndarray." + n)


def sc_attr(I, v, n):
    s = I.sc(v)
    if n in ("conj", "conjugate"):
        return PyFn(lambda I2, a, k: npconj(I2, v))
    if n == "real":
        return I.norm(Sc(_realpart(s.p), "f" if s.k == "c" else s.k))
    if n == "imag":
        return I.norm(Sc(_imagpart(s.p), "f" if s.k == "c" else s.k))
    if n == "shape":
        return ()
    if n == "ndim":
        return 0
    if n == "dtype":
        return DT(s.k)
    if n in ("item", "copy", "evalf", "simplify", "n"):
        return PyFn(lambda I2, a, k: v)
    if n == "sum":
        return PyFn(lambda I2, a, k: v)
    if n == "T":
        return v
    if n == "astype":
        return PyFn(lambda I2, a, k: cast_scalar(I2, todt(I2, a[0]), [v]))
    if n in ("is_integer",):
        return PyFn(lambda I2, a, k: I2.boolv(bgate("is_integer", (s.p,))))
    if n in ("subs", "diff", "integrate", "reshape", "fill", "transpose", "dot"):
        return PyFn(lambda I2, a, k: I2.undec("scalar method " + n))
    if n == "bit_length":
        return PyFn(lambda I2, a, k: I2.top_scalar("bit_length", "i"))
    I.raise_("AttributeError", f"number has no attribute {n}")


SETOPS = {"union": ("BitOr", False), "update": ("BitOr", True), "intersection": ("BitAnd", False), "intersection_update": ("BitAnd", True), "difference": ("Sub", False),
          "difference_update": ("Sub", True), "symmetric_difference": ("BitXor", False), "symmetric_difference_update": ("BitXor", True)}


def list_attr(I, v, n):
    L = I.S.lists

    def m(I2, a, k):
        l = I2.S.lists[v.id]
        if isinstance(v, SetR) and n in SETOPS:
            op, inplace = SETOPS[n]
            r = list(l)
            for x in a:
                r = I2.S.lists[I2.set_op(op, r, I2.list_items(x)).id]
            if inplace:
                l[:] = r
                I2.S.events.append(("listset", v.id, I2.loc()))
                return None
            return I2.newset(r)
        if isinstance(v, SetR) and n in ("issubset", "issuperset", "isdisjoint"):
            y = I2.list_items(a[0])
            if n == "isdisjoint":
                p = POLY1
                for x in l:
                    p = p * (POLY1 - I2.set_in(x, y))
            else:
                p = I2.subset(l, y) if n == "issubset" else I2.subset(y, l)
            return I2.boolv(I2.simp(p))
        if isinstance(v, SetR) and n in ("add", "discard", "remove"):
            c = I2.set_in(a[0], l).const()
            if c is None:
                I2.undec("set." + n)
            if n == "add":
                if c.iszero():
                    l.append(a[0])
            elif not c.iszero():
                l[:] = [x for x in l if I2.dup(a[0], x) is not True]
            elif n == "remove":
                I2.raise_("KeyError", "remove from a set")
            I2.S.events.append(("listset", v.id, I2.loc()))
            return None
        if n in ("append", "add"):
            l.append(a[0])
            I2.S.events.append(("listset", v.id, I2.loc()))
            return None
        if n in ("extend", "update"):
            l.extend(I2.list_items(a[0]))
            I2.S.events.append(("listset", v.id, I2.loc()))
            return None
        if n == "copy":
            return I2.newlist(l, type(v))
        if n == "pop":
            if any(isinstance(x, Seg) for x in l):
                I2.undec("pop")
            I2.S.events.append(("listset", v.id, I2.loc()))
            if not l:
                I2.raise_("IndexError", "pop from empty list")
            return l.pop(*[I2.norm(x) for x in a])
        if n == "insert":
            l.insert(I2.norm(a[0]), a[1])
            I2.S.events.append(("listset", v.id, I2.loc()))
            return None
        if n == "clear":
            del l[:]
            return None
        if n == "reverse":
            l.reverse()
            I2.S.events.append(("listset", v.id, I2.loc()))
            return None
        if n == "index":
            for j, x in enumerate(l):
                if I2.equal(x, a[0]) is True:
                    return j
            I2.undec("list.index")
        if n == "count":
            return sum(1 for x in l if I2.equal(x, a[0]) is True)
        I2.undec("list." + n)
    return PyFn(m, n)


def dict_attr(I, v, n):
    def m(I2, a, k):
        d = I2.S.dicts[v.id]
        if n == "get":
            ok, kk = I2.dfind(v, a[0])
            return d[kk] if ok else a[1] if len(a) > 1 else None
        if n == "items":
            return Iter(items=[(kk, x) for kk, x in d.items()])
        if n == "keys":
            return Iter(items=list(d))
        if n == "values":
            return Iter(items=list(d.values()))
        if n == "update":
            if a:
                if not isinstance(a[0], DictR):
                    I2.undec("dict.update")
                d.update(I2.S.dicts[a[0].id])
            d.update(k)
            return None
        if n == "copy":
            return I2.newdict(d)
        if n == "pop":
            kk = I2.dkey(a[0])
            if kk in d:
                return d.pop(kk)
            if len(a) > 1:
                return a[1]
            I2.raise_("KeyError", str(kk))
        if n == "popitem":
            if not d:
                I2.raise_("KeyError", "popitem(): dictionary is empty")
            return d.popitem()
        if n == "setdefault":
            ok, kk = I2.dfind(v, a[0])
            return d[kk] if ok else I2.dset(v, a[0], a[1] if len(a) > 1 else None)
        if n == "clear":
            d.clear()
            I2.unlog(v)
            return None
        I2.undec("dict." + n)
    return PyFn(m, n)


def str_attr(I, v, n):
    def m(I2, a, k):
        if n == "format":
            if isinstance(v, str):
                import string
                parts = []
                auto = 0
                for lit, field, spec, conv in string.Formatter().parse(v):
                    parts.append(lit)
                    if field is None:
                        continue
                    if field == "":
                        x = a[auto]
                        auto += 1
                    elif field.isdigit():
                        x = a[int(field)]
                    elif field in k:
                        x = k[field]
                    else:
                        x = Opq("fmt:" + field)
                    parts.append(I2.strpart(x, spec or ""))
                return I2.mkstr(parts)
            return I2.mkstr([("fmt", I2.vkey(v))] + [I2.strpart(x) for x in a])
        if n == "join":
            items = I2.list_items(a[0])
            if any(isinstance(x, Seg) for x in items):
                return SymStr([("fmt", "join")])
            parts = []
            for j, x in enumerate(items):
                if j:
                    parts.append(v)
                parts.append(x if isinstance(x, (str, SymStr)) else I2.strpart(x))
            return I2.mkstr(parts)
        if isinstance(v, str) and all(isinstance(x, str) or isinstance(x, int) for x in a) and hasattr(str, n):
            r = getattr(v, n)(*a)
            return I2.newlist(r) if isinstance(r, list) else r
        if n in ("endswith", "startswith"):
            p = v.parts[-1] if n == "endswith" else v.parts[0]
            if isinstance(p, str) and isinstance(a[0], str) and len(p) >= len(a[0]):
                return getattr(p, n)(a[0])
        if n == "replace" and isinstance(v, SymStr):
            return I2.mkstr([p.replace(a[0], a[1]) if isinstance(p, str) else p for p in v.parts])
        if n in ("lower", "upper", "strip"):
            return v
        return Top("str." + n)
    if not hasattr(str, n):
        if isinstance(v, SymStr) and n in ("hex", "int", "bytes", "urn"):
            return v
        I.raise_("AttributeError", f"str has no attribute {n}")
    return PyFn(m, n)


def getattr_ext(I, v, n):
    if v is None:
        I.raise_("AttributeError", f"NoneType object has no attribute {n}")
    if isinstance(v, ModelObj):
        return v.attr(I, n)
    if isinstance(v, Ext):
        if v.root in ARRAY_ROOTS and not v.path and n == "__name__":
            return v.root
        if v.full in ("numpy.random", "xp.random"):
            return Ext(v.root, "random." + n)
        if v.root == "builtins" and n == "__name__":
            return v.path
        return extconst(I, Ext(v.root, (v.path + "." if v.path else "") + n))
    if isinstance(v, Arr):
        return arr_attr(I, v, n)
    if isinstance(v, Masked):
        if n == "astype":
            return PyFn(lambda I2, a, k: Masked(v.shape, v.vars, v.mask, I2.cast_store(v.body, None, todt(I2, a[0]).k), todt(I2, a[0]).k))
        if n in ("conj", "conjugate"):
            return PyFn(lambda I2, a, k: npconj(I2, v))
        if n == "sum":
            return PyFn(lambda I2, a, k: npsum(I2, v))
        I.undec("mask selection attribute")
    if isinstance(v, ListR):
        return list_attr(I, v, n)
    if isinstance(v, DictR):
        return dict_attr(I, v, n)
    if isinstance(v, (str, SymStr)):
        return str_attr(I, v, n)
    if isinstance(v, Opq):
        h = I.intercepts.get("opaque-attr")
        if h is not None:
            r = h(I, v, n)
            if r is not NotImplemented:
                return r
        if v.key.startswith("pyscf"):
            return pyscf_attr(I, v, n)
        if v.key.startswith("rng:") and n in RANDOM:
            return PyFn(lambda I2, a, k: draw(I2, v.key[4:], n, a, k, "numpy", v.id), n)
        if v.shape is not None:
            return arr_attr(I, opq_array(I, v), n)
        if v.key.startswith("fd:") and n == "name":
            return SymStr([("fmt", v.key[3:])]) if "{" in v.key else v.key[3:]
        if v.key.startswith("fd:"):
            return Opq(v.key + "!" + n) if False else PyFn(lambda I2, a, k: None, n)
        o = Opq(f"{v.key}.{n}")
        return o
    if isinstance(v, tuple):
        if n == "index":
            return PyFn(lambda I2, a, k: next((j for j, x in enumerate(v) if I2.equal(x, a[0]) is True), None))
        if n == "count":
            return PyFn(lambda I2, a, k: sum(1 for x in v if I2.equal(x, a[0]) is True))
    if isinstance(v, SliceV):
        if n == "start":
            return v.a
        if n == "stop":
            return v.b
        if n == "step":
            return v.c
        if n == "indices":
            def ind(I2, a, k):
                st, ln, step = slice_parts(I2, v, I2.poly(a[0]))
                return tuple(I2.norm(Sc(p, "i")) for p in (st, st + ln * step, const(step)))
            return PyFn(ind)
    if isinstance(v, DT):
        if n in ("kind",):
            return {"b": "b", "i": "i", "f": "f", "c": "c"}[v.k]
        if n in ("type",):
            return v
        if n == "name":
            return {"b": "bool", "i": "int64", "f": "float64", "c": "complex128"}[v.k]
        if n == "char":
            return {"b": "?", "i": "l", "f": "d", "c": "D"}[v.k]
        if n == "__name__":
            return {"b": "bool_", "i": "int64", "f": "float64", "c": "complex128"}[v.k]
    if isinstance(v, (LeafFn, PyFn, Partial)):
        if n == "__name__":
            return getattr(v, "name", "partial")
        if n in ("func",) and isinstance(v, Partial):
            return v.fn
        I.raise_("AttributeError", n)
    if isinstance(v, Iter):
        I.undec("iterator attribute")
    if I.sc(v) is not None:
        return sc_attr(I, v, n)
    if v is Ellipsis:
        I.raise_("AttributeError", n)
    I.undec(f"attribute {n} of {v!r}")


def setattr_ext(I, v, n, val):
    if isinstance(v, Opq):
        if v.key.startswith("pyscf"):
            return pyscf_setattr(I, v, n, val)
        I.S.events.append(("opaque-set", f"{v.key}.{n}", I.loc(), freezeval(I, val)))
        return
    if v is None:
        I.raise_("AttributeError", f"NoneType object has no attribute {n}")
    if isinstance(v, Arr) and n in ("real", "imag"):
        if I.dt(v) != "c" and n == "imag":
            I.raise_("TypeError", "array does not have imaginary part to set")
        t, x = I.tmpl(v), I.tmpl(arr(I, val)) if I.sc(val) is None else None
        xs = I.poly(val) if x is None else None
        if x is not None and len(x.shape) != len(t.shape):
            I.undec("broadcast into real part")
        H = F(1, 2)

        def part(ix):
            z = I.at(t, ix)
            w = xs if x is None else I.at(x, ix)
            if n == "real":
                return w + (z - alg.conj(z)) * H
            return (z + alg.conj(z)) * H + w * alg.IUNIT
        return I.setitem(v, Ellipsis, I.mk(v.shape, part, I.dt(v)))
    if isinstance(v, Func):
        I.S.objs.setdefault(("func", v.name, id(v.node)), {})[n] = val
        return
    if isinstance(v, (int, float, str, tuple, Sc)):
        I.raise_("AttributeError", f"cannot set attribute {n}")
    I.undec(f"store to attribute {n} of {v!r}")


def getitem_ext(I, v, k):
    if isinstance(v, ModelObj):
        return v.item(I, k)
    if isinstance(v, Ext) and v.full == "os.environ":
        h = env_has(I, k)
        if h is False:
            I.raise_("KeyError", str(k))
        return I.env.get(k, Opq("env:" + str(k)))
    if isinstance(v, Opq):
        h = I.intercepts.get("opaque-item")
        if h is not None:
            r = h(I, v, k)
            if r is not NotImplemented:
                return r
        if v.shape is not None:
            return index(I, opq_array(I, v), k)
        return Opq(f"{v.key}[{I.vkey(k)}]")
    if isinstance(v, Ext) and v.full in ("numpy.r_", "numpy.c_", "numpy.s_"):
        if v.full == "numpy.s_":
            return k
        I.undec("np.r_")
    if isinstance(v, Masked):
        I.undec("index of mask selection")
    if isinstance(v, Iter):
        if v.items is not None:
            kk = I.norm(k)
            if isinstance(kk, int):
                return v.items[kk]
        else:
            return v.fn(I.poly(k))
    if I.sc(v) is not None:
        I.raise_("TypeError", "number is not subscriptable")
    I.undec(f"subscript of {v!r}")


def setitem_ext(I, v, k, val):
    if isinstance(v, ModelObj):
        return v.setitem(I, k, val)
    if isinstance(v, Opq):
        I.S.events.append(("opaque-item", f"{v.key}[{I.vkey(k)}]", I.loc(), freezeval(I, val), v.key, k))
        return
    if isinstance(v, Ext):
        I.S.events.append(("envset", v.full, I.loc()))
        return
    if I.sc(v) is not None:
        I.raise_("TypeError", "object does not support item assignment")
    I.undec(f"item store on {v!r}")


# ------------------------------------------------------------------ pyscf
# A molecule is a record of its settings; integrals are uninterpreted functions of those settings with the permutation
# symmetries of real orbitals; the position integrals depend on the gauge origin R as r - R*overlap.
def pyscf_new(I, kind, cfg):
    o = Opq(f"pyscf:{kind}#{fresh()}")
    I.S.objs[o.id] = dict(cfg)
    return o


def pyscf_cfg(I, o):
    return I.S.objs.setdefault(o.id, {})


PYSCF_DEFAULT = {"unit": "'angstrom'", "charge": "0", "cart": "False", "spin": "0", "symmetry": "False", "verbose": None, "output": None}


def molkey(I, cfg):
    c = {}
    for k, v in cfg.items():
        if k in ("verbose", "output", "max_memory") or k.startswith("@"):
            continue
        if k == "unit":
            v = v.lower()
            if v.strip("'") in ("b", "bohr", "au", "a.u."):
                v = "'bohr'"
        if PYSCF_DEFAULT.get(k) == v:
            continue
        c[k] = v
    return "{" + ",".join(f"{k}={c[k]}" for k in sorted(c)) + "}"


def pyscf_call(I, e, args, kw):
    n = e.path.split(".")[-1]
    if n in ("Mole",):
        return pyscf_new(I, "mol", {"@built": False})
    if n == "M":
        o = pyscf_new(I, "mol", {})
        pyscf_build(I, o, args, kw)
        return o
    if n in ("RHF", "HF", "UHF", "ROHF", "GHF"):
        mol = args[0] if args else kw.get("mol")
        return pyscf_new(I, "hf:" + n, {"@mol": mol})
    if n in ("get_hcore", "get_ovlp", "energy_nuc"):
        return pyscf_int(I, args[0] if args else kw.get("mol"), {"get_hcore": "hcore", "get_ovlp": "int1e_ovlp", "energy_nuc": "energy_nuc"}[n])
    if n == "restore" and len(args) >= 2 and args[0] in (1, "1", "s1") and not kw:
        v = args[1]
        if isinstance(v, Opq) and v.key.startswith("pyscf:packed"):
            return pyscf_int(I, pyscf_cfg(I, v)["@mol"], "int2e")
        if isinstance(v, Arr) and len(v.shape) == 4:
            return v
    I.unmodelled.add(e.full)
    return Top("?" + e.full)


def pyscf_build(I, o, args, kw):
    cfg = pyscf_cfg(I, o)
    names = ["dump_input", "parse_arg", "verbose", "output", "max_memory", "atom", "basis", "unit"]
    for nme, v in list(zip(names, args)) + list(kw.items()):
        if isinstance(nme, str) and nme not in ("dump_input", "parse_arg"):
            if v is None:
                continue
            cfg[nme] = I.vkey(v)
    for k in list(cfg):
        if k.startswith("late:"):
            cfg[k[5:]] = cfg.pop(k)
    cfg["@built"] = True


def nao(I, cfg):
    key = molkey(I, cfg)
    alg.SIZE_SYMS.add("nao" + key)
    return I.mol_nao or sym("nao" + key, integer=True, lo=1)


def nelectron(I, cfg):
    key = molkey(I, cfg)
    return I.mol_ne[key] if key in I.mol_ne else sym("nelectron" + key, integer=True, lo=1)


SYM2 = lambda a: [a, a[:-2] + (a[-1], a[-2])]
SYM8 = lambda a: [tuple(a[k] for k in o) for o in ((0, 1, 2, 3), (1, 0, 2, 3), (0, 1, 3, 2), (1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 0, 1), (2, 3, 1, 0), (3, 2, 1, 0))]


def symfn(name, images):
    alg.FN_IMAGES[name] = images
    alg.FN_REAL.add(name)
    return lambda ix: alg.fn(name, tuple(ix))


def pyscf_int(I, mol, name):
    if not isinstance(mol, Opq):
        return Top("pyscf integral of a non-molecule")
    cfg = pyscf_cfg(I, mol)
    if cfg.get("@built") is False:
        I.raise_("RuntimeError", "molecule used before build()")
    key = molkey(I, cfg)
    N = nao(I, cfg)
    I.S.events.append(("pyscf", name, I.loc()))
    one = lambda nm: symfn(nm + key, SYM2)
    if name == "energy_nuc":
        return Sc(sym("energy_nuc" + key), "f")
    if name in ("int1e_ovlp", "int1e_kin", "int1e_nuc"):
        return I.mk((N, N), one(name), "f")
    if name == "ECPscalar":
        return I.mk((N, N), one("ecp"), "f")
    if name == "hcore":
        f = [one(x) for x in ("int1e_kin", "int1e_nuc", "ecp")]
        return I.mk((N, N), lambda ix: f[0](ix) + f[1](ix) + f[2](ix), "f")
    if name == "int2e":
        return I.mk((N,) * 4, symfn(name + key, SYM8), "f")
    if name == "int1e_r":
        r, s, R = one("int1e_r"), one("int1e_ovlp"), cfg.get("@origin")
        if R is None:
            return I.mk((const(3), N, N), r, "f")
        return I.mk((const(3), N, N), lambda ix: r(ix) - R(ix[0]) * s(ix[1:]), "f")
    return Top("pyscf integral " + str(name))


def pyscf_attr(I, o, n):
    cfg = pyscf_cfg(I, o)
    kind = o.key.split(":", 1)[1]
    if kind.startswith("packed"):
        return Top("packed integrals")
    if kind.startswith("mol"):
        key = molkey(I, cfg)
        ne = nelectron(I, cfg)
        sp = sym("spin" + key, integer=True, lo=0)
        if n in ("nelectron",):
            return I.norm(Sc(ne, "i"))
        if n == "nelec":
            return (I.norm(Sc(alg.fdiv(ne + sp, P(2)), "i")), I.norm(Sc(alg.fdiv(ne - sp, P(2)), "i")))
        if n == "nao":
            return I.norm(Sc(nao(I, cfg), "i"))
        if n == "spin":
            return Sc(sp, "i")
        if n == "natm":
            alg.SIZE_SYMS.add("natm" + key)
            return Sc(sym("natm" + key, integer=True, lo=1), "i")
        if n in cfg:
            return Top("pyscf attribute " + n)
        return PyFn(lambda I2, a, k: mol_method(I2, o, n, a, k), n)
    # hf object
    mol = cfg.get("@mol")
    key = molkey(I, pyscf_cfg(I, mol))
    if n == "converged":
        if not cfg.get("@run"):
            return False
        return I.boolv(bgate("converged" + key))
    if n == "mo_coeff":
        if not cfg.get("@run"):
            return None
        nm = kind.split("#")[0] + ".mo_coeff" + key
        alg.LEAF_REAL[nm] = True
        N = nao(I, pyscf_cfg(I, mol))
        return I.mk((N, N), lambda ix: el(nm, ix), "f")
    if n == "mol":
        return mol
    if n in ("e_tot", "mo_energy", "mo_occ"):
        return Opq(f"hf.{n}" + key)
    if n in ("verbose", "conv_tol", "max_cycle"):
        return Opq("hf." + n)
    return PyFn(lambda I2, a, k: hf_method(I2, o, n, a, k), n)


def pyscf_setattr(I, o, n, val):
    cfg = pyscf_cfg(I, o)
    if o.key.startswith("pyscf:mol") and cfg.get("@built"):
        I.S.events.append(("pyscf-late", n, I.loc()))
        cfg["late:" + n] = I.vkey(val)      # without a rebuild, a late setting has no defined effect on the integrals
    else:
        cfg[n] = I.vkey(val)


def origin_of(I, v):
    v = I.call(Ext("numpy", "array"), [v], {}) if not isinstance(v, Arr) else v
    t = I.tmpl(v)
    return lambda i: subst(t.body, {t.vars[0]: i})


def mol_method(I, o, n, args, kw):
    cfg = pyscf_cfg(I, o)
    if n == "build":
        pyscf_build(I, o, args, kw)
        return o
    if n == "energy_nuc":
        return pyscf_int(I, o, "energy_nuc")
    if n in ("nao_nr", "nao_2c"):
        return pyscf_attr(I, o, "nao")
    if n == "tot_electrons":
        return pyscf_attr(I, o, "nelectron")
    if n in ("intor", "intor_symmetric", "intor_asymmetric"):
        nm = args[0] if args else kw.get("intor")
        kw = {k: v for k, v in kw.items() if not (k == "comp" and (v == 3) == (nm == "int1e_r"))}
        if kw and set(kw) - {"intor", "hermi", "aosym"}:
            return Top("intor options")
        if not isinstance(nm, str):
            return Top("intor name")
        if kw.get("aosym", "s1") != "s1":
            if nm == "int2e":
                return pyscf_new(I, "packed", {"@mol": o})
            return Top("intor options")
        for suf in ("_sph", "_cart"):
            if nm.endswith(suf):
                return Top("intor " + nm)
        return pyscf_int(I, o, nm)
    if n in ("set_common_orig_", "set_common_orig", "set_common_origin", "set_common_origin_"):
        cfg["@origin"] = origin_of(I, args[0])
        return o
    if n in ("with_common_orig", "with_common_origin"):
        R = origin_of(I, args[0])
        old = []

        def enter():
            c = pyscf_cfg(I, o)
            old.append(c.get("@origin"))
            c["@origin"] = R
            return o

        def leave():
            pyscf_cfg(I, o)["@origin"] = old.pop()
        v = Opq(f"ctx:{fresh()}")
        I.ctxs[v.key] = (enter, leave)
        return v
    if n in ("atom_charges", "atom_coords"):
        key = molkey(I, cfg)
        na = sym("natm" + key, integer=True, lo=1)
        alg.SIZE_SYMS.add("natm" + key)
        if args or kw:
            if n == "atom_coords" and str((list(args) + list(kw.values()))[0]).lower() in ("bohr", "b", "au"):
                pass
            else:
                return Top("pyscf Mole." + n)
        nm = n + key
        alg.LEAF_REAL[nm] = True
        return I.mk((na,) if n == "atom_charges" else (na, const(3)), lambda ix: el(nm, ix), "f")
    if n == "copy":
        o2 = pyscf_new(I, "mol", cfg)
        return o2
    return Top("pyscf Mole." + n)


def hf_method(I, o, n, args, kw):
    cfg = pyscf_cfg(I, o)
    if n in ("kernel", "run", "scf"):
        cfg["@run"] = True
        if args or kw:
            cfg["@opts"] = I.vkey(tuple(kw.items()))
        I.S.events.append(("hf-run", "", I.loc()))
        return o if n == "run" else Sc(sym("e_hf"), "f")
    if n == "get_hcore":
        return pyscf_int(I, args[0] if args else cfg["@mol"], "hcore")
    if n == "get_ovlp":
        return pyscf_int(I, args[0] if args else cfg["@mol"], "int1e_ovlp")
    if n == "energy_nuc":
        return pyscf_int(I, cfg["@mol"], "energy_nuc")
    return Top("pyscf HF." + n)


def pyscf_method(I, f, args, kw):
    return Top("pyscf object call")
