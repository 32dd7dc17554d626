"""Model of the pandas operations the package uses: tables of rows addressed by position.

A Frame is a list of base rows (column values per row number), a reordering recorded by its sort keys, and
per-column element functions; columns derived by operations outside the model are uninterpreted functions of
the row number."""
from . import alg
from .alg import P, Poly, fn, eq0, ZERO
from .values import *


class Cols:
    """ordered row selector: a row restricted to columns"""


class Row(ModelObj):
    __slots__ = ("frame", "p", "cols")

    def __init__(self, frame, p, cols):
        self.frame, self.p, self.cols = frame, p, cols

    def vals(self, I):
        return [self.frame.cell(I, c, self.p) for c in self.cols]

    def attr(self, I, name):
        if name in ("values", "array"):
            return I.call(Ext("numpy", "array"), [I.newlist(self.vals(I))], {})
        if name in ("to_numpy", "tolist", "to_list"):
            return PyFn(lambda I2, a, k: self.attr(I2, "values") if name == "to_numpy" else I2.newlist(self.vals(I2)))
        if name == "astype":
            return PyFn(lambda I2, a, k: self)
        if name in self.cols:
            return self.frame.cell(I, name, self.p)
        return Top(f"row.{name}")

    def item(self, I, k):
        if isinstance(k, str):
            if k not in self.cols:
                I.raise_("KeyError", k)
            return self.frame.cell(I, k, self.p)
        if isinstance(k, int):
            return self.vals(I)[k]
        return Top("row[]")

    def iterate(self, I):
        return Iter(items=self.vals(I))


class Indexer(ModelObj):
    __slots__ = ("frame", "kind")

    def __init__(self, frame, kind):
        self.frame, self.kind = frame, kind

    def item(self, I, k):
        f = self.frame
        col = None
        if isinstance(k, tuple):
            if len(k) != 2:
                return Top("frame index")
            k, col = k
        if isinstance(k, SliceV):
            if col is None and k.a is None and k.c is None and self.kind == "iloc":
                return f.head(I, k.b)
            return Top("frame slice")
        if I.sc(k) is None:
            return Top("frame row selector")
        p = I.poly(k)
        if f.order is not None and self.kind in ("loc", "at") and not f.reset:
            return Top("label based access to reordered rows")
        if col is None:
            return Row(f, p, tuple(f.cols(I)))
        if isinstance(col, str):
            return f.cell(I, col, p)
        if isinstance(col, (ListR, tuple)):
            cs = I.list_items(col)
            if all(isinstance(c, str) for c in cs):
                for c in cs:
                    f.cell(I, c, p)
                return Row(f, p, tuple(cs))
        return Top("frame column selector")

    def setitem(self, I, k, v):
        f = self.frame
        if not isinstance(k, tuple) or len(k) != 2 or not isinstance(k[1], str):
            I.undec("frame store")
        k, col = k
        k = I.norm(k) if isinstance(k, Sc) else k
        if isinstance(k, int) and not f.derived and f.order is None:
            f.rows.setdefault(k, {})[col] = v
            return
        f.forget(col)


class Series(ModelObj):
    """a column"""
    __slots__ = ("frame", "col", "note")

    def __init__(self, frame, col, note=""):
        self.frame, self.col, self.note = frame, col, note

    def attr(self, I, name):
        if name in ("astype", "copy") and not self.note:
            return PyFn(lambda I2, a, k: self)
        if name == "unique":
            return PyFn(lambda I2, a, k: I2.newlist([Sc(fn(f"series:{self.col}.unique", ()), "f")]))
        if name in ("values", "array"):
            return self.asarray(I)
        if name == "to_numpy":
            return PyFn(lambda I2, a, k: self.asarray(I2))
        return PyFn(lambda I2, a, k: Series(self.frame, self.col, self.note + "." + name))

    def asarray(self, I):
        n = self.frame.length(I)
        if self.note or n is None:
            return Top("series values")
        return I.mk((n,), lambda ix: I.poly(self.frame.cell(I, self.col, ix[0])), "f")

    def item(self, I, k):
        if self.note or I.sc(k) is None:
            return Top("series item")
        return self.frame.cell(I, self.col, I.poly(k))


class Frame(ModelObj):
    __slots__ = ("rows", "order", "derived", "fns", "n", "reset", "uid")

    def __init__(self, rows=None, order=None, derived=None, fns=None, n=None, reset=True):
        self.rows = rows if rows is not None else {}
        self.order, self.derived, self.fns, self.n, self.reset = order, dict(derived or {}), fns, n, reset
        self.uid = fresh()

    def copy(self):
        return Frame({k: dict(v) for k, v in self.rows.items()}, self.order, self.derived, self.fns, self.n, self.reset)

    def cols(self, I):
        if self.fns is not None:
            return list(self.fns)
        cs = []
        for r in self.rows.values():
            for c in r:
                if c not in cs:
                    cs.append(c)
        return cs + [c for c in self.derived if c not in cs]

    def length(self, I):
        if self.n is not None:
            return self.n
        return P(len(self.rows))

    def forget(self, col):
        self.derived[col] = f"{col}#{fresh()}"

    def perm(self, p):
        """number of the base row at position p"""
        if self.order is None:
            return p
        alg.FN_INT.add("rank")
        alg.FN_REAL.add("rank")
        return fn("rank", (p,))

    def cell(self, I, col, p):
        if self.fns is not None:
            if col not in self.fns:
                I.raise_("KeyError", col)
            return self.fns[col](p)
        if col in self.derived:
            alg.FN_INT.add("col:" + self.derived[col])
            alg.FN_REAL.add("col:" + self.derived[col])
            return Sc(fn("col:" + self.derived[col], (p,)), "i")
        if not any(col in r for r in self.rows.values()):
            I.raise_("KeyError", col)
        q = self.perm(p)
        tot, kind = ZERO, "b"
        for i, r in self.rows.items():
            s = I.sc(r.get(col))
            if s is None:
                return Top(f"cell {col}")
            tot = tot + eq0(q - i) * s.p
            kind = kjoin(kind, s.k)
        return I.norm(Sc(tot, kind))

    def head(self, I, k):
        if k is None:
            return self.copy()
        f = self.copy()
        f.n = I.poly(k)
        return f

    def attr(self, I, name):
        if name in ("loc", "iloc", "at", "iat"):
            return Indexer(self, name)
        if name in ("copy", "infer_objects", "convert_dtypes"):
            return PyFn(lambda I2, a, k: self.copy())
        if name == "sort_values":
            return PyFn(self.sort)
        if name == "reset_index":
            def reset(I2, a, k):
                f = self.copy()
                f.reset = True
                if k.get("drop") is not True:
                    f.derived["index"] = f"index#{fresh()}"
                return f
            return PyFn(reset)
        if name == "drop":
            def drop(I2, a, k):
                f = self.copy()
                cs = a[0] if a else k.get("columns")
                cs = [cs] if isinstance(cs, str) else I2.list_items(cs)
                if k.get("axis") not in (1, "columns") and "columns" not in k:
                    return Top("drop rows")
                for c in cs:
                    if not isinstance(c, str):
                        return Top("drop")
                    f.derived.pop(c, None)
                    for r in f.rows.values():
                        r.pop(c, None)
                return f
            return PyFn(drop)
        if name == "head":
            return PyFn(lambda I2, a, k: self.head(I2, a[0] if a else 5))
        if name in ("values", "index", "shape", "columns", "astype"):
            return Top(f"frame.{name}")
        if name in self.cols(I):
            return Series(self, name)
        return Top(f"frame.{name}")

    def sort(self, I, a, kw):
        by = a[0] if a else kw.get("by")
        by = (by,) if isinstance(by, str) else tuple(I.list_items(by))
        asc = kw.get("ascending", True)
        if not isinstance(asc, bool):
            asc = tuple(I.list_items(asc)) if isinstance(asc, (ListR, tuple)) else None
            if asc is None:
                return Top("sort order")
            asc = tuple(bool(x) for x in asc)
        else:
            asc = (asc,) * len(by)
        if any(k not in ("by", "ascending", "ignore_index", "kind", "inplace") for k in kw) or kw.get("inplace"):
            return Top("sort options")
        if self.order is not None or self.derived or not all(isinstance(c, str) for c in by):
            return Top("repeated sort")
        f = self.copy()
        f.order = tuple(zip(by, asc))
        f.reset = kw.get("ignore_index") is True
        return f

    def item(self, I, k):
        if isinstance(k, str):
            if k not in self.cols(I):
                I.raise_("KeyError", k)
            return Series(self, k)
        return Top("frame[]")

    def setitem(self, I, k, v):
        if not isinstance(k, str):
            I.undec("frame store")
        if isinstance(v, Series) and v.col == k and v.frame is self and not v.note:
            return
        if isinstance(v, Series) or isinstance(v, (int, Sc, Top, Arr)):
            for r in self.rows.values():
                r.pop(k, None)
            self.forget(k)
            return
        I.undec("frame column store")


def frame_new(I, args, kw):
    if not args and not kw:
        return Frame()
    if len(args) == 1 and isinstance(args[0], DictR) and not kw or not args and isinstance(kw.get("data"), DictR) and len(kw) == 1:
        d = I.S.dicts[(args[0] if args else kw["data"]).id]
        f = Frame()
        for c, v in d.items():
            it = I.iterate(v)
            if it.items is None or not isinstance(c, str):
                return Top("frame data")
            for k, x in enumerate(it.items):
                f.rows.setdefault(k, {})[c] = x
        return f
    return Top("pandas.DataFrame form")
