"""Abstract values and the abstract heap."""
import itertools
from fractions import Fraction as F

from . import alg
from .alg import Poly, P

_ids = itertools.count(1)


def fresh():
    return next(_ids)


class Undecided(Exception):
    """The analysis cannot decide this obligation (never an alarm)."""


class Raised(Exception):
    """The analysed program raises here."""

    def __init__(self, exc, msg="", loc=None, certain=True):
        self.exc, self.msg, self.loc, self.certain = exc, msg, loc, certain
        Exception.__init__(self, f"{exc}: {msg} @ {loc}")


class Sc:
    """scalar: exact value term and kind b < i < f < c"""
    __slots__ = ("p", "k")

    def __init__(self, p, k):
        self.p, self.k = p, k

    def __repr__(self):
        return f"Sc[{self.k}]({self.p})"


class Arr:
    """a view on a cell: element [vars] of the view is element [imap] of the cell"""
    __slots__ = ("cell", "shape", "vars", "imap")

    def __init__(self, cell, shape, vars, imap):
        self.cell, self.shape, self.vars, self.imap = cell, tuple(shape), tuple(vars), tuple(imap)

    def __repr__(self):
        return f"Arr#{self.cell}{list(self.shape)}"


class Cell:
    __slots__ = ("shape", "vars", "body", "dt", "mod", "label", "loc")

    def __init__(self, shape, vars, body, dt, mod="numpy", label=None, loc=None):
        self.shape, self.vars, self.body, self.dt, self.mod, self.label, self.loc = tuple(shape), tuple(vars), body, dt, mod, label, loc

    def with_body(self, body):
        return Cell(self.shape, self.vars, body, self.dt, self.mod, self.label, self.loc)


class ArrT:
    """immutable array template (element of a symbolic sequence)"""
    __slots__ = ("shape", "vars", "body", "dt", "mod")

    def __init__(self, shape, vars, body, dt, mod):
        self.shape, self.vars, self.body, self.dt, self.mod = shape, vars, body, dt, mod


class Masked:
    """result of boolean-mask indexing"""
    __slots__ = ("shape", "vars", "mask", "body", "dt")

    def __init__(self, shape, vars, mask, body, dt):
        self.shape, self.vars, self.mask, self.body, self.dt = shape, vars, mask, body, dt


class Obj:
    __slots__ = ("id", "cls")

    def __init__(self, id, cls):
        self.id, self.cls = id, cls

    def __repr__(self):
        return f"<{self.cls.name}#{self.id}>"

    def __eq__(self, o):
        return isinstance(o, Obj) and o.id == self.id

    def __hash__(self):
        return hash(("obj", self.id))


class ListR:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, ListR) and o.id == self.id

    def __hash__(self):
        return hash(("list", self.id))


class DictR:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, DictR) and o.id == self.id

    def __hash__(self):
        return hash(("dict", self.id))


class SetR(ListR):
    pass


class Seg:
    """part of a list holding `length` elements  template[var]"""
    __slots__ = ("length", "var", "value")

    def __init__(self, length, var, value):
        self.length, self.var, self.value = length, var, value


class SliceV:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Func:
    __slots__ = ("node", "mod", "defaults", "kwdefaults", "frames", "cls", "name", "cached", "id", "ctx")

    def __init__(self, node, mod, defaults, kwdefaults, frames, cls, name):
        self.node, self.mod, self.defaults, self.kwdefaults, self.frames, self.cls, self.name = node, mod, defaults, kwdefaults, frames, cls, name
        self.cached = None
        self.ctx = False
        self.id = fresh()

    def __repr__(self):
        return f"<function {self.name}>"


class Bound:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class Static:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ClassM:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class Prop:
    __slots__ = ("get", "set", "dele")

    def __init__(self, get, set=None, dele=None):
        self.get, self.set, self.dele = get, set, dele


class Cls:
    def __init__(self, name, mod, bases, ns, node):
        self.name, self.mod, self.bases, self.ns, self.node = name, mod, bases, ns, node
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, Cls)] + [[b for b in self.bases if isinstance(b, Cls)]]
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Undecided("inconsistent class hierarchy")
            res.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def find(self, name, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"<class {self.name}>"


class Super:
    __slots__ = ("cls", "obj", "mro")

    def __init__(self, cls, obj, mro):
        self.cls, self.obj, self.mro = cls, obj, mro


class Mod:
    """a module of the analysed package"""
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.frame = None


class Ext:
    """something from outside the package, by dotted path; root distinguishes array modules"""
    __slots__ = ("root", "path")

    def __init__(self, root, path=""):
        self.root, self.path = root, path

    @property
    def full(self):
        return self.root + ("." + self.path if self.path else "")

    def __repr__(self):
        return f"<ext {self.full}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.root == self.root and o.path == self.path

    def __hash__(self):
        return hash((self.root, self.path))


class NarrowK(str):
    """element kind held in fewer bits than the default of that kind"""
    __slots__ = ("narrow",)

    def __new__(cls, k, narrow):
        o = str.__new__(cls, k)
        o.narrow = narrow
        return o


class DT:
    """an array element type"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, DT) and o.k == self.k and getattr(o.k, "narrow", None) == getattr(self.k, "narrow", None)

    def __hash__(self):
        return hash(("DT", self.k))

    def __repr__(self):
        return f"dtype({self.k})"


class LeafFn:
    """an opaque callable supplied by the caller"""
    __slots__ = ("name", "shape", "real", "log")

    def __init__(self, name, shape=None, real=False):
        self.name, self.shape, self.real = name, shape, real
        alg.FN_REAL.add(name) if real else None


class Opq:
    """an opaque external object: identified by a structural key"""
    __slots__ = ("key", "shape", "dt", "id")

    def __init__(self, key, shape=None, dt="c"):
        self.key, self.shape, self.dt = key, shape, dt
        self.id = fresh()

    def __repr__(self):
        return f"<opaque {self.key}>"


class Top:
    """unknown value"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<unknown: {self.why}>"


class SymStr:
    """a string with symbolic parts"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def key(self):
        return "".join(p if isinstance(p, str) else "{" + p[1] + "}" for p in self.parts)

    def __eq__(self, o):
        return isinstance(o, SymStr) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "f" + repr(self.key())


class Partial:
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class ModelObj:
    """an external object whose behaviour the analysis models (see frames.py)"""
    __slots__ = ()

    def attr(self, I, name):
        return Top(f"{type(self).__name__}.{name}")

    def item(self, I, k):
        return Top(f"{type(self).__name__}[]")

    def setitem(self, I, k, v):
        I.undec(f"store into {type(self).__name__}")

    def setattr(self, I, name, v):
        I.undec(f"store into {type(self).__name__}.{name}")

    def iterate(self, I):
        I.undec(f"iteration over {type(self).__name__}")

    def copy(self):
        return self


class GenR(ModelObj):
    """a generator object: the listed values, once"""
    __slots__ = ("list", "id")

    def __init__(self, lst):
        self.list, self.id = lst, fresh()

    def iterate(self, I):
        d = I.S.objs.setdefault(("gen", self.id), {})
        if d.get("used"):
            return Iter(items=[])
        d["used"] = True
        return I.iterate(self.list)


class CtxR(ModelObj):
    """call of a @contextmanager function"""
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class PyFn:
    """a callable implemented by the analysis"""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name="<builtin>"):
        self.fn, self.name = fn, name


class Iter:
    """an iterable: either a list of values or (length, fn)"""
    __slots__ = ("items", "length", "fn", "par")

    def __init__(self, items=None, length=None, fn=None, par=False):
        self.items, self.length, self.fn, self.par = items, length, fn, par


class Dicts(dict):
    """contents of dictionaries; the dictionary of an object's attributes is the object's own"""

    def __init__(self, objs, items=()):
        dict.__init__(self, items)
        self.objs = objs

    def __missing__(self, k):
        if isinstance(k, tuple) and k[0] == "vars":
            return self.objs[k[1]]
        raise KeyError(k)


class State:
    def __init__(self):
        self.cells, self.objs, self.lists, self.frames = {}, {}, {}, {}
        self.dicts = Dicts(self.objs)
        self.writes = []      # (cell id, label, loc)
        self.attrs = []       # (obj id, attr, loc)
        self.events = []      # (kind, payload, loc)
        self.craises = []     # (gate Poly, Raised)

    def snap(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.lists = {k: list(v) for k, v in self.lists.items()}
        s.dicts = Dicts(s.objs, {k: dict(v) for k, v in self.dicts.items()})
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.writes = list(self.writes)
        s.attrs = list(self.attrs)
        s.events = list(self.events)
        s.craises = list(self.craises)
        return s


KIND = {"b": 0, "i": 1, "f": 2, "c": 3}


def kjoin(*ks):
    return max(ks, key=lambda k: KIND.get(k, 3))
