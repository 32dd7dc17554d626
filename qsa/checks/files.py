"""Disk cache, sample collectors."""
from . import check
from .core import *
from .systems import *
from ..alg import conj, fn, bgate, power

TH = "quantum_dots.two_dim.two_dim_helper."
FILE_EVENTS = ("load", "open", "save", "mkdir", "rename", "remove", "exists")
ENV = "QS_CACHE_TDHO"


def numbering(p):
    """quantum numbers of orbital p: shells of equal energy, by increasing m"""
    k = 0
    while (k + 1) * (k + 2) // 2 <= p:
        k += 1
    m = -k + 2 * (p - k * (k + 1) // 2)
    return (k - abs(m)) // 2, m


def coulomb_tables(S, interpret=True):
    """Coulomb integral and orbital numbering as uninterpreted functions; everything between them and the caller is analysed"""
    I = S.I
    alg.FN_INT.update(("qn_n", "qn_m"))
    alg.FN_SIGNED.add("qn_m")
    alg.FN_REAL.update(("qn_n", "qn_m", "coulomb_ho"))

    def nm(I_, bound):
        p = I_.poly(list(bound.values())[0])
        if interpret and p.as_int() is not None and p.as_int() >= 0:
            return numbering(p.as_int())
        return (I_.norm(Sc(fn("qn_n", (p,)), "i")), I_.norm(Sc(fn("qn_m", (p,)), "i")))

    def coul(I_, bound):
        return Sc(coulomb_int([I_.poly(x) for x in bound.values()]), "f")
    I.intercepts[Q + TH + "get_indices_nm"] = nm
    I.intercepts[Q + "quantum_dots.two_dim.coulomb_elements.coulomb_ho"] = coul


@check("C19", "abstract file system and typestate of the cache file: over histories of requests, the returned elements equal the uncached term; with caching off no file event; "
              "the path a later run loads is only ever produced by renaming a completely written and closed file")
def c19(K):
    K.require(TH + "get_coulomb_elements")
    where = lambda S: anchor(S, TH + "get_coulomb_elements")

    def ask(S, n, env, **kw):
        S.I.env[ENV] = env
        m = len(S.I.S.events)
        r = S.I.call(S.I.get(Q + TH + "get_coulomb_elements"), [S.v(P(n))], kw)
        return r, S.I.S.events[m:]

    def value(S, name, r, n, want):
        S.eq(name, r, (P(n),) * 4, want, loc=where(S))

    def plain(S, n):
        """what is computed with caching off"""
        r, ev = ask(S, n, None)
        if not isinstance(r, Arr):
            raise Undecided(f"elements computed without caching: {r!r}")
        return S.el(r), r, ev

    def off(S):
        coulomb_tables(S)
        S.I.vfs = {}
        f, r, ev = plain(S, S.l)
        bad = [e for e in ev if e[0] in FILE_EVENTS and e[0] != "exists"]
        S.true("no file is read or written with caching off", not bad, f"{[e[:2] for e in bad]}", bad[0][2] if bad else None)
        f2, r2, _ = plain(S, S.l)
        value(S, "a repeated request gives the same elements", r2, S.l, f)
        S.true("each request returns its own array", not isinstance(r2, Arr) or r.cell != r2.cell, "the same array object is handed out twice", where(S))
        # a stale cache file must not be consulted
        r3, ev = ask(S, S.l, "1")
        r4, ev = ask(S, S.l, None)
        bad = [e for e in ev if e[0] in ("load", "open")]
        S.true("an existing cache file is ignored with caching off", not bad, f"{[e[:2] for e in bad]}", bad[0][2] if bad else None)
        value(S, "elements with caching off after caching was used", r4, S.l, f)
    K.run("caching off", off)

    def history(sizes, verbose=False, summarise=False):
        def f(S):
            coulomb_tables(S)
            if summarise:
                S.I.range_unroll = 1
            S.I.vfs = {}
            got = []
            for k, n in enumerate(sizes):
                w, _, _ = plain(S, n)
                r, ev = ask(S, n, "1", **({"verbose": True} if verbose else {}))
                value(S, f"request {k + 1} (num_orbitals={short(P(n))})", r, n, w)
                S.true(f"request {k + 1} returns its own array", not isinstance(r, Arr) or all(r.cell != c for c in got), "an array handed out before is returned again", where(S))
                if isinstance(r, Arr):
                    got.append(r.cell)
        return f
    K.run("first and second request", lambda S: history((S.l, S.l))(S))
    K.run("first and second request, verbose", lambda S: history((S.l, S.l), True)(S))
    K.run("requests for different sizes", lambda S: history((S.l, S.l + 1, S.l, S.l + 1))(S))
    for a, b in ((2, 3), (3, 12), (9, 10), (11, 111), (100, 1000), (20, 21), (36, 37), (6, 106)):
        K.run(f"requests for {a}, {b} and {a} orbitals", history((P(a), P(b), P(a)), summarise=True), concrete=())

    def users_array(S):
        """a caller changing its elements does not change what later requests return"""
        coulomb_tables(S)
        S.I.vfs = {}
        w, _, _ = plain(S, S.l)
        r, ev = ask(S, S.l, "1")
        if isinstance(r, Arr):
            S.I.setitem(r, (0, 0, 0, 0), Sc(sym("changed"), "f"))
        r2, ev2 = ask(S, S.l, "1")
        value(S, "request after the caller changed its array", r2, S.l, w)
        for e in ev + ev2:
            if e[0] == "loadopts":
                S.true("loaded elements are not a writable view of the cache file", "r+" not in e[1] and "w+" not in e[1], e[1], e[2])
    K.run("caller changes the elements it received", users_array)

    def crash(S):
        coulomb_tables(S)
        S.I.vfs = {}
        r, ev = ask(S, S.l, "1")
        r2, ev2 = ask(S, S.l, "1")
        looked = {e[1] for e in ev2 if e[0] in ("exists", "load", "open")}
        if not looked:
            S.unknown("interrupted store", "the cache is not looked up by name")
            return
        opened = {}
        n = 0
        for e in ev:
            if e[0] == "save":
                k = e[1]
                path = k[3:] if k.startswith("fd:") else k
                if path in looked:
                    S.true("cache entry appears only when complete", False, f"{path} is written in place; a run killed meanwhile leaves a partial entry", e[2])
                n += 1
                if e[3] is None and not k.startswith("fd:"):
                    opened[path] = True
            elif e[0] == "close":
                opened.pop(e[1], None)
            elif e[0] == "rename" and e[3] in looked:
                S.true("cache entry is complete when it gets its name", e[1] not in opened, f"{e[1]} is renamed before it is closed", e[2])
                n += 1
        S.true("store analysed", True, f"{n} file writes")
    K.run("interrupted store", crash)

    def through(S):
        """the oscillator basis built with caching equals the one built without"""
        coulomb_tables(S)
        S.I.vfs = {}
        out = []
        for env in (None, "1", "1"):
            S.I.env[ENV] = env
            b = S.new("TwoDimensionalHarmonicOscillator", S.l, S.par("Rmax", lo=0), S.G, omega=S.par("omega", 0))
            out.append(S.get(b, "u"))
        f = S.el(out[0])
        S.eq("u when the cache is filled", out[1], (S.l,) * 4, f)
        S.eq("u when the cache is read", out[2], (S.l,) * 4, f)
    K.run("TwoDimensionalHarmonicOscillator with and without caching", through)


@check("C20", "value-flow of the Coulomb tensor's loop nests with uninterpreted numbering and integral: entry [p,q,r,s] is the integral of the quantum numbers of p, q, r, s; "
              "dependence analysis of every parallel loop: no two iterations write one shared element with different values and none reads what another leaves behind")
def c20(K):
    K.require(TH + "get_coulomb_elements", "TwoDimensionalHarmonicOscillator", "TwoDimHarmonicOscB")
    where = lambda S, n: anchor(S, TH + n)
    from .dots import bstubs, bqn, stubbed
    qn = lambda p: (fn("qn_n", (p,)), fn("qn_m", (p,)))

    def free(S, threads=None):
        if threads:
            S.I.nthreads = threads
        coulomb_tables(S, False)
        S.I.vfs = {}
        S.I.env[ENV] = None
        n = len(S.I.par)
        u = S.I.call(S.I.get(Q + TH + "get_coulomb_elements"), [S.v(S.l)], {})
        if not stubbed(S, "coulomb_ho"):
            return S.unknown("entries", "the Coulomb integral function is not called")
        S.eq("entry [p,q,r,s] is the integral of orbitals p, q, r, s", u, (S.l,) * 4, lambda p, q, r, s: coulomb_int(qn(p) + qn(q) + qn(r) + qn(s)), loc=where(S, "get_coulomb_elements"))
        races(S, S.I.par[n:])
        if getattr(S.I, "threads_read", False):
            uses.append(1)

    def races(S, loops):
        for k, info in enumerate(loops):
            loc = info["loc"]
            for r in info.get("races", []):
                S.true(f"parallel loop {k + 1} is free of races", False, r, loc)
            for p, i, j in info.get("overlaps", []):
                S.unknown(f"parallel loop {k + 1}: overlapping writes agree", "iterations write overlapping elements")
            S.true(f"parallel loop {k + 1} is free of races", True, "iterations write disjoint elements and carry nothing over")
    uses = []
    K.run("field-free tensor", free)
    if uses or K.mentions("get_num_threads", "cpu_count"):
        for t in (1, 2, 3, 5):
            K.run(f"field-free tensor computed by {t} threads", lambda S, t=t: free(S, t))

    def field(S):
        bstubs(S)
        I = S.I
        df = I.intercepts[Q + TH + "construct_dataframe"](I, {"omega": Sc(sym("omega", lo=0), "f"), "omega_c": Sc(sym("omega_c"), "f")})
        u = I.call(I.get(Q + TH + "get_coulomb_elements_B"), [S.v(S.l), df], {})
        if not stubbed(S, "coulomb_ho"):
            return S.unknown("entries", "the Coulomb integral function is not called")
        S.eq("entry [p,q,r,s] is the integral of states p, q, r, s of the table", u, (S.l,) * 4,
             lambda p, q, r, s: coulomb_int(bqn(p) + bqn(q) + bqn(r) + bqn(s)), loc=where(S, "get_coulomb_elements_B"))
        races(S, S.I.par)
    if K.has(TH + "get_coulomb_elements_B"):
        K.run("magnetic-field tensor", field)

    def bases(cls):
        def f(S):
            bstubs(S) if cls == "TwoDimHarmonicOscB" else coulomb_tables(S, False)
            S.I.vfs = {}
            S.I.env[ENV] = None
            b = S.new(cls, S.l, S.par("Rmax", lo=0), S.G, omega=S.par("omega", 0), **({"omega_c": S.par("omega_c")} if cls.endswith("B") else {}))
            if not stubbed(S, "coulomb_ho"):
                return S.unknown("u", "the Coulomb integral function is not called")
            q_ = bqn if cls.endswith("B") else qn
            w = sym("omega", lo=0)
            if cls.endswith("B"):
                w = power(w ** 2 + sym("omega_c") ** 2 * F(1, 4), F(1, 2))
            S.eq("u", S.get(b, "u"), (S.l,) * 4, lambda p, q, r, s: power(w, F(1, 2)) * coulomb_int(q_(p) + q_(q) + q_(r) + q_(s)), obj=b, attr="u")
        return f
    for cls in ("TwoDimensionalHarmonicOscillator", "TwoDimHarmonicOscB"):
        K.run(cls, bases(cls))


# ------------------------------------------------------------------ C23
CLIENT = '''
from quantum_systems.sampler import SampleCollector, Sampler


class Rec(Sampler):
    def __init__(self, name, log, new):
        self.name, self.log, self.new = name, log, new

    def sample(self, step):
        self.log.append((self.name, step))

    def dump(self, samples):
        self.log.append((self.name, [k for k in samples]))
        if self.new:
            samples = dict(samples)
        samples[self.name] = self.name + " data"
        return samples


class Real(Sampler):
    def sample(self, step):
        return (self.solver, self.system, self.num_samples, step)

    def dump(self, samples):
        return samples


class Mine(SampleCollector):
    pass


class Deep(Mine):
    def __init__(self, samplers, np):
        super().__init__(samplers, np)


class Bag:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


def once(xs):
    for x in xs:
        yield x


def collector(cls, form, names, new, log, np):
    xs = [Rec(n, log, new) for n in names]
    if form == "tuple":
        xs = tuple(xs)
    elif form == "set":
        xs = set(xs)
    elif form == "generator":
        xs = once(xs)
    elif form == "iterable":
        xs = Bag(xs)
    elif form == "dict values":
        xs = {x.name: x for x in xs}.values()
    elif form == "map":
        xs = map(lambda x: x, xs)
    if cls == "Mine":
        return Mine(xs, np)
    if cls == "Deep":
        return Deep(xs, np)
    return SampleCollector(xs, np)
'''


@check("C23", "client programs analysed together with the collectors (abstract file system with directories): over histories of sample, add and dump calls the order of calls, "
              "the threaded dictionary and the file events equal the specified ones")
def c23(K):
    K.require("sampler.SampleCollector.sample", "sampler.SampleCollector.dump", "sampler.SampleCollector.add_sample", "sampler.SampleCollector.get_samples", "sampler.Sampler")
    K.client("_client", CLIENT)
    K.cross = False         # a directory made by another scenario's dump changes what exist_ok=False does
    FORMS = ("list", "tuple", "set", "generator", "iterable", "dict values", "map")
    where = lambda S, m: anchor(S, "sampler.SampleCollector." + m)

    def mk(S, form, names, cls="Mine", new=False):
        S.I.vfs = {}
        S.I.vdirs = {"old"}
        log = S.I.newlist([])
        c = S.I.call(S.I.get(Q + "_client.collector"), [cls, form, S.I.newlist(list(names)), new, log, NP], {})
        return c, log

    def entries(S, log):
        return list(S.I.S.lists[log.id])

    def val(S, v):
        if isinstance(v, ListR):
            return [val(S, x) for x in S.I.S.lists[v.id]]
        return v

    def content(S, d):
        return dict(S.I.S.dicts[d.id]) if isinstance(d, DictR) else None

    def files(S):
        return [e for e in S.I.S.events if e[0] in FILE_EVENTS and e[0] != "exists"]

    def sample(form, names, cls="Mine"):
        def f(S):
            c, log = mk(S, form, names, cls)
            steps = [Sc(sym("t1"), "f"), Sc(sym("t2"), "f"), 7, Sc(sym("t1"), "f")]
            for s in steps:
                S.call(c, "sample", s)
            got = entries(S, log)
            want = [(n, s) for s in steps for n in names]
            ok = len(got) == len(want) and all(a[0] == b[0] and S.I.vkey(a[1]) == S.I.vkey(b[1]) for a, b in zip(got, want))
            if form == "set" and not ok:
                ok = len(got) == len(want) and sorted((a[0], S.I.vkey(a[1])) for a in got) == sorted((a[0], S.I.vkey(a[1])) for a in want)
            S.true("every sampler gets every step once, in order", ok, f"calls {[(a[0], S.I.vkey(a[1])) for a in got][:8]}", where(S, "sample"))
            S.true("sampling writes no file", not files(S), f"{[e[:2] for e in files(S)]}", where(S, "sample"))
            S.true("samples are empty before the first dump", content(S, S.call(c, "get_samples")) == {}, f"{S.call(c, 'get_samples')!r}", where(S, "get_samples"))
        return f
    for form in FORMS:
        K.run(f"sampling, samplers as {form}", sample(form, ("a", "b", "c")), concrete=())
    K.run("sampling, no samplers", sample("list", ()), concrete=())
    K.run("sampling, one sampler", sample("generator", ("a",), "SampleCollector"), concrete=())

    def dumped(S, c, log, names, kw, before, what="", form=None):
        """one dump: the dictionary threads through every sampler"""
        n0 = len(entries(S, log))
        r = S.call(c, "dump", **kw)
        got = entries(S, log)[n0:]
        if form == "set" and sorted(g[0] for g in got) == sorted(names):
            names = [g[0] for g in got]
        keys = list(before)
        ok = len(got) == len(names)
        for g, n in zip(got, names):
            ok = ok and g[0] == n and sorted(val(S, g[1])) == sorted(keys)
            if n not in keys:
                keys.append(n)
        S.true(what + "every sampler is handed the dictionary of the ones before it", ok, f"calls {[(g[0], val(S, g[1])) for g in got][:6]}", where(S, "dump"))
        want = dict(before)
        want.update({n: n + " data" for n in names})
        d = content(S, r)
        S.true(what + "dump returns the complete dictionary", d is not None and same(S, d, want), f"returned {d if d is not None else r!r}", where(S, "dump"))
        g = content(S, S.call(c, "get_samples"))
        S.true(what + "get_samples gives the dumped dictionary", g is not None and same(S, g, want), f"gives {g}", where(S, "get_samples"))
        return want

    def same(S, a, b):
        return set(a) == set(b) and all(S.I.vkey(a[k]) == S.I.vkey(b[k]) for k in a)

    def saved(S, m, path, want, what=""):
        ev = S.I.S.events[m:]
        w = [e for e in ev if e[0] == "save"]
        if path is None:
            bad = [e for e in ev if e[0] in FILE_EVENTS and e[0] != "exists"]
            S.true(what + "no file is written or directory created unless asked", not bad, f"{[e[:2] for e in bad]}", bad[0][2] if bad else None)
            return
        have = [k for k in S.I.vfs if k not in S.keepfiles]
        S.true(what + "the dictionary is written to the requested file", have == [path], f"files written: {have}, requested {path}", w[-1][2] if w else where(S, "dump"))
        if have == [path]:
            c = S.I.vfs[path]
            ok = isinstance(c, tuple) and c[:1] == ("dict",) and same(S, c[2], want)
            if c is None or isinstance(c, Top):
                S.unknown(what + "the file holds the complete dictionary", "content not modelled")
            else:
                S.true(what + "the file holds the complete dictionary", ok, f"holds {c[2] if isinstance(c, tuple) else c!r}", w[-1][2] if w else where(S, "dump"))

    def dump(form, names, kw, path, cls="Mine", new=False, pre=()):
        def f(S):
            c, log = mk(S, form, names, cls, new)
            S.keepfiles = []
            before = {}
            for k in pre:
                S.call(c, "add_sample", k, k + " sample")
                before[k] = k + " sample"
            S.call(c, "sample", 1)
            m = len(S.I.S.events)
            want = dumped(S, c, log, names, kw, before, form=form)
            saved(S, m, path, want)
        return f
    names = ("a", "b", "c")
    for form in FORMS:
        K.run(f"dump, samplers as {form}", dump(form, names, {}, "dump/tmp_Mine.samples.npy"), concrete=())
    K.run("dump, samplers returning new dictionaries", dump("list", names, {}, "dump/tmp_Mine.samples.npy", new=True, pre=("x", "y")), concrete=())
    K.run("dump, derived class", dump("list", names, {}, "dump/tmp_Deep.samples.npy", cls="Deep"), concrete=())
    K.run("dump, base class", dump("list", names, {}, "dump/tmp_SampleCollector.samples.npy", cls="SampleCollector"), concrete=())
    K.run("dump, added samples", dump("list", names, {}, "dump/tmp_Mine.samples.npy", pre=("x", "a")), concrete=())
    K.run("dump, no samplers", dump("list", (), {}, "dump/tmp_Mine.samples.npy", pre=("x",)), concrete=())
    K.run("dump, directory", dump("list", names, {"path": "new/deep/er"}, "new/deep/er/tmp_Mine.samples.npy"), concrete=())
    K.run("dump, absolute directory", dump("list", names, {"path": "/scratch/x"}, "/scratch/x/tmp_Mine.samples.npy"), concrete=())
    K.run("dump, existing directory", dump("list", names, {"path": "old"}, "old/tmp_Mine.samples.npy"), concrete=())
    K.run("dump, file name", dump("list", names, {"filename": "run1.npy"}, "dump/run1.npy"), concrete=())
    K.run("dump, file name without suffix", dump("list", names, {"filename": "run1", "path": "old"}, "old/run1.npy"), concrete=())
    K.run("dump, file name and new directory, exist_ok off", dump("list", names, {"filename": "run1", "path": "new", "exist_ok": False}, "new/run1.npy"), concrete=())
    for kw in ({}, {"path": "new"}, {"filename": "run1"}, {"path": "old", "exist_ok": False}):
        K.run(f"dump without saving{list(kw)}", dump("tuple", names, {**kw, "save_samples": False}, None, pre=("x",)), concrete=())

    def refused(S):
        c, log = mk(S, "list", names)
        S.keepfiles = []
        try:
            S.call(c, "dump", path="old", exist_ok=False)
        except Raised as r:
            S.true("an existing directory is refused when exist_ok is off", r.exc == "FileExistsError", f"ends in {r.exc}", r.loc)
            S.true("nothing is written to a refused directory", not S.I.vfs, f"{list(S.I.vfs)}", r.loc)
            return
        S.true("an existing directory is refused when exist_ok is off", False, "the directory is accepted", where(S, "dump"))
    K.run("dump to an existing directory, exist_ok off", refused, concrete=())

    def history(S):
        c, log = mk(S, "generator", names)
        S.keepfiles = []
        S.call(c, "sample", 1)
        S.call(c, "add_sample", "x", "x1")
        m = len(S.I.S.events)
        w = dumped(S, c, log, names, {"save_samples": False}, {"x": "x1"}, "first dump: ")
        saved(S, m, None, w, "first dump: ")
        S.call(c, "add_sample", "x", "x2")
        S.call(c, "add_sample", "y", "y1")
        S.call(c, "sample", 2)
        m = len(S.I.S.events)
        w = dumped(S, c, log, names, {"path": "p"}, {**w, "x": "x2", "y": "y1"}, "second dump: ")
        saved(S, m, "p/tmp_Mine.samples.npy", w, "second dump: ")
        S.keepfiles = ["p/tmp_Mine.samples.npy"]
        S.call(c, "add_sample", "z", "z1")
        m = len(S.I.S.events)
        w = dumped(S, c, log, names, {"path": "p", "filename": "q"}, {**w, "z": "z1"}, "third dump: ")
        saved(S, m, "p/q.npy", w, "third dump: ")
    K.run("history of samples, added entries and dumps", history, concrete=())

    def two(S):
        """collectors do not share their dictionaries"""
        c, log = mk(S, "list", names)
        d, log2 = mk(S, "list", ("d",))
        S.keepfiles = []
        S.call(c, "add_sample", "x", "x1")
        S.true("a second collector is not affected by added samples", content(S, S.call(d, "get_samples")) == {}, "", where(S, "add_sample"))
        dumped(S, c, log, names, {"save_samples": False}, {"x": "x1"}, "first collector: ")
        dumped(S, d, log2, ("d",), {"save_samples": False}, {}, "second collector: ")
    K.run("two collectors", two, concrete=())

    def base(S):
        solver, system = Opq("solver"), None
        cls = S.I.get(Q + "_client.Real")
        S.I.opq_attrs = {"solver": {"system": Opq("solver.system")}}
        s = S.I.call(cls, [solver, 5, NP], {})
        r = S.call(s, "sample", 3)
        k = S.I.vkey(r)
        S.true("a sampler holds its solver, the solver's system and the number of samples", r[0] is solver and isinstance(r[1], Opq) and r[1].key == "solver.system" and r[2] == 5, k, anchor(S, "sampler.Sampler.__init__"))
    K.run("sampler base class", base, concrete=())
