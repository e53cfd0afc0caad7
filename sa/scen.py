"""Symbolic scenarios: a kriging object of each class over symbolic data, executed in every documented way."""
from chk import *
import spec
from rinterp import h64, mpf
MODS = {"ok": ("pykrige.ok", "OrdinaryKriging"), "uk": ("pykrige.uk", "UniversalKriging"),
        "ok3d": ("pykrige.ok3d", "OrdinaryKriging3D"), "uk3d": ("pykrige.uk3d", "UniversalKriging3D")}
SPECIFIC = ("rl", "pl", "ext", "spec", "fun")

def cfgname(c):
    out = [c["cls"], c.get("vm", "custom"), c.get("style", "grid"), c.get("backend", "vectorized")]
    if c.get("geo"): out.append("geo")
    if c.get("win"): out.append("win")
    if c.get("exact") is False: out.append("inexact")
    if c.get("pinv"): out.append(c["pinv"])
    if c.get("unb") is False: out.append("nounbias")
    if c.get("drift"): out.append("+".join("%s%s" % (d[0], d[1] if len(d) > 1 else "") for d in c["drift"]))
    if c.get("coin"): out.append("coincident")
    if c.get("tr"): out.append("transposed")
    if c.get("hist"): out.append("other %s before" % c["hist"])
    if c.get("tag"): out.append(c["tag"])
    return ":".join(out)

class Sc:
    alt = ""        # suffix of the names of the inputs of execute: other points, mask and drift values of the same shapes
    K2 = None       # another window size
    def __init__(s, r, cfg, facts=(), world=None, **flags):
        s.r, s.c = r, cfg
        s.w = w = world or World(r, **flags)
        s.I = w.I
        s.dim = 3 if cfg["cls"].endswith("3d") else 2
        s.drift = cfg.get("drift", [])
        s.N = sym("N", "I", lo=num(max(cfg.get("nmin", 2), s.nd() + 1))); TM.SYMINFO.setdefault(s.N, {})["span"] = cfg.get("nspan", 2)
        if cfg.get("n_data"): s.N = num(cfg["n_data"])
        s.names = ["X", "Y", "Z"][:s.dim]
        s.data = [w.vec(n, s.N) for n in s.names]; s.V = w.vec("V", s.N)
        s.vm = cfg.get("vm", "custom")
        np_ = spec.NPAR.get(s.vm, 2)
        s.pars = [sym("g%d" % k, "R", nonneg=True, lo=ZERO) for k in range(np_)]
        s.parlist = w.lst(s.pars, "variogram_parameters")
        if s.vm in spec.NPAR and s.vm not in ("linear", "power"): s.pars = [sub(s.pars[0], s.pars[2])] + s.pars[1:]
        s.gamma_calls = []
        def gam(it, args, kw, node):
            p, d = args[0], args[1]
            ps = it.items(it.resolve(p))
            if ps is None: return it.unknown("parameters of the custom variogram")
            if any(not isinstance(x, T) for x in ps): return it.unknown("parameters of the custom variogram")
            it.event("gamma", params=ps)
            return it.np.emap(lambda x: ufn("gamma", *ps, x), d, dtype="float")
        s.gamma = Model("gamma", gam, callable=True)
        s.geo = bool(cfg.get("geo"))
        nsc = s.dim - 1; nan = 2 * s.dim - 3
        s.scal = [sym("scal%d" % k, "R", nonneg=True) for k in range(nsc)]
        s.ang = [sym("ang%d" % k) for k in range(nan)]
        s.K = sym("K", "I", lo=num(2), hi=s.N) if cfg.get("win") else None
        s.exact = cfg.get("exact", True); s.unb = cfg.get("unb", True)
        s.gens()
        if s.vm not in ("custom", "linear"): w.I.assume(gt(s.pars[1], ZERO))
        if s.K is not None: w.I.assume(le(s.K, s.N))
    # ------------------------------------------------------------ construction
    def gens(s):
        """sampling domains of random interpretation: external drift grids enclose all coordinates, axes strictly monotone"""
        def axis(val, key):
            name, i = key
            n = val.ints.get(s.GX if name == "EX" else s.GY) or val.sym(s.GX if name == "EX" else s.GY)
            up = h64(val.seed, "asc", name) % 2 if s.c.get("asc") is None else s.c["asc"]
            k = i if up else n - 1 - i
            if k == 0: v = mpf(-5)
            elif k == n - 1: v = mpf(5)
            else: v = mpf(-4) + mpf(8 * k) / n + (mpf(h64(val.seed, "ax", name, i) % 3) / 4 if h64(val.seed, "f", name) % 2 else 0)
            return v
        for nm in ("MASK", "MASKb"): rinterp.ARR[nm] = dict(gen=lambda val, key: 1 if h64(val.seed, "mask", *map(str, key)) % 2 else 0)
        for nm in ("EX", "EY"): rinterp.ARR[nm] = dict(gen=axis)
        if hasattr(s, "N"):
            rinterp.ARR["SIG"] = dict(gen=lambda val, key: val.integer(0, val.sym(s.N) - 1, "SIG", key[1]))
    def ctor_args(s):
        c, w = s.c, s.w
        kw = dict(variogram_model=s.vm, exact_values=s.exact)
        if s.vm == "custom": kw["variogram_function"] = s.gamma
        kw["variogram_parameters"] = s.parlist
        if s.dim == 2: kw.update(anisotropy_scaling=s.scal[0], anisotropy_angle=s.ang[0])
        else: kw.update(anisotropy_scaling_y=s.scal[0], anisotropy_scaling_z=s.scal[1], anisotropy_angle_x=s.ang[0], anisotropy_angle_y=s.ang[1], anisotropy_angle_z=s.ang[2])
        if c["cls"] == "ok":
            if s.geo: kw["coordinates_type"] = "geographic"
        if c.get("pinv"): kw.update(pseudo_inv=True, pseudo_inv_type=c["pinv"])
        terms = []
        for d in s.drift:
            k = d[0]; m = d[1] if len(d) > 1 else 1
            if k == "rl": terms.append("regional_linear")
            elif k == "pl":
                terms.append("point_log")
                s.wells = [[sym("W%d_%d" % (i, j)) for j in range(3)] for i in range(m)]
                at = c.get("wellat")      # the first well lies on the first data point / prediction point
                if at: s.wells[0][:2] = [sel(n, ZERO) for n in (("X", "Y") if at == "data" else ("XP", "YP"))]
                a = w.I.newarr((num(m), num(3)), lambda ix: w.I.np.pickk(ix[0], [(lambda row=row: w.I.np.pickk(ix[1], [(lambda t=t: t) for t in row])) for row in s.wells]), "float")
                w.I.inputs[a.buf] = "point_drift"
                kw["point_drift"] = a
            elif k == "ext":
                terms.append("external_Z")
                s.GX, s.GY = sym("GX", "I", lo=num(2)), sym("GY", "I", lo=num(2))
                TM.SYMINFO.setdefault(s.GX, {})["span"] = 1; TM.SYMINFO.setdefault(s.GY, {})["span"] = 1
                tr = c.get("tr")
                kw["external_drift"] = w.mat("E", *((s.GX, s.GY) if tr else (s.GY, s.GX)))
                if tr: w.I.assume(not_(eq(s.GX, s.GY)))
                kw["external_drift_x"] = w.vec("EX", s.GX); kw["external_drift_y"] = w.vec("EY", s.GY)
            elif k == "spec":
                terms.append("specified")
                s.nspec = m
                kw["specified_drift"] = w.lst([w.vec("SD%d" % j, s.N) for j in range(m)], "specified_drift")
            elif k == "fun":
                terms.append("functional")
                s.nfun = m
                def mkf(j):
                    def f(it, args, kw_, node):
                        if len(args) != s.dim: raise it.raise_("TypeError", "functional drift called with %d arguments" % len(args))
                        return it.np.emap(lambda *xs: ufn("drift%d" % j, *xs), *args, dtype="float")
                    return Model("drift%d" % j, f, callable=True)
                kw["functional_drift"] = w.lst([mkf(j) for j in range(m)], "functional_drift")
        if s.c["cls"].startswith("uk") and (s.drift or c.get("drift_terms")): kw["drift_terms"] = w.lst(terms, "drift_terms")
        kw.update(c.get("kw", {}))
        return kw
    def construct(s, **over):
        cls = s.w.cls(*MODS[s.c["cls"]])
        s.cls = cls
        kw = s.ctor_args(); kw.update(over)
        s.obj = s.w.call(cls, *s.data, s.V, **kw)
        if not s.unb: s.I.setattr(s.obj, "UNBIAS", False)
        return s.obj
    def history(s, what, run=True):
        """construct with one aspect of the configuration different, execute, then update to the documented configuration"""
        fin = s.ctor_args(); kw = dict(fin); names = ANISO[s.dim]
        if what == "aniso": kw.update({a: sym("was_" + a, "R", nonneg=True) for a in names})
        elif what in names: kw[what] = sym("was_" + what, "R", nonneg=True)
        elif what == "params": kw["variogram_parameters"] = s.w.lst([sym("was_g%d" % k, "R", nonneg=True) for k in range(len(s.pars))], "first parameters")
        elif what == "model":
            kw["variogram_model"] = "gaussian" if s.vm == "spherical" else "spherical"; kw.pop("variogram_function", None)
            if spec.NPAR.get(s.vm) != 3: kw["variogram_parameters"] = s.w.lst([sym("was_g%d" % k, "R", nonneg=True) for k in range(3)], "first parameters")
        elif what == "function":
            def gam(it, args, kw_, node): return it.np.emap(lambda x: ufn("gamma_before", x), args[1], dtype="float")
            kw["variogram_function"] = Model("gamma_before", gam, callable=True)
        cls = s.cls = s.w.cls(*MODS[s.c["cls"]])
        s.obj = s.w.call(cls, *s.data, s.V, **kw)
        if not s.unb: s.I.setattr(s.obj, "UNBIAS", False)
        if run: s.execute()
        keep = ("variogram_parameters", "variogram_function") + (() if s.geo else names)
        s.w.meth(s.obj, "update_variogram_model", s.vm, **{k: v for k, v in fin.items() if k in keep})
        return s.obj
    # ------------------------------------------------------------ execution
    def points(s, style=None, pre=""):
        """(args, layout) for a style"""
        style = style or s.c.get("style", "grid")
        w = s.w
        ax = [n + s.alt for n in ("XP", "YP", "ZP")][:s.dim]
        if style == "points":
            s.M = sym("M", "I", lo=ONE); TM.SYMINFO.setdefault(s.M, {})["span"] = 2
            if s.c.get("n_pts"): s.M = num(s.c["n_pts"])
            s.pn = [s.M] * s.dim
            if s.c.get("coin"):
                def mka(nm): return s.I.newarr((s.M,), lambda ix: s.coin(nm, ix[0]), "float")
                return [mka(n) for n in s.names]
            return [s.pvec(a, s.M) for a in ax]
        s.pn = [num(s.c["n_pts"])] * s.dim if s.c.get("n_pts") else [sym(n, "I", lo=ONE) for n in ("nx", "ny", "nz")[:s.dim]]
        wide = any(c_sptr(s)) or s.c.get("mtr") or s.c.get("wide")       # transposition is only visible when both sizes exceed one
        for t in s.pn: TM.SYMINFO.setdefault(t, {})["span"] = 3 if wide and s.dim == 2 else 2 if wide else 1
        return [s.pvec(a, n) for a, n in zip(ax, s.pn)]
    def pvec(s, a, n):
        if not s.c.get("intpts"): return s.w.vec(a, n)
        v = s.I.newarr((n,), lambda ix: sel(a, *ix, sort="I"), "int"); s.I.inputs[v.buf] = a
        return v
    def execute(s, style=None, backend=None, **over):
        style = style or s.c.get("style", "grid"); backend = backend or s.c.get("backend", "vectorized")
        pts = s.points(style)
        kw = dict(backend=backend)
        if s.K is not None: kw["n_closest_points"] = s.K if s.K2 is None else s.K2
        shape = tuple(reversed(s.pn)) if style != "points" else (s.M,)
        if style == "masked":
            s.maskarr = s.w.boolmat("MASK" + s.alt, *shape)
            kw["mask"] = s.maskarr
        if any(d[0] == "spec" for d in s.drift):
            tr = c_sptr(s)
            kw["specified_drift_arrays"] = s.w.lst([s.w.mat("SP%d%s" % (j, s.alt), *(tuple(reversed(shape)) if tr[j] else shape)) for j in range(s.nspec)], "specified_drift_arrays")
            if any(tr): s.I.assume(not_(eq(s.pn[0], s.pn[-1])))
        kw.update(over)
        s.ev0 = len(s.I.events)
        s.shape = shape; s.style = style
        res = s.w.meth(s.obj, "execute", style, *pts, **kw)
        res = s.I.resolve(res)
        it = s.I.items(res) if not isinstance(res, Unk) else None
        s.res = [s.w.snap(x) for x in it] if it is not None and len(it) == 2 else None
        return s.res
    def solves(s):
        return [e for e in s.I.events[s.ev0:] if e["kind"] == "solve"]
    # ------------------------------------------------------------ reference
    def pidx(s):
        """fresh output index, and the coordinates of its prediction point"""
        ix = tuple(TM._index(n, "p") for n in s.shape)
        return ix, s.pcoord(ix)
    def pcoord(s, ix):
        so = "I" if s.c.get("intpts") else "R"
        if s.style == "points":
            if s.c.get("coin"): return [s.coin(n, ix[0]) for n in s.names]
            return [sel(a + s.alt, ix[0], sort=so) for a in ("XP", "YP", "ZP")[:s.dim]]
        return [sel(a + s.alt, i, sort=so) for a, i in zip(("XP", "YP", "ZP"), reversed(ix))]
    def coin(s, nm, i):
        """coordinate of a prediction point at (or next to) a data point"""
        v = sel(nm, coin_sel(s, i))
        return add(v, s.off) if nm == "X" and hasattr(s, "off") else v
    def res_shape(s, sn): return sn.shape
    def masked(s, ix): return truth(sel("MASK" + s.alt, *ix)) if s.style == "masked" else FALSE
    def center(s): return [scale(add(red("amax", s.N, lambda i: sel(n, i)), red("amin", s.N, lambda i: sel(n, i))), F(1, 2)) for n in s.names]
    def adjust(s, p): return p if s.geo else spec.anis(p, s.center(), s.scal, s.ang)
    def orig(s, i): return [sel(n, i) for n in s.names]
    def adj(s, i): return s.adjust(s.orig(i))
    def vario(s, d): return ufn("gamma", *s.pars, d) if s.vm == "custom" else spec.variogram(s.vm, s.pars, d)
    def dist(s, p, q): return spec.great_circle(p, q) if s.geo else spec.euclid(p, q)
    def nd(s):
        n = 0
        for d in s.drift: n += {"rl": s.dim, "ext": 1}.get(d[0], d[1] if len(d) > 1 else 1)
        return n
    def drifts(s):
        """list of (name, at(orig coords, adj coords, specified(j)))"""
        out = []
        ds = {d[0]: (d[1] if len(d) > 1 else 1) for d in s.drift}
        if "rl" in ds:
            for k in range(s.dim): out.append(("regional_linear[%d]" % k, lambda o, a, sp, k=k: a[k]))
        if "pl" in ds:
            for j in range(ds["pl"]):
                def pl(o, a, sp, j=j):
                    wl = s.adjust(s.wells[j][:2])
                    r2 = spec.euclid(a, wl)
                    return mul(neg(s.wells[j][2]), ite(eq(r2, ZERO), num(-100), fn("log", r2)))
                out.append(("point_log[%d]" % j, pl))
        if "ext" in ds: out.append(("external_Z", lambda o, a, sp: spec.bilinear("E", "EX", "EY", s.GX, s.GY, o[0], o[1], bool(s.c.get("tr")))))
        if "spec" in ds:
            for j in range(ds["spec"]): out.append(("specified[%d]" % j, lambda o, a, sp, j=j: sp(j)))
        if "fun" in ds:
            for j in range(ds["fun"]): out.append(("functional[%d]" % j, lambda o, a, sp, j=j: ufn("drift%d" % j, *a)))
        return out
    def datadrift(s, t, i): return s.drifts()[t][1](s.orig(i), s.adj(i), lambda j: sel("SD%d" % j, i))
    def ptdrift(s, t, ix):
        o = s.pcoord(ix)
        tr = c_sptr(s)
        return s.drifts()[t][1](o, s.adjust(o), lambda j: sel("SP%d%s" % (j, s.alt), *(reversed(ix) if tr[j] else ix)))
    def A(s, i, j):
        """kriging matrix at data/drift/unbiasedness positions; i, j: ('d', term) | ('f', k) | ('u',)"""
        if i[0] == "d" and j[0] == "d":
            return ite(eq(i[1], j[1]), ZERO, neg(s.vario(s.dist(s.adj(i[1]), s.adj(j[1])))))
        if i[0] != "d" and j[0] != "d": return ZERO
        if i[0] != "d": i, j = j, i
        return ONE if j[0] == "u" else s.datadrift(j[1], i[1])
    def extra(s):
        return [("f", k) for k in range(s.nd())] + ([("u",)] if s.unb else [])
    def size(s): return add(s.N, num(len(s.extra())))
    def at_position(s, q, data, ex, n=None):
        """split an index of the bordered system into data part and the named extra positions"""
        n = s.N if n is None else n
        xs = s.extra()
        def go(k):
            if k == len(xs): return ZERO
            if k == len(xs) - 1: return ex(xs[k])
            return ite(eq(q, add(n, num(k))), ex(xs[k]), go(k + 1))
        from interp import gate
        return gate(lt(q, n), data, lambda: go(0)) if xs else data()
    def Aterm(s, p, q, sub_=None, n=None):
        """matrix entry at generic positions; sub_ maps positions to data indices (moving window)"""
        f = sub_ or (lambda k: k)
        def row(pi):
            return s.at_position(q, lambda: s.A(pi, ("d", f(q))), lambda x: s.A(pi, x), n)
        return s.at_position(p, lambda: row(("d", f(p))), lambda x: row(x), n)
    def b(s, ix, i):
        """right-hand side"""
        o = s.pcoord(ix); a = s.adjust(o)
        if i[0] == "u": return ONE
        if i[0] == "f": return s.ptdrift(i[1], ix)
        d = s.dist(a, s.adj(i[1]))
        v = neg(s.vario(d))
        return ite(le(d, num(F(1, 10**10))), ZERO, v) if s.exact else v
    def tag(s):
        p = s.c.get("pinv")
        return "inv" if not p else "inv:" + p
    def reference(s, ix, Afun=None):
        """(estimate, variance) at output index ix; Afun(p, q): matrix entries to use instead of the documented ones"""
        n = s.N; sub_ = None
        if s.K is not None:
            n = s.K
            a = s.adjust(s.pcoord(ix))
            key = spec.sphere if s.geo else (lambda p: p)
            with nofacts():
                L = lam((s.N, num(3 if s.geo else s.dim)), lambda i, c: pick(c, key(s.adj(i))))
                P = lam((num(3 if s.geo else s.dim),), lambda c: pick(c, key(a)))
            memo = {}
            def sub_(k):
                if k not in memo: memo[k] = mk("ufn", ("knn", L, P, k), "I")
                return memo[k]
        size = add(n, num(len(s.extra())))
        f = sub_ or (lambda k: k)
        with nofacts():
            A = lam((size, size), (lambda p, q: s.Aterm(p, q, sub_, n)) if Afun is None else Afun)
        W = lambda p, q: mk("ufn", (s.tag(), A, p, q), "R")
        def bb(q): return s.at_position(q, lambda: s.b(ix, ("d", f(q))), lambda x: s.b(ix, x), n)
        def x(p): return summ(size, lambda q: mul(W(p, q), bb(q)))
        est = summ(n, lambda p: mul(x(p), sel("V", f(p))))
        var = neg(summ(size, lambda p: mul(x(p), bb(p))))
        return est, var
    def admissible(s):
        """facts under which witnesses count: the documented preconditions of the scenario"""
        fs = []
        ds = {d[0] for d in s.drift}
        return fs
def c_sptr(s): return s.c.get("sptr") or (False,) * 9
def coin_sel(s, i):
    TM.SELRANGE["SIG"] = (ZERO, sub(s.N, ONE))
    return sel("SIG", i, sort="I")
def pick(c, opts):
    from interp import gate
    if is_num(c): return opts[int(numval(c))]
    def go(j): return opts[j] if j == len(opts) - 1 else ite(eq(c, num(j)), opts[j], go(j + 1))
    return go(0)

# ------------------------------------------------------------------ shared rules
BASE_ASSUME = ["real arithmetic: rounding is not modelled", "numpy, scipy and BLAS/LAPACK calls follow their documentation (modelled in sa/nplib*.py)",
    "kriging systems are non-singular", "finite, NaN-free data of at least two points"]
HOW = ("Interprocedural gated value-graph analysis (GVN/SCCP with loop summaries; Python AST and Cython source) from the public constructor and execute, "
    "context-specialised per documented option, with data, sizes, parameters, variogram and drift functions symbolic; ")
DECIDE = "terms are compared by normal form, else by random interpretation of both terms with a witness required before a violation is reported. Nothing of the repository is executed."

def meth_loc(s, name):
    try:
        f = s.cls.lookup(name) if name == "__init__" else s.I.getattr(s.obj, name).f
        return dict(file=f.mod.path, func="%s.%s" % (s.cls.name, name), line=f.node.lineno)
    except Exception: return dict(file=MODS[s.c["cls"]][0], func="%s.%s" % (MODS[s.c["cls"]][1], name), line=0)
def over(d, op, f):
    """reduce f over a (possibly filtered) dimension"""
    dims = d.src if isinstance(d, FDim) else (d,)
    pred = (lambda ix: d.pred(ix)) if isinstance(d, FDim) else (lambda ix: TRUE)
    e = {"sum": ZERO, "amax": num(-TM.math.inf), "amin": INF}[op]
    def go(k, ix):
        if k == len(dims):
            g = ix if isinstance(d, FDim) else ix[0]
            return ite(pred(ix), f(g), e)
        h = lambda i: go(k + 1, ix + (i,))
        return summ(dims[k], h) if op == "sum" else red(op, dims[k], h)
    return go(0, ())
def exec_loc(s):
    try:
        f = s.I.getattr(s.obj, "execute").f
        return dict(file=f.mod.path, func=f.cls.name + ".execute", line=f.node.lineno)
    except Exception: return None
def run_exec(r, cfg, **kw):
    """construct and execute one configuration; None if the analysis cannot resolve the result"""
    s = Sc(r, cfg, **kw)
    if cfg.get("hist"): s.history(cfg["hist"])
    else: s.construct()
    s.execute()
    s.loc = exec_loc(s)
    if s.res is None or any(x is None for x in s.res):
        r.undecided("result", cfgname(cfg), "result of execute not resolved: %s" % s.I.unsup[-2:]); return None
    return s
def code_matrix(s):
    """matrix of the linear system the code solves (no moving window), as the code builds it"""
    ev = s.solves()
    if not ev: return None
    return ev[0]["mat"]
def compare_out(r, s, rule, Afun=None, what=None, var=True, est=True, trials=6, facts=()):
    name = what or cfgname(s.c)
    if not r.shape("%s: result shape" % name, s.res[0], s.shape, s.loc) or not r.shape("%s: variance shape" % name, s.res[1], s.shape, s.loc): return
    ix, _ = s.pidx()
    m = s.masked(ix)
    fs = ([not_(m)] if m is not FALSE else []) + list(facts)
    set_facts(add_facts((), fs)); 
    z, v = s.res[0].at(ix), s.res[1].at(ix)
    ez, ev = s.reference(ix, Afun)
    set_facts(())
    if est: r.eq(rule, name + ": estimate", z, ez, fs, s.loc, trials=trials)
    if var: r.eq(rule, name + ": variance", v, ev, fs, s.loc, trials=trials)
def raises_on_valid(r, s, rule, name=None, facts=(), pend=None, loc=None, trials=40):
    """no path of the analysed call raises for admissible inputs"""
    pend = s.I.pend if pend is None else pend
    from rinterp import Val, Resample, Unknown, facts_hold
    name = name or cfgname(s.c)
    n = 0
    for a in pend:
        if a.kind != "raise": continue
        if any("OpaqueError" in x for x in exc_names(a.val)): continue
        n += 1
        hit = None; unk = None
        for k in range(trials):
            v = Val(h64(SEED, "raise", k))
            try:
                if facts_hold(v, facts) and facts_hold(v, a.S.facts): hit = k; break
            except Resample: continue
            except Exception as e: unk = repr(e); break
        if hit is not None:
            r.bad(rule, "%s: %s is raised for a valid input" % (name, exc_names(a.val)[0]), a.loc, dict(args=[str(x) for x in a.val.args], at={t.a[0]: str(x)[:20] for t, x in v.cache.items() if isinstance(t, T)}))
            return False
        if unk: r.undecided(rule, name, "condition of %s: %s" % (exc_names(a.val)[0], unk)); return None
    r.ok(rule, "%s: none of %d guarded raises is reachable" % (name, n)); return True
def rejects(r, w, rule, what, allowed, f, *args, loc=None, **kw):
    """every path of this call raises, and raises one of the allowed exceptions"""
    n0 = len(w.I.unsup)
    v, dead, pend = w.attempt(f, *args, **kw)
    if not dead:
        if len(w.I.unsup) > n0 or isinstance(v, Unk): r.undecided(rule, what, w.I.unsup[-1] if w.I.unsup else "result not resolved"); return None
        r.bad(rule, what + ": accepted instead of rejected", loc, dict(documented=allowed)); return False
    if not pend: r.undecided(rule, what, "no exception recorded"); return None
    last = [a for a in pend if a.kind == "raise" and not any("OpaqueError" in x for x in exc_names(a.val))]
    wrong = [a for a in last if not any(n in exc_names(a.val) for n in allowed)]
    if last and not wrong: r.ok(rule, what); return True
    if not last: r.undecided(rule, what, "no exception recorded"); return None
    a = wrong[-1]
    ok = [b for b in last if b not in wrong]
    if ok: r.undecided(rule, what, "also raises %s" % exc_names(a.val)[0]); return None
    r.bad(rule, "%s: raises %s instead of %s" % (what, exc_names(a.val)[0], "/".join(allowed)), a.loc, dict(args=[str(x)[:80] for x in getattr(a.val, "args", ())])); return False
def accepts(r, w, rule, what, f, *args, loc=None, **kw):
    """the call completes normally and no path of it raises for concrete, valid arguments"""
    v, dead, pend = w.attempt(f, *args, **kw)
    if dead:
        a = [a for a in pend if a.kind == "raise"]
        r.bad(rule, "%s: raises %s" % (what, exc_names(a[-1].val)[0] if a else "?"), a[-1].loc if a else loc, dict(args=[str(x)[:80] for x in getattr(a[-1].val, "args", ())] if a else None)); return None
    r.ok(rule, what)
    return v if v is not None else True
ANISO = {2: ("anisotropy_scaling", "anisotropy_angle"), 3: ("anisotropy_scaling_y", "anisotropy_scaling_z", "anisotropy_angle_x", "anisotropy_angle_y", "anisotropy_angle_z")}

def gsmodel(s, dim=None, latlon=False, cov=True, pre="gs"):
    """a GSTools covariance model as documented: pykrige_* properties, field dimension, lat-lon flag"""
    dim = s.dim if dim is None else dim
    def vario(it, args, kw, node):
        x = args[1] if len(args) > 1 else kw.get("r", ZERO)
        return it.np.emap(lambda d: ufn(pre + "vario", d), x, dtype="float")
    names = ("pykrige_anis", "pykrige_angle", "pykrige_anis_y", "pykrige_anis_z", "pykrige_angle_x", "pykrige_angle_y", "pykrige_angle_z")
    at = {n: sym(pre + n, "R", nonneg=True) for n in names}
    at.update(pykrige_kwargs=Unk("pykrige_kwargs"), pykrige_vario=Model(pre + "vario", vario, callable=True), field_dim=num(dim), dim=num(dim), latlon=bool(latlon))
    m = Model("gsmodel", None, bases=("CovModel",) if cov else (), **at)
    return m
