"""C17: the experimental semivariogram."""
from scen import *
EXPLANATION = (HOW + "the arrays reported as lags and semivariance (a filtered array of symbolic content: which bins are kept, and the mean in each) are compared with "
    "the documented binning of all pairs i<j into nlags equal-width bins closed at both ends; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME + ["the 0.001 by which the code extends the last bin only serves to close it at the largest distance"]
def bins(s, nlags):
    """reference: (kept(k), lag(k), semivariance(k)) over pairs i<j"""
    N = s.N
    def pairs(f, p): return summ(N, lambda j: summ(N, lambda i: ite(and_(lt(i, j), p(i, j)), f(i, j), ZERO)))
    def d(i, j): return s.dist(s.adj(i), s.adj(j))
    with nofacts():
        dmax = red("amax", N, lambda j: red("amax", N, lambda i: ite(lt(i, j), d(i, j), num(-TM.math.inf))))
        dmin = red("amin", N, lambda j: red("amin", N, lambda i: ite(lt(i, j), d(i, j), INF)))
    w = div(sub(dmax, dmin), nlags)
    def inb(k):
        lo, hi = add(dmin, mul(k, w)), add(dmin, mul(add(k, ONE), w))
        return lambda i, j: and_(le(lo, d(i, j)), or_(lt(d(i, j), hi), eq(k, sub(nlags, ONE))))
    cnt = lambda k: pairs(lambda i, j: ONE, inb(k))
    lag = lambda k: div(pairs(d, inb(k)), cnt(k))
    sv = lambda k: div(pairs(lambda i, j: scale(power(sub(sel("V", i), sel("V", j)), 2), F(1, 2)), inb(k)), cnt(k))
    return (lambda k: gt(cnt(k), ZERO)), lag, sv
def job(r, cfg, nlags, mode):
    s = Sc(r, cfg)
    kw = {}
    if mode == "line":      # equally spaced data on a line: distances on bin edges
        rinterp.ARR["X"] = dict(gen=lambda v, k: mpf(h64(v.seed, "lx", k[1]) % 4))
        for nm in ("Y", "Z"): rinterp.ARR[nm] = dict(gen=lambda v, k: mpf(0))
        for a in s.ang: TM.SYMINFO.setdefault(a, {})["gen"] = lambda v, k: mpf(0)
        for a in s.scal: TM.SYMINFO.setdefault(a, {})["gen"] = lambda v, k: mpf(1)
    nl = sym("L", "I", lo=ONE) if nlags is None else num(nlags)
    if nlags is None: TM.SYMINFO.setdefault(nl, {})["span"] = 3
    if nlags != 6: kw["nlags"] = nl
    if s.geo:
        for nm, g in (("X", lambda v, k: v.real("geo", *map(str, k)) * 60), ("Y", lambda v, k: v.real("geo", *map(str, k)) * 30)):
            rinterp.ARR[nm] = dict(gen=g)
    s.construct(**kw)
    try:
        f = s.cls.lookup("__init__"); loc = dict(file=f.mod.path, func=s.cls.name, line=f.node.lineno)
    except Exception: loc = None
    for e in s.I.events:
        if e["kind"] == "lib-call" and "pdist" in str(e.get("name")): loc = e["loc"]
    kept, lag, sv = bins(s, nl)
    name = "%s nlags=%s %s" % (cfgname(cfg), show(nl), mode)
    ref = FDim((nl,), lambda ix: kept(ix[0]))
    cnt = ref.count()
    for attr, val in (("lags", lag), ("semivariance", sv)):
        a = s.w.snap(s.w.attr(s.obj, attr))
        if a is None or a.ndim != 1: r.undecided("experimental variogram", name, attr + " not resolved"); continue
        n = dsize(a.shape[0])
        set_facts(())
        with nofacts():
            if not r.eq("empty bins dropped", "%s: number of %s" % (name, attr), n, cnt, (), loc, trials=8 if mode == "line" else 5): continue
            q = TM._index(cnt, "r")
            d = a.shape[0]
            if isinstance(d, FDim): got = a.at((d.nth(q),)) if len(d.src) == 1 else None
            else: got = a.at((q,))
            if got is None: r.undecided("experimental variogram", name, attr + " not resolved"); continue
            r.eq(attr, "%s: %s is the mean over the pairs of its bin" % (name, attr), got, val(ref.nth(q)[0]), (), loc, trials=24 if mode == "line" else 8)
    pts = None
    if s.dim == 3: return          # the accessor is offered in 2D only
    p = s.w.meth(s.obj, "get_variogram_points")
    it = s.I.items(s.I.resolve(p))
    if it is None: r.undecided("accessor", name, "get_variogram_points not resolved"); return
    f1 = s.w.snap(it[0]); lg = s.w.snap(s.w.attr(s.obj, "lags"))
    ok = f1 is not None and f1.ndim == 1 and dim_eq(f1.shape[0], lg.shape[0])
    if not ok: r.undecided("accessor", name, "get_variogram_points shape"); return
    q = dfresh(f1.shape[0])
    with nofacts(): r.eq("accessor", name + ": get_variogram_points reports the lags", f1.at((q,)), lg.at((q,)), (), loc)
def jobs(tier):
    out = []
    D = [dict(cls="ok", vm="linear"), dict(cls="ok", vm="linear", geo=True), dict(cls="ok3d", vm="linear"), dict(cls="uk", vm="linear"), dict(cls="uk3d", vm="linear")]
    for c in D:
        for nl in (None, 6, 2, 1, 4):
            for mode in ("scatter",) + (("line",) if nl in (2, 4, None) and not c.get("geo") else ()):
                out.append(("%s:%s:%s" % (cfgname(c), nl, mode), job, (c, nl, mode)))
    return out
