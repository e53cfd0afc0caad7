"""C19: fit statistics."""
from scen import *
EXPLANATION = (HOW + "delta, sigma and epsilon (arrays filtered by a symbolic condition) are compared entry by entry, and in number, with the residuals of sequential ordinary "
    "kriging written out as closed terms; Q1, Q2 and cR with their formulas over those arrays; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME + ["kriging variances are non-negative (valid variogram)", "'near-zero variance' is the cutoff 1e-10 documented in the code"]
def seqref(s, tag):
    """(estimate, variance) of datum i from the data before it"""
    def at(i):
        size = add(i, ONE)
        def A(p, q):
            inner = ite(eq(p, q), ZERO, neg(s.vario(s.dist(s.adj(p), s.adj(q)))))
            return ite(and_(lt(p, i), lt(q, i)), inner, ite(or_(lt(p, i), lt(q, i)), ONE, ZERO))
        def b(p):
            d = s.dist(s.adj(p), s.adj(i))
            return ite(lt(p, i), ite(le(d, num(F(1, 10**10))), ZERO, neg(s.vario(d))), ONE)
        M = lam((size, size), A)
        x = lambda p: summ(size, lambda q: mul(mk("ufn", (tag, M, p, q), "R"), b(q)))
        return summ(i, lambda p: mul(x(p), sel("V", p))), neg(summ(size, lambda p: mul(x(p), b(p))))
    return at
def job(r, cfg, how, dup):
    c = dict(cfg)
    s = Sc(r, c, stats=True); w = s.w
    if dup:
        for nm in s.names:
            def g(v, k):
                n = v.sym(s.N); i = k[1]
                i = 0 if i == n - 1 else i
                return (mpf(h64(v.seed, "dup", k[0], i) % 7919) / 1000 - (4 if s.geo else 0)) * ({"X": 40, "Y": 20}[k[0]] if s.geo else 1)
            rinterp.ARR[nm] = dict(gen=g)
    elif s.geo:
        for nm, f in (("X", 60), ("Y", 25)):
            rinterp.ARR[nm] = dict(gen=(lambda v, k, f=f: (mpf(h64(v.seed, "geo", *map(str, k)) % 6007) / 1000 - 3) * f))
    kw = dict(enable_statistics=True) if cfg["cls"] == "ok" else {}
    if how == "ctor": s.construct(**kw)
    else:
        s.cls = w.cls(*MODS[cfg["cls"]])
        a = s.ctor_args(); a.update(variogram_model="linear", variogram_parameters=w.lst([num(2), num(F(1, 2))]), **kw)
        if s.dim == 2: a.update(anisotropy_scaling=num(3), anisotropy_angle=num(0))
        s.obj = w.call(s.cls, *s.data, s.V, **a)
        u = dict(zip(ANISO[s.dim], s.scal + s.ang)); u["variogram_parameters"] = s.parlist
        if s.vm == "custom": u["variogram_function"] = s.gamma
        w.meth(s.obj, "update_variogram_model", s.vm, **u)
    name = "%s %s%s" % (cfgname(cfg), how, " last point repeats the first" if dup else "")
    loc = meth_loc(s, "__init__" if how == "ctor" else "update_variogram_model")
    tags = {e["tag"] for e in s.I.events if e["kind"] == "solve"}
    if len(tags) != 1: return r.undecided("statistics", name, "linear solves: %s" % tags)
    tag = tags.pop()
    D, S, E = [w.snap(w.attr(s.obj, a)) for a in ("delta", "sigma", "epsilon")]
    if any(x is None or x.ndim != 1 for x in (D, S, E)): return r.undecided("statistics", name, "not resolved")
    d = D.shape[0]
    set_facts(())
    with nofacts():
        ref = seqref(s, tag)
        cut = num(F(1, 10**10))
        var = lambda i: ref(i)[1]
        def keep(i): 
            i = i[0]; v = var(i)
            return and_(gt(i, ZERO), ge(fn("abs", v), cut), gt(sqrt(fn("abs", v)), cut))
        R_ = FDim((s.N,), keep)
        cnt = R_.count()
        q = TM._index(cnt, "r"); n = R_.nth(q)[0]
        z, v = ref(n); dl = sub(sel("V", n), z); sg = sqrt(v)
        for nm, A, want in (("delta", D, dl), ("sigma", S, sg), ("epsilon", E, div(dl, sg))):
            dd = A.shape[0]
            if isinstance(dd, FDim) and len(dd.src) != 1: r.undecided(nm, name, "layout"); continue
            if not r.eq("entries", "%s: number of entries of %s" % (name, nm), dsize(dd), cnt, (), loc, trials=6): continue
            got = A.at((dd.nth(q),)) if isinstance(dd, FDim) else A.at((q,))
            r.eq(nm, "%s: %s" % (name, nm), got, want, (), loc, trials=10)
        de = E.shape[0]; ds = S.shape[0]
        ne, ns = dsize(de), dsize(ds)
        se = over(de, "sum", lambda i: E.at((i,))); se2 = over(de, "sum", lambda i: power(E.at((i,)), 2))
        sl = over(ds, "sum", lambda i: fn("log", power(S.at((i,)), 2)))
        nn = sub(ne, ONE)
        q1 = fn("abs", div(se, nn)); q2 = div(se2, nn); cr = mul(q2, fn("exp", div(sl, ns)))
        facts = [gt(ne, ONE)]
        st = w.meth(s.obj, "get_statistics")
        it = s.I.items(s.I.resolve(st))
        for k, (nm, want) in enumerate((("Q1", q1), ("Q2", q2), ("cR", cr))):
            g = w.attr(s.obj, nm)
            if not isinstance(g, T): r.undecided(nm, name, "not resolved"); continue
            r.eq(nm, "%s: %s" % (name, nm), g, want, facts, loc, trials=5)
            if it is not None and len(it) == 3 and isinstance(it[k], T): r.eq("get_statistics", "%s: position of %s" % (name, nm), it[k], g, facts, loc, trials=3)
            else: r.undecided("get_statistics", name, "not resolved")
        er = w.snap(w.meth(s.obj, "get_epsilon_residuals"))
        if er is None or er.ndim != 1 or not dim_eq(er.shape[0], de): r.undecided("get_epsilon_residuals", name, "not resolved")
        else:
            qq = dfresh(de); r.eq("get_epsilon_residuals", name, er.at((qq,)), E.at((qq,)), (), loc, trials=3)
def off(r, cls):
    """2D ordinary kriging computes statistics only when asked"""
    s = Sc(r, dict(cls=cls, vm="linear"), stats=True); s.construct()
    ev = [e for e in s.I.events if e["kind"] == "solve"]
    r.check(not ev, "statistics only when enabled", cls, meth_loc(s, "__init__"))
def jobs(tier):
    out = []
    for c in (dict(cls="ok", vm="linear", nspan=2), dict(cls="ok", vm="exponential", nspan=2), dict(cls="ok", vm="exponential", geo=True, nspan=1), dict(cls="uk", vm="linear", nspan=1), dict(cls="ok3d", vm="linear", nspan=1), dict(cls="uk3d", vm="linear", nspan=1),
              dict(cls="ok", vm="spherical", pinv="pinv", nspan=1), dict(cls="uk", vm="spherical", pinv="pinvh", nspan=1), dict(cls="uk3d", vm="linear", pinv="pinv", nspan=1), dict(cls="ok3d", vm="linear", pinv="pinv", nspan=1)):
        for how in ("ctor",) + (("update",) if not c.get("geo") and c["vm"] == "linear" else ()):
            out.append(("%s:%s" % (cfgname(c), how), job, (c, how, False)))
        if not c.get("pinv"): out.append(("%s:%s:dup" % (cfgname(c), "ctor"), job, (dict(c, nspan=2), "ctor", True)))
    return out
