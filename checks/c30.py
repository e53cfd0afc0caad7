"""C30: the external drift is bilinear interpolation in the unadjusted frame."""
from scen import *
EXPLANATION = (HOW + "the drift row of the matrix and the drift entry of the right-hand side are compared with bilinear interpolation between the enclosing nodes, with data and prediction points between nodes, on nodes, on "
    "grid lines and on the border, axes of either direction and either array orientation; the condition of the out-of-range error is compared with 'some location lies outside the grid'; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME + ["external drift axes are strictly monotone"]
from rinterp import Val, Resample, Unknown, facts_hold
def place(s, outside):
    """sample coordinates on and between grid nodes, on the border and (optionally) outside"""
    ax = rinterp.ARR["EX"]["gen"]
    def gen(axis, size):
        def g(val, key):
            h = h64(val.seed, "place", *map(str, key)) % 12
            n = val.sym(size)
            if outside and h < 1: return mpf(-6) - mpf(h64(val.seed, "o", *map(str, key)) % 100) / 50
            if outside and h < 2: return mpf(6) + mpf(h64(val.seed, "o", *map(str, key)) % 100) / 50
            if h < 6: return ax(val, (axis, h64(val.seed, "n", *map(str, key)) % n))
            return mpf(h64(val.seed, "u", *map(str, key)) % 9973) / 1000 - mpf("4.98")
        return dict(gen=g)
    for nm in ("X", "XP"): rinterp.ARR[nm] = gen("EX", s.GX)
    for nm in ("Y", "YP"): rinterp.ARR[nm] = gen("EY", s.GY)
    for t in (s.GX, s.GY): TM.SYMINFO[t]["span"] = 2
def values(r, cfg):
    s = Sc(r, cfg); s.construct(); place(s, False)
    s.execute(); s.loc = exec_loc(s)
    name = cfgname(cfg) + (" asc=%s" % cfg["asc"] if cfg.get("asc") is not None else "")
    if s.res is None or any(x is None for x in s.res): return r.undecided("result", name, "not resolved")
    mat = code_matrix(s)
    if mat is None: return r.undecided("drift at the data", name, "no linear solve found")
    loc = meth_loc(s, "__init__")
    k = [d[0] for d in s.drifts()].index("external_Z")
    i = TM._index(s.N, "i")
    want = s.datadrift(k, i)
    p = add(s.N, num(k))
    r.eq("drift at the data", name + ": matrix column", mat.at((i, p)), want, (), loc, trials=60)
    r.eq("drift at the data", name + ": matrix row", mat.at((p, i)), want, (), loc, trials=20)
    compare_out(r, s, "drift at the point", lambda p, q: mat.at((p, q)), what=name, var=False, trials=24)
def nodes(r, cfg):
    """on a node the drift is the node's value"""
    s = Sc(r, cfg); s.construct(); place(s, False); s.execute(); s.loc = exec_loc(s)
    gx, gy = sym("nodex", "I", lo=ZERO), sym("nodey", "I", lo=ZERO)
    rinterp.ARR["X"] = dict(gen=lambda val, key: rinterp.ARR["EX"]["gen"](val, ("EX", val.sym(gx) % val.sym(s.GX))))
    rinterp.ARR["Y"] = dict(gen=lambda val, key: rinterp.ARR["EY"]["gen"](val, ("EY", val.sym(gy) % val.sym(s.GY))))
    mat = code_matrix(s)
    if mat is None: return r.undecided("node value", cfgname(cfg), "no linear solve found")
    i = TM._index(s.N, "i")
    tr = cfg.get("tr")
    got = mat.at((i, s.N)); want = sel("E", gx, gy) if tr else sel("E", gy, gx)
    r.eq("node value", cfgname(cfg) + ": data on a node take the node's value", got, want, [lt(gx, s.GX), lt(gy, s.GY)], meth_loc(s, "__init__"), trials=30)
def outside_term(s, xs):
    o = FALSE
    for x, ax, n in zip(xs, ("EX", "EY"), (s.GX, s.GY)):
        o = or_(o, lt(red("amax", n, lambda i: sel(ax, i)), x)); o = or_(o, lt(x, red("amin", n, lambda i: sel(ax, i))))
    return o
def decide_raise(r, s, rule, name, pend, cond, base, loc, trials=80):
    """the call raises ValueError exactly when cond holds"""
    rs = [a for a in pend if a.kind == "raise" and not any("OpaqueError" in x for x in exc_names(a.val))]
    if any(t.unk for a in rs for t in a.S.facts): return r.undecided(rule, name, "condition of the error not resolved")
    n = [0, 0]
    for k in range(trials):
        v = Val(h64(SEED, "outside", k))
        try:
            if not all(v.ev(f) for f in base): continue
            want = bool(v.ev(cond)); hit = [a for a in rs if facts_hold(v, a.S.facts)]
        except Resample: continue
        except Exception as e: return r.undecided(rule, name, repr(e))
        n[want] += 1
        at = {t.a[0]: str(x)[:20] for t, x in v.cache.items() if isinstance(t, T)}
        if want and not hit: return r.bad(rule, name + ": a location outside the grid is accepted", loc, dict(at=dict(list(at.items())[:12])))
        if hit and not want: return r.bad(rule, name + ": %s for a location inside the grid" % exc_names(hit[0].val)[0], hit[0].loc, dict(at=dict(list(at.items())[:12])))
        if hit and "ValueError" not in exc_names(hit[0].val): return r.bad(rule, name + ": %s instead of ValueError" % exc_names(hit[0].val)[0], hit[0].loc)
    if min(n) < 3: return r.undecided(rule, name, "cases not sampled: %s" % n)
    r.ok(rule, "%s (%d outside, %d inside)" % (name, n[1], n[0]))
def range_(r, cfg):
    s = Sc(r, cfg); w = s.w
    a = s.ctor_args(); place(s, True)
    cls = s.cls = w.cls(*MODS[cfg["cls"]])
    base = list(s.I.S.facts); name = cfgname(cfg)
    v, dead, pend = w.attempt(cls, *s.data, s.V, **a)
    loc = meth_loc(s, "__init__")
    cond = FALSE
    for i in range(cfg["n_data"]): cond = or_(cond, outside_term(s, [sel("X", num(i)), sel("Y", num(i))]))
    decide_raise(r, s, "outside raises", name + ": constructor", pend, cond, base, loc)
    if dead: return r.undecided("outside raises", name, "constructor never completes")
    s.obj = v; s.I.setfacts(tuple(base)); loc = exec_loc(s); s.loc = loc
    for st in ("points", "grid", "masked"):
        for be in ("vectorized", "loop"):
            pend0 = s.I.pend; s.I.pend = []
            try:
                try: s.execute(style=st, backend=be)
                except Dead: pass
            finally: pend = s.I.pend; s.I.pend = pend0; s.I.setfacts(tuple(base))
            o = outside_term(s, [sel("XP", ZERO), sel("YP", ZERO)])
            if st == "masked": o = and_(o, not_(truth(sel("MASK", ZERO, ZERO))))
            decide_raise(r, s, "outside raises", "%s: execute %s %s" % (name, st, be), pend, o, base, loc)
def jobs(tier):
    out = []
    for be in ("vectorized", "loop"):
        for tr in (False, True):
            for st in ("points", "grid"):
                c = dict(cls="uk", drift=[("ext",)], backend=be, style=st, tr=tr); out.append((cfgname(c), values, (c,)))
            c = dict(cls="uk", drift=[("ext",)], backend=be, style="points", tr=tr, tag="nodes"); out.append((cfgname(c), nodes, (c,)))
        for asc in (True, False):
            c = dict(cls="uk", drift=[("ext",)], backend=be, style="masked", asc=asc); out.append((cfgname(c) + ":asc=%s" % asc, values, (c,)))
        c = dict(cls="uk", drift=[("rl",), ("ext",), ("fun", 1)], backend=be, style="points", vm="linear"); out.append((cfgname(c), values, (c,)))
    for tr in (False, True):
        c = dict(cls="uk", drift=[("ext",)], n_data=3, n_pts=1, tr=tr); out.append(("range:" + cfgname(c), range_, (c,)))
    return out
