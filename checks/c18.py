"""C18: automatic variogram fitting."""
from scen import *
EXPLANATION = (HOW + "the call of scipy.optimize.least_squares is intercepted: its residual function is abstractly evaluated on symbolic parameters and compared with the "
    "documented residual, its bounds, starting point and loss with the documented ones, and its result with the parameters the model goes on to use; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME + ["scipy.optimize.least_squares honours its documentation", "the experimental semivariogram has bins at more than one distance"]
SLOT = {"linear": ("slope", "nugget"), "power": ("scale", "exponent", "nugget")}
def job(r, cfg, weight, how):
    s = Sc(r, cfg); vm = s.vm
    kw = dict(weight=weight) if weight is not None else {}
    if cfg.get("nlags"): kw["nlags"] = sym("NL", "I", lo=ONE)
    if how == "ctor": s.construct(variogram_parameters=None, **kw)
    else:
        first = "spherical" if vm == "linear" else "linear"
        s.vm = first
        a = s.ctor_args(); a["variogram_model"] = first
        a["variogram_parameters"] = s.w.lst([sym("q%d" % k, "R", nonneg=True) for k in range(spec.NPAR[first])])
        s.cls = s.w.cls(*MODS[cfg["cls"]])
        s.obj = s.w.call(s.cls, *s.data, s.V, **a)
        s.vm = vm
        r.check(not [e for e in s.I.events if e["kind"] == "least_squares"], "no fit with given parameters", cfgname(cfg) + ": construction", meth_loc(s, "__init__"))
        names = ("anisotropy_scaling", "anisotropy_angle") if s.dim == 2 else ("anisotropy_scaling_y", "anisotropy_scaling_z", "anisotropy_angle_x", "anisotropy_angle_y", "anisotropy_angle_z")
        s.w.meth(s.obj, "update_variogram_model", vm, **dict(zip(names, s.scal + s.ang)), **kw)
    name = "%s weight=%s %s" % (cfgname(cfg), weight, how)
    loc = meth_loc(s, "__init__" if how == "ctor" else "update_variogram_model")
    evs = [e for e in s.I.events if e["kind"] == "least_squares"]
    if not evs:
        if s.I.unsup: r.undecided("fit", name, s.I.unsup[-1])
        else: r.undecided("fit", name, "no call of scipy.optimize.least_squares found")
        return
    e = evs[-1]; loc = e["loc"]
    n = spec.NPAR[vm]; slots = SLOT.get(vm, ("psill", "range", "nugget"))
    if not r.check(len(e["params"]) == n, "parameters", "%s: the fit has the %d parameters of the model" % (name, n), loc, dict(found=len(e["params"]))): return
    L, S = [s.w.snap(s.w.attr(s.obj, a)) for a in ("lags", "semivariance")]
    rs = e["resid"]
    if L is None or S is None or rs is None: return r.undecided("residual", name, "not resolved")
    d = L.shape[0]
    if rs.ndim != 1 or not dim_eq(rs.shape[0], d): return r.undecided("residual", name, "residual has another shape than the lags")
    set_facts(())
    with nofacts():
        nb = dsize(d)
        q = dfresh(d)
        mx = lambda A: over(d, "amax", lambda i: A.at((i,)))
        mn = lambda A: over(d, "amin", lambda i: A.at((i,)))
        ps = e["params"]
        facts = [lt(mn(L), mx(L)), gt(ps[1], ZERO)]
        if isinstance(d, FDim): facts.append(d.pred(q))
        want = sub(spec.variogram(vm, ps, L.at((q,))), S.at((q,)))
        if weight:
            drange = sub(mx(L), mn(L))
            k = div(num(F(21972, 10000)), scale(drange, F(1, 10))); x0 = add(scale(drange, F(7, 10)), mn(L))
            wt = lambda i: div(ONE, add(ONE, fn("exp", neg(mul(k, sub(x0, L.at((i,))))))))
            want = div(mul(want, wt(q)), over(d, "sum", wt))
        r.eq("residual", "%s: (model - semivariance)%s" % (name, " times the normalised logistic weight" if weight else ""), power(rs.at((q,)), 2), power(want, 2), facts, loc, trials=6)
        r.check(e["loss"] == "soft_l1", "loss", name + ": soft L1 norm", loc, dict(found=str(e["loss"]))) if isinstance(e["loss"], str) else r.undecided("loss", name, "not resolved")
        if e["lo"] is None: r.bad("bounds", name + ": bounds are given", loc); return
        for j, sl in enumerate(slots):
            lo, hi, x0 = e["lo"][j], e["hi"][j], e["x0"][j]
            if sl == "exponent":
                if not (is_num(lo) and is_num(hi)): r.undecided("bounds", name + ": exponent", "not literal"); continue
                r.check(0 < numval(lo) <= F(1, 10) and F(19, 10) <= numval(hi) < 2, "bounds", name + ": exponent strictly between 0 and 2", loc, dict(lo=show(lo), hi=show(hi)))
            else:
                r.eq("bounds", "%s: %s is non-negative" % (name, sl), lo, ZERO, facts, loc, trials=4)
                if sl == "nugget": r.eq("bounds", name + ": nugget at most the largest semivariance", hi, mx(S), facts, loc, trials=6)
                elif sl == "range": r.eq("bounds", name + ": range at most the largest lag", hi, mx(L), facts, loc, trials=6)
                elif is_num(hi) or hi is INF: r.check(hi is INF, "bounds", "%s: %s is not bounded by a constant" % (name, sl), loc, dict(hi=show(hi)))
                else: r.eq("bounds", "%s: %s may reach the largest semivariance" % (name, sl), num_of_bool(ge(hi, mx(S) if sl == "psill" else ZERO)), ONE, facts, loc, trials=6)
            r.eq("starting point", "%s: start of %s lies within its bounds" % (name, sl), num_of_bool(and_(le(lo, x0), le(x0, hi))), ONE, facts, loc, trials=8)
    p = s.w.attr(s.obj, "variogram_model_parameters")
    sp = s.w.snap(p) if isinstance(p, Arr) else None
    its = [sp.at((num(k),)) for k in range(n)] if sp is not None and sp.ndim == 1 and sp.shape[0] is num(n) else s.I.items(p)
    if its is None or len(its) != n or any(not isinstance(t, T) for t in its): return r.undecided("fitted parameters", name, "not resolved")
    out = e["out"].get("res")
    for k in range(n): r.eq("fitted parameters", "%s: the model uses the fitted %s" % (name, slots[k]), its[k], out[k], (), loc)
def jobs(tier):
    out = []
    for vm in spec.NPAR:
        for w in (None, False, True):
            for how in ("ctor", "update"):
                if w is None and how == "ctor" and vm != "linear": continue
                c = dict(cls="ok", vm=vm); out.append(("%s:%s:%s" % (cfgname(c), w, how), job, (c, w, how)))
    for cls, vm in (("ok3d", "gaussian"), ("uk", "power"), ("uk3d", "spherical"), ("ok3d", "linear")):
        for w in (False, True):
            for how in ("ctor", "update"):
                c = dict(cls=cls, vm=vm); out.append(("%s:%s:%s" % (cfgname(c), w, how), job, (c, w, how)))
    for vm in spec.NPAR:
        c = dict(cls="ok", vm=vm, nlags=True, tag="any number of lags"); out.append((cfgname(c) + ":True:ctor", job, (c, vm != "spherical", "ctor")))
    c = dict(cls="ok", vm="exponential", geo=True); out.append((cfgname(c) + ":False:ctor", job, (c, False, "ctor")))
    return out
