"""C15: every variogram name in every dispatch table."""
from scen import *
EXPLANATION = (HOW + "for each class and name the function bound by constructor and update is applied to symbolic parameters and distances and compared with the documented formula; "
    "unknown names must raise ValueError on every path; the compiled backend is followed through its own name table and its right-hand side compared with the Python model, "
    "and user functions (also ones named like a built-in model) must be refused or evaluated exactly; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
COMPILED = ("linear", "power", "gaussian", "spherical", "exponential")
def bound(r, s, vm, name, loc):
    f = s.w.attr(s.obj, "variogram_function")
    n = spec.NPAR[vm]
    P = [sym("b%d" % k, "R", nonneg=True, lo=ZERO) for k in range(n)]
    facts = [gt(P[1], ZERO)] if vm != "linear" else []
    m = sym("nd", "I", lo=ONE)
    d = s.I.newarr((m,), lambda ix: spec.nonneg_sel("DD", *ix), "float")
    base = s.I.S.facts
    s.I.assume(*facts)
    v = s.w.snap(s.w.call(f, s.w.lst(P), d))
    s.I.setfacts(base)
    if v is None or v.ndim != 1: return r.undecided("bound function", name, "not resolved")
    q = TM._index(m)
    r.eq("bound function", name + ": bound to the function of that model", v.at((q,)), spec.variogram(vm, P, spec.nonneg_sel("DD", q)), facts, loc, trials=10)
    mod = s.w.attr(s.obj, "variogram_model")
    if isinstance(mod, str): r.check(mod == vm, "model name", name, loc, dict(found=mod))
    else: r.undecided("model name", name, "not resolved")
def job(r, cls, vm):
    s = Sc(r, dict(cls=cls, vm=vm)); s.cls = s.w.cls(*MODS[cls])
    loc = meth_loc(s, "__init__")
    P = s.parlist
    o = accepts(r, s.w, "accepted", "%s accepts %s" % (cls, vm), s.cls, *s.data, s.V, variogram_model=vm, variogram_parameters=P, loc=loc)
    if o is None: return
    s.obj = o; bound(r, s, vm, "%s(%s)" % (cls, vm), loc)
    o = accepts(r, s.w, "accepted", "%s accepts %s for fitting" % (cls, vm), s.cls, *s.data, s.V, variogram_model=vm, loc=loc)
    if o is not None:
        s.obj = o; bound(r, s, vm, "%s(%s) fitted" % (cls, vm), loc)
        ev = [e for e in s.I.events if e["kind"] == "least_squares"]
        r.check(bool(ev) and len(ev[-1]["params"]) == spec.NPAR[vm], "fitted arity", "%s(%s)" % (cls, vm), loc)
    other = "linear" if vm != "linear" else "power"
    o = s.w.call(s.cls, *s.data, s.V, variogram_model=other, variogram_parameters=s.w.lst([sym("o%d" % k, "R", nonneg=True) for k in range(spec.NPAR[other])]))
    s.obj = o; loc = meth_loc(s, "update_variogram_model")
    for how, kw in (("given", dict(variogram_parameters=P)), ("fitted", {})):
        if accepts(r, s.w, "accepted", "%s.update_variogram_model accepts %s (%s)" % (cls, vm, how), s.I.getattr(o, "update_variogram_model"), vm, loc=loc, **kw) is not None:
            bound(r, s, vm, "%s.update_variogram_model(%s, %s)" % (cls, vm, how), loc)
BADNAMES = ("nosuch", "Linear", "LINEAR", "hole_effect", "hole", "", "linear ", "matern", "cubic", "linear_variogram_model", None, 3, True)
def badjob(r, cls):
    s = Sc(r, dict(cls=cls, vm="linear")); s.cls = s.w.cls(*MODS[cls])
    s.obj = s.w.call(s.cls, *s.data, s.V, variogram_model="linear", variogram_parameters=s.parlist)
    for nm in BADNAMES:
        v = num(nm) if isinstance(nm, int) and not isinstance(nm, bool) else nm
        for pn, kw in (("", {}), (" with parameters", dict(variogram_parameters=s.w.lst([ONE, ONE]))), (" with three parameters", dict(variogram_parameters=s.w.lst([ONE, ONE, ONE]))), (" with a function", dict(variogram_function=s.gamma, variogram_parameters=s.w.lst([ONE, ONE])))):
            rejects(r, s.w, "unknown names", "%s(%r)%s" % (cls, nm, pn), ["ValueError"], s.cls, *s.data, s.V, variogram_model=v, loc=meth_loc(s, "__init__"), **kw)
            rejects(r, s.w, "unknown names", "%s.update_variogram_model(%r)%s" % (cls, nm, pn), ["ValueError"], s.I.getattr(s.obj, "update_variogram_model"), v, loc=meth_loc(s, "update_variogram_model"), **kw)
    for fn_ in ((), (None,), (num(3),), ("linear",)):
        kw = dict(variogram_parameters=s.w.lst([ONE, ONE]))
        if fn_: kw["variogram_function"] = fn_[0]
        rejects(r, s.w, "custom needs a callable", "%s(custom, function %s)" % (cls, fn_), ["ValueError"], s.cls, *s.data, s.V, variogram_model="custom", loc=meth_loc(s, "__init__"), **kw)
        rejects(r, s.w, "custom needs a callable", "%s.update_variogram_model(custom, function %s)" % (cls, fn_), ["ValueError"], s.I.getattr(s.obj, "update_variogram_model"), "custom", loc=meth_loc(s, "update_variogram_model"), **kw)
def cjob(r, vm, win, fname=None):
    s = Sc(r, dict(cls="ok", vm=vm, style="points", win=win, backend="C"))
    if fname is not None: s.gamma.info["__name__"] = fname
    s.construct(); s.loc = exec_loc(s)
    name = "backend C %s%s%s" % (vm, " moving window" if win else "", " function named %r" % fname if fname else "")
    pend0 = s.I.pend; s.I.pend = []
    try:
        try: out = s.execute(); dead = False
        except Dead: dead = True
        pend = s.I.pend
    finally: s.I.pend = pend0
    if dead:
        a = [a for a in pend if a.kind == "raise"]
        if vm in COMPILED: r.bad("compiled model", name + ": refused although a compiled function exists", a[-1].loc if a else s.loc, dict(raises=exc_names(a[-1].val)[0] if a else None))
        else: r.ok("refused by the compiled backend", name)
        return
    if s.res is None or any(x is None for x in s.res): return r.undecided("compiled model", name, "not resolved: %s" % s.I.unsup[-2:])
    ix, _ = s.pidx()
    if not r.shape(name + ": result shape", s.res[0], s.shape, s.loc): return
    ez, ev = s.reference(ix)
    for got, want, nm in ((s.res[0], ez, "estimate"), (s.res[1], ev, "variance")):
        r.eq("compiled model", "%s: %s uses the variogram of the model" % (name, nm), got.at(ix), want, (), s.loc, trials=8)
def jobs(tier):
    out = []
    for cls in MODS:
        for vm in spec.NPAR: out.append(("%s:%s" % (cls, vm), job, (cls, vm)))
        out.append(("%s:unknown names" % cls, badjob, (cls,)))
    for vm in spec.NPAR:
        for win in (False, True): out.append(("C:%s:%s" % (vm, win), cjob, (vm, win)))
    for vm in COMPILED:
        for win in (False, True): out.append(("C:user function named as %s:%s" % (vm, win), cjob, ("custom", win, vm + "_variogram_model")))
    out.append(("C:user function", cjob, ("custom", False, "my_variogram")))
    return out
