"""C11: a rejected update_variogram_model leaves the model unchanged."""
from scen import *
from c10 import ATTRS, STATS, freeze, same_value, attr_or_none
from chk import _Undef_
EXPLANATION = (HOW + "a symbolic model receives every kind of invalid update, each combined with changed anisotropy and fit settings; on each path that raises, the model state and the kriging results in the state "
    "at the raise (after exception handlers and finally blocks) are compared with those before the call; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
def bad_updates(s):
    w = s.w
    P = lambda n: w.lst([sym("bad%d" % k, "R", nonneg=True) for k in range(n)])
    D = lambda *ks: s.I.newdict([(k, sym("bad_" + k, "R", nonneg=True)) for k in ks])
    g = Model("gamma2", lambda it, args, kw, node: it.np.emap(lambda x: ufn("gamma2", x), args[1], dtype="float"), callable=True)
    other = 2 if s.dim == 3 else 3
    out = [("unknown model name", "quadratic", dict(variogram_parameters=P(2))),
        ("custom model without function", "custom", dict(variogram_parameters=P(2))),
        ("custom model with a function that is not callable", "custom", dict(variogram_parameters=P(2), variogram_function="f")),
        ("custom model without parameters", "custom", dict(variogram_function=g)),
        ("custom model with dict parameters", "custom", dict(variogram_function=g, variogram_parameters=D("slope", "nugget"))),
        ("parameter list too short", "spherical", dict(variogram_parameters=P(2))),
        ("parameter list too long", "linear", dict(variogram_parameters=P(3))),
        ("dict without nugget", "power", dict(variogram_parameters=D("scale", "exponent"))),
        ("dict without range", "gaussian", dict(variogram_parameters=D("sill", "nugget"))),
        ("parameters of another type", "linear", dict(variogram_parameters="abc")),
        ("GSTools model of another dimension", gsmodel(s, other), {}),
        ("object that is not a CovModel", gsmodel(s, cov=False), {})]
    if not s.geo: out.append(("lat-lon GSTools model", gsmodel(s, latlon=True), {}))
    return out
def job(r, cfg, drop):
    s = Sc(r, cfg); w = s.w; I = s.I
    gs = cfg.get("gs")
    if gs:      # the model in use before the call comes from GSTools
        m = gsmodel(s, pre="old")
        s.cls = w.cls(*MODS[cfg["cls"]])
        a = s.ctor_args(); a.update(variogram_model=m); a.pop("variogram_function", None); a.pop("variogram_parameters", None)
        s.obj = w.call(s.cls, *s.data, s.V, **a)
    else: s.construct()
    loc = meth_loc(s, "update_variogram_model")
    s.execute(); R0 = s.res; s.loc = exec_loc(s)
    if R0 is None: return r.undecided("result", cfgname(cfg), "not resolved")
    attrs = [a for a in ATTRS if a not in STATS]
    before = {a: freeze(s, v) for a in attrs for v in [attr_or_none(s, s.obj, a)] if not isinstance(v, _Undef_)}
    S0 = I.S; env = I.S.env
    names = ANISO[s.dim]
    n = 0
    for what, model, kw in bad_updates(s):
        I.S = S0.copy(); I.S.env = env; I.setfacts(S0.facts)
        u = dict(kw)
        if not drop: u.update({a: sym("new" + a, "R", nonneg=True) for a in names}); u.update(nlags=num(3), weight=True)
        v, dead, pend = w.attempt(I.getattr(s.obj, "update_variogram_model"), model, **u)
        rs = [a for a in pend if a.kind == "raise" and not any("OpaqueError" in x for x in exc_names(a.val))]
        name = "%s: %s%s" % (cfgname(cfg), what, "" if drop else ", other anisotropy")
        if not rs: r.undecided("rejected", name, "no exception on any path"); continue
        for k, a in enumerate(rs):
            I.S = a.S.copy(); I.S.env = env; I.setfacts(a.S.facts)
            n += 1
            for at, was in before.items():
                now = attr_or_none(s, s.obj, at)
                if isinstance(now, _Undef_): r.bad("same state", "%s: %s removed" % (name, at), loc); continue
                same_value(r, s, "%s: %s" % (name, at), now, was, loc, sides=("after", "before"))
            if k: continue
            try: s.execute()
            except Dead: r.bad("same results", name + ": execute fails after the rejected update", loc); continue
            if s.res is None or any(x is None for x in s.res): r.undecided("same results", name, "not resolved"); continue
            if not r.shape(name + ": shape", s.res[0], R0[0].shape, loc): continue
            ix, _ = s.pidx()
            for j, nm in enumerate(("estimate", "variance")): r.eq("same results", "%s: %s" % (name, nm), s.res[j].at(ix), R0[j].at(ix), (), loc, trials=3)
    r.check(n > 0, "rejected", cfgname(cfg) + ": rejecting paths found", loc)
def jobs(tier):
    out = []
    base = [dict(cls="ok", style="points"), dict(cls="ok", style="points", geo=True, backend="loop", vm="spherical"), dict(cls="uk", style="points", drift=[("rl",), ("pl", 1)]),
        dict(cls="uk", style="points", drift=[("ext",), ("fun", 1)], backend="loop", vm="linear"), dict(cls="ok3d", style="points"), dict(cls="uk3d", style="points", drift=[("rl",)], vm="power"),
        dict(cls="ok", style="points", gs=True, tag="gstools before"), dict(cls="uk3d", style="points", gs=True, drift=[("rl",)], tag="gstools before")]
    for c in base:
        for drop in (False, True) if not c.get("gs") else (False,): out.append(("%s:%s" % (cfgname(c), "same anisotropy" if drop else "other anisotropy"), job, (c, drop)))
    return out
