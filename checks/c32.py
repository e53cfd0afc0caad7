"""C32: core kriging needs only numpy and scipy, works without compiled code."""
from effects import *
EXPLANATION = (HOW + "the package is analysed in worlds where every import outside the standard library, numpy and scipy fails, where single optional packages are absent, and where the compiled extension is absent or broken: import, "
    "construction, update and execution of the four classes must complete with the documented results, and the features needing the absent package must raise the documented error on every path; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
EXT = ("pykrige.lib.cok", "pykrige.lib.variogram_models")
CORE = {"numpy", "scipy", "pykrige"}
def world_flags(what):
    if what == "numpy and scipy only": return dict(missing=EXT, only=CORE)
    if what == "compiled extension absent": return dict(missing=EXT)
    if what == "compiled extension broken": return dict(missing=EXT, missing_as="ImportError")
    if what.endswith(" broken"): return dict(missing=(what.split()[0],), missing_as="ImportError")
    return dict(missing=(what,))
def imports(r, what):
    w = World(r, load=None, **world_flags(what))
    for m in ("pykrige", "pykrige.ok", "pykrige.uk", "pykrige.ok3d", "pykrige.uk3d", "pykrige.core", "pykrige.compat", "pykrige.compat_gstools", "pykrige.kriging_tools", "pykrige.variogram_models"):
        v, dead, pend = w.attempt(Model("import", lambda it, args, kw, node: it.do_import(m, None), callable=True))
        if dead:
            a = pend[-1]
            r.bad("import", "%s: import %s raises %s %s" % (what, m, exc_names(a.val)[0], tuple(map(str, a.val.args))), a.loc); return
        r.ok("import", "%s: import %s" % (what, m))
    ms = w.I.load("pykrige")
    for c in ("OrdinaryKriging", "UniversalKriging", "OrdinaryKriging3D", "UniversalKriging3D", "kt"):
        r.check(not isinstance(w.I.modget(ms, c), type(UNDEF)), "import", "%s: pykrige.%s" % (what, c), dict(file=ms.path, line=1, func="<module>"))
    if what in ("sklearn", "sklearn broken", "numpy and scipy only"):
        for m in ("pykrige.rk", "pykrige.ck"):
            rejects(r, w, "clear error", "%s: import %s" % (what, m), ["SklearnException"], Model("import", lambda it, args, kw, node: it.do_import(m, None), callable=True))
    elif what.split()[0] in ("gstools", "matplotlib"):
        for m in ("pykrige.rk", "pykrige.ck"): accepts(r, w, "import", "%s: import %s" % (what, m), Model("import", lambda it, args, kw, node: it.do_import(m, None), callable=True))
def works(r, what, cfg, runs):
    w = World(r, **world_flags(what))
    s = Sc(r, cfg, world=w); I = s.I
    s.construct(); name = "%s: %s" % (what, cfgname(cfg))
    for st, be in runs:
        p0 = len(I.pend)
        s.execute(style=st, backend=be); s.loc = exec_loc(s)
        nm = "%s execute(%s, %s)" % (name, st, be)
        if s.res is None or any(x is None for x in s.res): r.undecided("works", nm, "not resolved"); continue
        if not raises_on_valid(r, s, "works", nm, pend=I.pend[p0:]): continue
        compare_out(r, s, "same results", what=nm, trials=4)
        if st == "masked":
            ix, _ = s.pidx(); r.eq("same results", nm + ": mask", s.res[0].mask_at(ix), s.masked(ix), (), s.loc)
    u = dict(zip(ANISO[s.dim], s.scal + s.ang)); u["variogram_parameters"] = s.parlist
    if s.vm == "custom": u["variogram_function"] = s.gamma
    v, dead, pend = w.attempt(I.getattr(s.obj, "update_variogram_model"), s.vm, **u)
    if dead: r.bad("works", name + ": update_variogram_model raises %s" % exc_names(pend[-1].val)[0], pend[-1].loc)
    else: r.ok("works", name + ": update_variogram_model")
def fits(r, what, cls):
    w = World(r, **world_flags(what)); s = Sc(r, dict(cls=cls, vm="spherical", style="points"), world=w)
    v, dead, pend = w.attempt(Model("construct", lambda it, args, kw, node: s.construct(variogram_parameters=None), callable=True))
    if dead: r.bad("works", "%s: %s with automatic fitting raises %s" % (what, cls, exc_names(pend[-1].val)[0]), pend[-1].loc)
    else: r.ok("works", "%s: %s with automatic fitting" % (what, cls))
def gstools(r, cls, what):
    """a GSTools model without GSTools"""
    w = World(r, **world_flags(what)); s = Sc(r, dict(cls=cls, vm="linear"), world=w); s.cls = w.cls(*MODS[cls])
    m = gsmodel(s)
    rejects(r, w, "clear error", what + ": %s(variogram_model=<GSTools model>)" % MODS[cls][1], ["GSToolsException"], s.cls, *s.data, s.V, variogram_model=m, loc=meth_loc(s, "__init__"))
    s.obj = w.call(s.cls, *s.data, s.V, variogram_parameters=s.parlist)
    rejects(r, w, "clear error", what + ": %s.update_variogram_model(<GSTools model>)" % MODS[cls][1], ["GSToolsException"], s.I.getattr(s.obj, "update_variogram_model"), m, loc=meth_loc(s, "update_variogram_model"))
def jobs(tier):
    W = ("numpy and scipy only", "sklearn", "gstools", "matplotlib", "compiled extension absent", "compiled extension broken")
    out = [("import:" + x, imports, (x,)) for x in W + ("sklearn broken", "gstools broken", "matplotlib broken")]
    DR = {"uk": [("rl",), ("pl", 1), ("ext",), ("spec", 1), ("fun", 1)], "uk3d": [("rl",), ("spec", 1), ("fun", 1)]}
    for cls in MODS:
        out.append(("fit:" + cls, fits, (W[0], cls)))
        out += [(x + ":" + cls, gstools, (cls, x)) for x in ("gstools", "gstools broken")]
        c = dict(cls=cls, vm="custom", drift=DR.get(cls, []))
        out.append((W[0] + ":" + cfgname(c), works, (W[0], c, [("grid", "vectorized"), ("points", "loop")])))
    for x in (W[0], W[4], W[5]):
        for c in (dict(cls="ok", vm="linear"), dict(cls="ok", vm="exponential", win=True), dict(cls="ok", vm="custom", geo=True), dict(cls="ok", vm="linear", pinv="pinvh", exact=False)):
            st = (("grid", "C"), ("masked", "C"), ("points", "C")) if not c.get("win") else (("masked", "C"), ("points", "C"))
            out.append((x + ":" + cfgname(c), works, (x, c, st)))
    out.append((W[0] + ":windows:ok3d", works, (W[0], dict(cls="ok3d", vm="linear", win=True), [("points", "loop")])))
    out.append((W[0] + ":windows:ok:geo", works, (W[0], dict(cls="ok", vm="linear", geo=True, win=True), [("points", "loop")])))
    return out
