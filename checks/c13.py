"""C13: no output and no plotting unless asked for."""
from effects import *
EXPLANATION = ("Interprocedural effect analysis from the constructor, execute, update_variogram_model and the get_* accessors of the four classes with the two flags off (their defaults, and again given explicitly), over all styles, backends, "
    "fitting, statistics and drift options: no call that writes to standard output and no import or call of matplotlib lies on any path, including paths that raise and module import. With the flags on, the results are "
    "compared with those of a silent model. Nothing of the repository is executed.")
ASSUMPTIONS = BASE_ASSUME + ["numpy and scipy do not print"]
def silent(r, s, b, what):
    ev = []
    for e in s.I.events[b:]:
        k = e["kind"]
        if k == "print":
            f = e.get("kw", {}).get("file")
            if f is None or (isinstance(f, Lib) and "stdout" in f.name): ev.append((e, "prints"))
        elif k == "plot": ev.append((e, "calls %s" % e["name"]))
        elif k == "import" and e["name"].split(".")[0] in ("matplotlib", "pylab"): ev.append((e, "imports %s" % e["name"]))
        elif k == "lib-call" and e["name"].startswith(("sys.stdout", "sys.__stdout__", "os.write", "os.system", "pprint", "subprocess")): ev.append((e, "calls %s" % e["name"]))
    for e, w in ev: r.bad("silent", "%s: %s" % (what, w), e["loc"])
    if not ev: r.ok("silent", what)
def job(r, cfg, fit, runs, explicit):
    s = Sc(r, cfg, stats=bool(cfg.get("stats"))); w = s.w; I = s.I
    if not explicit: silent(r, s, 0, "import pykrige")
    s.cls = w.cls(*MODS[cfg["cls"]])
    fl = dict(verbose=False, enable_plotting=False) if explicit else {}
    kw = dict(fl)
    if fit: kw["variogram_parameters"] = None
    if cfg.get("stats") and cfg["cls"] == "ok": kw["enable_statistics"] = True
    name = cfgname(cfg) + (" fitted" if fit else "") + (" flags given" if explicit else "")
    b = len(I.events); s.construct(**kw); silent(r, s, b, name + ": constructor")
    for st, be in runs:
        b = len(I.events); s.execute(style=st, backend=be); silent(r, s, b, "%s: execute(%s, %s)" % (name, st, be))
        if "uk" in cfg["cls"] and not any(d[0] == "spec" for d in s.drift):
            b = len(I.events); s.execute(style=st, backend=be, specified_drift_arrays=w.lst([w.mat("SP0", *s.shape)])); silent(r, s, b, "%s: execute(%s, %s) with unused drift arrays" % (name, st, be))
        if s.res is None: r.undecided("result", name, "not resolved")
    for a in ("get_variogram_points", "get_epsilon_residuals", "get_statistics"):
        try: f = I.getattr(s.obj, a)
        except Dead: continue
        b = len(I.events); w.attempt(f); silent(r, s, b, "%s: %s" % (name, a))
    u = dict(zip(ANISO[s.dim], s.scal + s.ang)); u["variogram_parameters"] = None if fit else s.parlist
    if s.vm == "custom": u["variogram_function"] = s.gamma
    b = len(I.events); w.meth(s.obj, "update_variogram_model", s.vm, **u); silent(r, s, b, name + ": update_variogram_model")
    u.update(zip(ANISO[s.dim], [sym("other_" + a, "R", nonneg=True) for a in ANISO[s.dim]]))
    b = len(I.events); w.meth(s.obj, "update_variogram_model", s.vm, **u); silent(r, s, b, name + ": update_variogram_model with new anisotropy")
def toggled(r, cfg):
    """switch_verbose and switch_plotting turn the output on and off again"""
    s = Sc(r, cfg); w = s.w; I = s.I
    s.construct(); name = cfgname(cfg)
    for m in ("switch_verbose", "switch_plotting"): w.meth(s.obj, m); w.meth(s.obj, m)
    b = len(I.events); s.execute(); silent(r, s, b, name + ": both flags switched on and off again")
def asked(r, cfg):
    """a flag that is set, or switched on, produces the output it stands for; switching one flag leaves the other alone"""
    s = Sc(r, cfg); w = s.w; I = s.I; name = cfgname(cfg)
    kinds = lambda b: {"plot" if e["kind"] == "plot" or e["kind"] == "import" and e["name"].startswith("matplotlib") else e["kind"] for e in I.events[b:]}
    def expect(what, b, prints, plots):
        k = kinds(b)
        r.check(("print" in k) == prints, "output when asked", "%s: %s: %s" % (name, what, "prints" if prints else "does not print"), meth_loc(s, "update_variogram_model"))
        r.check(("plot" in k) == plots, "output when asked", "%s: %s: %s" % (name, what, "plots" if plots else "does not plot"), meth_loc(s, "update_variogram_model"))
    b = len(I.events); s.construct(verbose=True); expect("constructor with verbose=True", b, True, False)
    b = len(I.events); s.construct(enable_plotting=True); expect("constructor with enable_plotting=True", b, False, True)
    s.construct()
    def upd():
        b = len(I.events); w.meth(s.obj, "update_variogram_model", "linear", s.parlist); return b
    expect("update with both flags off", upd(), False, False)
    w.meth(s.obj, "switch_verbose"); expect("update after switch_verbose", upd(), True, False)
    w.meth(s.obj, "switch_plotting"); expect("update after switch_verbose and switch_plotting", upd(), True, True)
    w.meth(s.obj, "switch_verbose"); expect("update after switching verbose off", upd(), False, True)
    w.meth(s.obj, "switch_plotting"); expect("update after switching both off", upd(), False, False)
    b = len(I.events); w.meth(s.obj, "display_variogram_model"); expect("display_variogram_model", b, False, True)
def same_results(r, cfg, fit, runs):
    """verbose and plotting influence the output only"""
    s = Sc(r, cfg, stats=fit); w = s.w; I = s.I
    kw = dict(variogram_parameters=None) if fit else {}
    name = cfgname(cfg) + (" fitted" if fit else "")
    o1 = s.construct(**kw)
    p0 = len(I.pend)
    o2 = s.construct(verbose=True, enable_plotting=True, **kw)
    loud = I.pend[p0:]
    for st, be in runs:
        s.obj = o1; R1 = s.execute(style=st, backend=be); s.loc = exec_loc(s)
        s.obj = o2; p0 = len(I.pend); R2 = s.execute(style=st, backend=be); loud += I.pend[p0:]
        if R1 is None or R2 is None or any(x is None for x in R1 + R2): r.undecided("result", name, "not resolved"); continue
        if not r.shape("%s %s %s: shape" % (name, st, be), R2[0], R1[0].shape, s.loc): continue
        ix, _ = s.pidx(); m = s.masked(ix); fs = [not_(m)] if m is not FALSE else []
        set_facts(add_facts((), fs))
        for k, nm in enumerate(("estimate", "variance")): r.eq("output does not influence results", "%s %s %s: %s" % (name, st, be, nm), R2[k].at(ix), R1[k].at(ix), fs, s.loc, trials=3)
        set_facts(())
    s.obj = o2
    u = dict(zip(ANISO[s.dim], [sym("other_" + a, "R", nonneg=True) for a in ANISO[s.dim]])); u["variogram_parameters"] = None if fit else s.parlist
    if s.vm == "custom": u["variogram_function"] = s.gamma
    v, dead, pend = w.attempt(I.getattr(s.obj, "update_variogram_model"), s.vm, **u)
    raises_on_valid(r, s, "output does not fail", name + " verbose", pend=loud + pend, loc=meth_loc(s, "update_variogram_model"))
    if dead: r.bad("output does not fail", name + ": update_variogram_model(verbose) always raises", meth_loc(s, "update_variogram_model"))
def jobs(tier):
    out = []
    def J(c, fit=False, runs=None, explicit=False):
        runs = runs or [(st, be) for st in ("grid", "masked", "points") for be in ("vectorized", "loop")]
        out.append(("%s%s%s" % (cfgname(c), ":fit" if fit else "", ":explicit" if explicit else ""), job, (c, fit, runs, explicit)))
    DR = {"uk": [("rl",), ("pl", 2), ("ext",), ("spec", 2), ("fun", 1)], "uk3d": [("rl",), ("spec", 2), ("fun", 1)]}
    C = [(st, "C") for st in ("grid", "masked", "points")]
    for cls in MODS:
        d = dict(drift=DR[cls]) if cls in DR else {}
        J(dict(cls=cls, vm="custom", **d)); J(dict(cls=cls, vm="spherical", exact=False, pinv="pinv"), explicit=True)
        J(dict(cls=cls, vm="linear", stats=True, tag="statistics"), fit=True, runs=[("points", "loop")], explicit=True)
        if d: J(dict(cls=cls, vm="linear", unb=False, drift=[("rl",)]), runs=[("masked", "vectorized"), ("points", "loop")])
        J(dict(cls=cls, vm="power"), fit=True, runs=[("points", "loop")])
        out.append(("toggled:" + cls, toggled, (dict(cls=cls, vm="linear", style="points"),)))
        out.append(("asked:" + cls, asked, (dict(cls=cls, vm="linear", style="points"),)))
        for vm in ("linear", "power", "gaussian", "custom") if not cls.endswith("3d") else ("linear", "gaussian"):
            c = dict(cls=cls, vm=vm, drift=DR.get(cls, []) if vm == "linear" else [])
            out.append(("loud:" + cfgname(c), same_results, (c, False, [("points", "vectorized"), ("masked", "loop")])))
        out.append(("loud:fit:" + cls, same_results, (dict(cls=cls, vm="exponential"), True, [("points", "vectorized")])))
    J(dict(cls="ok", vm="linear"), runs=C); J(dict(cls="ok", vm="spherical", win=True), runs=C + [(a, "loop") for a, _ in C])
    J(dict(cls="ok", vm="power", geo=True), runs=[("masked", "vectorized"), ("points", "loop")]); J(dict(cls="ok", vm="linear", geo=True, win=True), runs=[("grid", "loop")])
    J(dict(cls="ok3d", vm="linear", win=True), runs=[("grid", "loop"), ("masked", "loop")])
    out.append(("loud:geo", same_results, (dict(cls="ok", vm="linear", geo=True), False, [("points", "loop")])))
    return out
