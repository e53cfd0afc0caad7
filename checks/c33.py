"""C33: results depend only on the inputs."""
from effects import *
EXPLANATION = ("Interprocedural effect and purity analysis from construction, update and execution of the four classes, in every style, backend, window, drift and fitting configuration (Python AST and Cython source): no path reads randomness, a "
    "clock, the environment, object identities or unordered containers, none writes module, class or function state, uninitialised memory never reaches a result, and the results of a model are the same terms "
    "whether or not other models were built, updated and executed before and in between. Nothing of the repository is executed.")
ASSUMPTIONS = BASE_ASSUME + ["user-supplied callables are pure", "numpy/scipy routines are deterministic functions of their arguments"]
IMPURE = ("random", "numpy.random", "time", "datetime", "os.environ", "os.getenv", "os.urandom", "os.getpid", "secrets", "uuid", "threading", "tempfile", "socket", "scipy.stats.qmc", "gc", "platform", "locale", "sys.getrefcount")
def pure(r, s, ev, what):
    bad = []; sh = shared(s.I)
    for e in s.I.events[ev:]:
        k = e["kind"]
        if k == "impure":
            if e["name"] == "functools.lru_cache": continue
            bad.append((e, "uses %s" % e["name"]))
        elif k == "global-write": bad.append((e, "writes %s" % e["name"]))
        elif k == "mutate" and ev and e.get("oid") in sh: bad.append((e, "modifies %s" % sh[e["oid"]]))
        elif k == "lib-call" and e["name"].startswith(tuple(x + "." for x in IMPURE)): bad.append((e, "uses %s" % e["name"]))
    for e, w in bad: r.bad("pure", "%s: %s" % (what, w), e["loc"])
    if not bad: r.ok("pure", what)
def globals_unchanged(r, s, b, what, loc):
    """module, class and shared objects existing before the call are unchanged"""
    own = set()
    unchanged(r, s, b, what, [("class", s.cls)], loc, allow=owned_by(b, s))
def owned_by(b, s):
    I = s.I; S = I.S; I.S = I.S.copy(); I.S.heap = dict(b.heap)
    try: return set(reach(I, s.obj)) if hasattr(s, "obj") else set()
    finally: I.S = S
def defined(r, s, what, loc):
    """no uninitialised memory in the results"""
    if s.res is None or any(x is None for x in s.res): return r.undecided("defined", what, "not resolved")
    ix, _ = s.pidx(); m = s.masked(ix)
    set_facts(add_facts((), [not_(m)] if m is not FALSE else []))
    for k, q in enumerate(("estimate", "variance")):
        t = s.res[k].at(ix); u = TM.rename_fns(t, lambda n: n.startswith(("garbage:", "uninit")), lambda n: str(n) + "'")
        if u is t: r.ok("defined", "%s: no uninitialised memory in %s" % (what, q))
        else: r.eq("defined", "%s: uninitialised memory does not influence %s" % (what, q), t, u, Ctx.facts, loc, trials=4)
    set_facts(())
def same(r, s, name, st, be, res, shape, nm):
    if res is None or s.res is None or any(x is None for x in list(res) + s.res): return r.undecided("independent", name, "not resolved")
    if not r.shape("%s: shape" % name, s.res[0], shape, s.loc): return
    ix, _ = s.pidx(); m = s.masked(ix); fs = [not_(m)] if m is not FALSE else []
    set_facts(add_facts((), fs))
    for k, q in enumerate(("estimate", "variance")): r.eq("independent", "%s: execute(%s, %s): %s of %s" % (name, st, be, q, nm), s.res[k].at(ix), res[k].at(ix), fs, s.loc, trials=4)
    set_facts(())
def job(r, cfg, fit, runs):
    """one model alone, then the same model after and between uses of other models of every class"""
    s = Sc(r, cfg, stats=bool(cfg.get("stats"))); w = s.w; I = s.I
    name = cfgname(cfg) + (" fitted" if fit else "")
    pure(r, s, 0, "import pykrige")
    s.cls = w.cls(*MODS[cfg["cls"]])
    over = dict(variogram_parameters=None) if fit else {}
    if cfg.get("stats") and cfg["cls"] == "ok": over["enable_statistics"] = True
    b = Before(I); s.construct(**over); loc = meth_loc(s, "__init__"); pure(r, s, b.ev, name + ": constructor"); globals_unchanged(r, s, b, name + ": constructor", loc)
    o1 = s.obj; first = []
    for st, be in runs:
        b = Before(I); s.execute(style=st, backend=be); s.loc = exec_loc(s)
        pure(r, s, b.ev, "%s: execute(%s, %s)" % (name, st, be)); globals_unchanged(r, s, b, "%s: execute(%s, %s)" % (name, st, be), s.loc)
        defined(r, s, "%s: execute(%s, %s)" % (name, st, be), s.loc)
        first.append((s.res, s.shape, st))
    # the same model at other points, mask and drift values of the same shapes, and with another window
    s.alt = "b"; second = []
    for st, be in runs:
        s.execute(style=st, backend=be); s.loc = exec_loc(s); second.append((s.res, s.shape))
    s.alt = ""
    if s.K is not None:
        s.K2 = sym("K2", "I", lo=num(2), hi=s.N); I.assume(le(s.K2, s.N))
        s.execute(style=runs[0][0], backend=runs[0][1]); s.K2 = None
    u = dict(zip(ANISO[s.dim], s.scal + s.ang)); u["variogram_parameters"] = None if fit else s.parlist
    # another model of the class, with other settings, on other data, used in between
    other = Sc.__new__(Sc); other.__dict__.update(s.__dict__)
    M_ = sym("NO", "I", lo=num(3)); TM.SYMINFO.setdefault(M_, {})["span"] = 1
    ocls = s.cls
    od = [w.vec("O" + n, M_) for n in s.names]; ov = w.vec("OV", M_)
    b = Before(I)
    o2 = w.call(ocls, *od, ov, variogram_model="power", variogram_parameters=w.lst([sym("h%d" % k, "R", nonneg=True) for k in range(3)]), exact_values=not s.exact)
    pts = [w.vec("OP" + n, num(2)) for n in s.names]
    w.meth(o2, "execute", "points", *pts, backend=runs[0][1])
    w.meth(o2, "update_variogram_model", "gaussian", variogram_parameters=w.lst([sym("k%d" % k, "R", nonneg=True) for k in range(3)]))
    w.meth(o2, "execute", "points", *pts, backend=runs[0][1])
    b = Before(I)
    if s.vm == "custom": u["variogram_function"] = s.gamma
    I.flags["set_order"] = "reversed"          # unordered containers: any other iteration order must give the same result
    o3 = s.construct(**over)
    s.alt = "b"
    for (st, be), (res, shape) in zip(runs, second):
        s.execute(style=st, backend=be); same(r, s, name, st, be, res, shape, "a model that was executed at other points before")
    s.alt = ""
    for (st, be), (res, shape, _) in zip(runs, first):
        for o, nm in ((o1, "the same model again"), (o3, "an equal model built later")):
            s.obj = o; s.execute(style=st, backend=be); same(r, s, name, st, be, res, shape, nm)
    s.obj = o1; b = Before(I)
    w.meth(s.obj, "update_variogram_model", s.vm, **u)
    pure(r, s, b.ev, name + ": update_variogram_model"); globals_unchanged(r, s, b, name + ": update_variogram_model", meth_loc(s, "update_variogram_model"))
def jobs(tier):
    out = []
    def J(c, fit=False, runs=None):
        runs = runs or [("masked", "vectorized"), ("points", "loop")]
        out.append(("%s%s" % (cfgname(c), ":fit" if fit else ""), job, (c, fit, runs)))
    DR = {"uk": [("rl",), ("pl", 2), ("ext",), ("spec", 2), ("fun", 1)], "uk3d": [("rl",), ("spec", 2), ("fun", 1)]}
    C = [(st, "C") for st in ("grid", "masked", "points")]
    for cls in MODS:
        d = dict(drift=DR[cls]) if cls in DR else {}
        J(dict(cls=cls, vm="custom", **d)); J(dict(cls=cls, vm="spherical"), runs=[("grid", "loop"), ("grid", "vectorized")])
        J(dict(cls=cls, vm="linear", stats=True, tag="statistics"), fit=True, runs=[("points", "vectorized")])
        J(dict(cls=cls, vm="power", pinv="pinv", exact=False))
    J(dict(cls="ok", vm="linear"), runs=C); J(dict(cls="ok", vm="exponential", win=True), runs=C[1:] + [("points", "loop")])
    J(dict(cls="ok", vm="gaussian", geo=True), runs=[("masked", "vectorized"), ("points", "loop")]); J(dict(cls="ok", vm="linear", geo=True, win=True), runs=[("points", "loop")])
    J(dict(cls="ok3d", vm="linear", win=True), runs=[("points", "loop")])
    J(dict(cls="ok", vm="linear", geo=True, stats=True), fit=True, runs=[("points", "loop")])
    return out
