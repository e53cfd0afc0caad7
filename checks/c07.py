"""C07: geographic models use great-circle distance everywhere and ignore anisotropy."""
from scen import *
import c17, c19
EXPLANATION = (HOW + "great_circle_distance is compared with the spherical arc; for geographic models constructed and updated with arbitrary anisotropy settings, the experimental variogram, "
    "the kriging matrix, the estimate and variance of every backend and window mode and the fit statistics are compared with the documented terms, in which no anisotropy occurs; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME + ["the nearest neighbours by arc and by chord coincide"]
def geogen():
    def lon(v, k): return mpf([-180, 180, 0, 359, -359, 10, 350, 90][h64(v.seed, "l", *map(str, k)) % 8]) if h64(v.seed, "c", *map(str, k)) % 3 == 0 else mpf(h64(v.seed, "lon", *map(str, k)) % 7200) / 10 - 360
    def lat(v, k): return mpf([90, -90, 0, 45, -45][h64(v.seed, "m", *map(str, k)) % 5]) if h64(v.seed, "d", *map(str, k)) % 5 == 0 else mpf(h64(v.seed, "lat", *map(str, k)) % 1801) / 10 - 90
    for n in ("X", "XP"): rinterp.ARR[n] = dict(gen=lon, redraw=True)
    for n in ("Y", "YP"): rinterp.ARR[n] = dict(gen=lat, redraw=True)
def gcjob(r, scalar):
    w = World(r); geogen()
    f = w.get("pykrige.core", "great_circle_distance")
    loc = dict(file=f.mod.path, func=f.name, line=f.node.lineno)
    n = sym("n", "I", lo=ONE)
    L1, B1, L2, B2 = [w.vec(a, n) for a in ("X", "Y", "XP", "YP")]
    q = TM._index(n)
    E = [sel(a, q) for a in ("X", "Y", "XP", "YP")]
    sc = [sel("X", num(7)), sel("Y", num(7))]
    for nm, args, want in (("array pairs", (L1, B1, L2, B2), E), ("scalar against array", (sc[0], sc[1], L2, B2), sc + E[2:]), ("array against scalar", (L1, B1, sc[0], sc[1]), E[:2] + sc)):
        v = w.snap(w.call(f, *args))
        if not r.shape("great_circle_distance " + nm, v, (n,), loc): continue
        r.eq("great circle", "great_circle_distance of %s is the spherical arc in degrees" % nm, v.at((q,)), spec.great_circle(want[:2], want[2:]), (), loc, trials=60)
        g = v.at((q,))
        arc = mul(div(num(180), PI), fn("arccos", add(mul(fn("sin", spec.rad(want[1])), fn("sin", spec.rad(want[3]))), mul(mul(fn("cos", spec.rad(want[1])), fn("cos", spec.rad(want[3]))), fn("cos", spec.rad(sub(want[0], want[2])))))))
        r.eq("great circle", "great_circle_distance of %s is the arc cosine law" % nm, g, arc, [not_(eq(want[0], want[2]))], loc, trials=20)
    v = w.call(f, *[sel(a, num(3)) for a in ("X", "Y", "XP", "YP")])
    v = w.I.resolve(v)
    if isinstance(v, Arr): v = w.snap(v).at(()) if w.snap(v).ndim == 0 else None
    if not isinstance(v, T): r.undecided("great circle", "scalars", "not resolved")
    else: r.eq("great circle", "great_circle_distance of scalars", v, spec.great_circle([sel("X", num(3)), sel("Y", num(3))], [sel("XP", num(3)), sel("YP", num(3))]), (), loc, trials=30)
def execjob(r, cfg, how):
    s = Sc(r, cfg); geogen()
    name = "%s %s" % (cfgname(cfg), how)
    if how == "ctor": s.construct()
    else:
        s.cls = s.w.cls(*MODS[cfg["cls"]])
        a = s.ctor_args(); a.update(variogram_model="linear", variogram_parameters=s.w.lst([num(2), num(F(1, 2))])); a.pop("variogram_function", None)
        s.obj = s.w.call(s.cls, *s.data, s.V, **a)
        u = dict(variogram_parameters=s.parlist, anisotropy_scaling=sym("s9", "R", nonneg=True), anisotropy_angle=sym("a9"))
        if s.vm == "custom": u["variogram_function"] = s.gamma
        s.w.meth(s.obj, "update_variogram_model", s.vm, **u)
    s.execute(); s.loc = exec_loc(s)
    if s.res is None or any(x is None for x in s.res): return r.undecided("result", name, "not resolved: %s" % s.I.unsup[-2:])
    for e in s.solves()[:1]:
        if e["mat"] is None or s.K is not None: continue
        i, j = TM._index(s.N, "i"), TM._index(s.N, "j")
        r.eq("matrix", name + ": great-circle distances in the kriging matrix", e["mat"].at((i, j)), s.A(("d", i), ("d", j)), (), e["loc"], trials=12)
    compare_out(r, s, "kriging result", what=name, trials=40 if cfg.get("win") else 10)
def configs(tier):
    out = []
    for st in ("points", "grid", "masked"):
        for be in ("vectorized", "loop", "C"): out.append(dict(cls="ok", vm="linear" if be == "C" else "custom", style=st, backend=be, geo=True))
    for be in ("loop", "C"): out.append(dict(cls="ok", vm="linear" if be == "C" else "custom", style="points", backend=be, geo=True, win=True, nspan=4))
    return out
def jobs(tier):
    out = [("great circle", gcjob, (0,))]
    for c in configs(tier):
        for how in ("ctor", "update"):
            if how == "update" and c["style"] != "points": continue
            out.append(("%s:%s" % (cfgname(c), how), execjob, (c, how)))
    g = dict(cls="ok", vm="linear", geo=True)
    for nl in (None, 6, 1): out.append(("variogram:%s" % nl, c17.job, (g, nl, "scatter")))
    out.append(("statistics", c19.job, (dict(g, vm="exponential", nspan=1), "ctor", False)))
    out.append(("statistics:update", c19.job, (dict(g, vm="exponential", nspan=1), "update", False)))
    return out
