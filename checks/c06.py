"""C06: anisotropy transformation."""
from scen import *
EXPLANATION = (HOW + "the adjusted coordinates computed by the transformation, and the results of all classes with general anisotropy (data, points of float and integer type, point-drift "
    "locations, every style), are compared with centre-rotate-stretch about the midpoint of the data range; effect rule: the transformation stores into none of its arguments; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
def fjob(r, dim, dtype):
    w = World(r)
    f = w.get("pykrige.core", "_adjust_for_anisotropy")
    loc = dict(file=f.mod.path, func=f.name, line=f.node.lineno)
    n = sym("n", "I", lo=ONE)
    X = w.mat("X", n, num(dim), dtype=dtype, sort="I" if dtype == "int" else "R")
    c = [sym("c%d" % k) for k in range(dim)]; sc = [sym("s%d" % k) for k in range(dim - 1)]; an = [sym("a%d" % k) for k in range(2 * dim - 3)]
    name = "%dD, %s coordinates" % (dim, dtype)
    v, dead, ab = w.attempt(f, X, w.lst(c, "center"), w.lst(sc, "scaling"), w.lst(an, "angle"))
    if dead: return r.bad("accepted", name + " are refused", ab[0].loc if ab else loc)
    s = w.snap(v)
    if not r.shape(name, s, (n, num(dim)), loc): return
    i = TM._index(n)
    want = spec.anis([sel("X", i, num(k), sort="I" if dtype == "int" else "R") for k in range(dim)], c, sc, an)
    for k in range(dim): r.eq("transformation", "%s: coordinate %d" % (name, k), s.at((i, num(k))), want[k], (), loc, trials=12)
    muts = [e for e in w.I.events if e["kind"] == "mutate" and e.get("input")]
    r.check(not muts, "arguments unmodified", name, muts[0]["loc"] if muts else loc)
def job(r, cfg):
    s = Sc(r, cfg)
    s.construct(); s.execute(); s.loc = exec_loc(s)
    if s.res is None or any(x is None for x in s.res): return r.undecided("transformation used", cfgname(cfg), "result not resolved: %s" % s.I.unsup[-2:])
    compare_out(r, s, "transformation used", trials=8, var=False)
def attrs(r, cls, integer):
    """public adjusted-coordinate attributes"""
    s = Sc(r, dict(cls=cls))
    if integer:
        s.data = [s.I.newarr((s.N,), lambda ix, n=n: sel(n, *ix), "int") for n in s.names]
    s.construct()
    loc = dict(file=s.cls.mod.path, func=s.cls.name + ".__init__", line=s.cls.node.lineno)
    i = TM._index(s.N); a = s.adj(i)
    for k, n in enumerate(s.names):
        try: v = s.w.attr(s.obj, n + "_ADJUSTED")
        except Dead: continue
        sn = s.w.snap(v)
        if not r.shape("%s: %s_ADJUSTED" % (cls, n), sn, (s.N,), loc): continue
        r.eq("data coordinates", "%s: %s_ADJUSTED" % (cls, n), sn.at((i,)), a[k], (), loc, trials=12)
def jobs(tier):
    out = [("function:%dD:%s" % (d, t), fjob, (d, t)) for d in (2, 3) for t in ("float", "int")]
    out += [("attributes:" + c, attrs, (c, False)) for c in ("ok", "uk", "ok3d", "uk3d")]
    cf = []
    for cls in ("ok", "uk", "ok3d", "uk3d"):
        for st in ("grid", "points", "masked"):
            cf.append(dict(cls=cls, style=st, backend="loop" if st == "points" else "vectorized"))
        cf.append(dict(cls=cls, style="points", intpts=True, tag="intpoints")); cf.append(dict(cls=cls, style="grid", intpts=True, tag="intpoints"))
    cf += [dict(cls="uk", drift=[("pl", 2)], style="points", backend=b) for b in ("vectorized", "loop")]
    cf += [dict(cls="uk", drift=[("rl",), ("fun", 1)]), dict(cls="uk3d", drift=[("rl",), ("fun", 1)]), dict(cls="ok", vm="linear", backend="C"), dict(cls="ok", vm="linear", backend="C", intpts=True, tag="intpoints"),
           dict(cls="ok", win=True, backend="loop", style="points"), dict(cls="ok3d", win=True, backend="loop", style="points")]
    return out + [(cfgname(c), job, (c,)) for c in cf]
