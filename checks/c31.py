"""C31: drift inputs are matched to data and grid by shape and order."""
from scen import *
from itertools import combinations
EXPLANATION = (HOW + "every subset of drift terms is requested while all drift inputs are supplied, and the solved system is compared with the documented one built from exactly the requested terms; direct and transposed "
    "specified arrays, wells on data and prediction points, and all malformed drift inputs (which must raise on every path) are analysed the same way; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
NAMES = {"rl": "regional_linear", "pl": "point_log", "ext": "external_Z", "spec": "specified", "fun": "functional"}
ALL = {"uk": [("rl",), ("pl", 1), ("ext",), ("spec", 2), ("fun", 1)], "uk3d": [("rl",), ("spec", 2), ("fun", 2)]}
def system(r, s, name, full):
    evs = s.solves()
    if not evs or any(e["mat"] is None for e in evs): return r.undecided("system", name, "no linear solve found")
    size = s.size(); xs = s.extra(); nm = [d[0] for d in s.drifts()] + ["unbiasedness"]
    for e in evs:
        mat, loc = e["mat"], e["loc"]
        if not r.shape(name + ": one row per data point and requested drift term", mat, (size, size), loc): return
        i = TM._index(s.N, "i")
        for k, x in enumerate(xs):
            p = add(s.N, num(k))
            r.eq("requested terms", "%s: column of %s" % (name, nm[k]), mat.at((i, p)), s.A(("d", i), x), (), loc, trials=6)
    mat = evs[0]["mat"]
    compare_out(r, s, "right-hand side", lambda p, q: mat.at((p, q)), what=name, var=full, trials=4)
def subset(r, cls, kinds, order, backend, style):
    cfg = dict(cls=cls, drift=ALL[cls], backend=backend, style=style)
    s = Sc(r, cfg); s.cls = s.w.cls(*MODS[cls])
    kw = s.ctor_args()
    names = [NAMES[k] for k in kinds]
    if order: names.reverse()
    kw["drift_terms"] = s.w.lst(names, "drift_terms")
    s.obj = s.w.call(s.cls, *s.data, s.V, **kw)
    s.drift = [d for d in ALL[cls] if d[0] in kinds]
    s.execute(); s.loc = exec_loc(s)
    name = "%s drift_terms=%s" % (cls, names)
    if s.res is None or any(x is None for x in s.res): return r.undecided("result", name, "not resolved")
    system(r, s, name, False)
def matched(r, cfg):
    s = run_exec(r, cfg)
    if s is None: return
    system(r, s, cfgname(cfg), True)
def rejections(r, cls):
    three = cls == "uk3d"
    s = Sc(r, dict(cls=cls, vm="linear")); w = s.w; s.cls = w.cls(*MODS[cls]); loc = meth_loc(s, "__init__")
    N = s.N
    def ctor(what, allowed, terms, **kw):
        rejects(r, w, "drift inputs", "%s(%s): %s" % (MODS[cls][1], ", ".join(terms), what), allowed, s.cls, *s.data, s.V, variogram_parameters=s.parlist, drift_terms=w.lst(list(terms)), loc=loc, **kw)
    V, T_ = ["ValueError"], ["TypeError"]
    L = lambda *x: w.lst(list(x))
    f = Model("drift", lambda it, args, kw, node: it.np.emap(lambda *xs: ufn("drift", *xs), *args, dtype="float"), callable=True)
    sd = lambda nm, n: w.vec(nm, n)
    ctor("no arrays", V + T_, ["specified"]); ctor("an array instead of a list", T_, ["specified"], specified_drift=sd("SD", N))
    ctor("a tuple of arrays", T_, ["specified"], specified_drift=w.lst([sd("SD", N)], kind="tuple")); ctor("an empty list", V, ["specified"], specified_drift=L())
    ctor("array longer than the data", V, ["specified"], specified_drift=L(sd("SD", add(N, ONE)))); ctor("array shorter than the data", V, ["specified"], specified_drift=L(sd("SD", sub(N, ONE))))
    ctor("second array longer than the data", V, ["specified"], specified_drift=L(sd("SD", N), sd("SE", add(N, ONE)))); ctor("first array shorter than the data", V, ["specified", "regional_linear"], specified_drift=L(sd("SD", sub(N, ONE)), sd("SE", N)))
    ctor("no functions", V + T_, ["functional"]); ctor("a function instead of a list", T_, ["functional"], functional_drift=f)
    ctor("a tuple of functions", T_, ["functional"], functional_drift=w.lst([f], kind="tuple")); ctor("an empty list", V, ["functional"], functional_drift=L())
    ctor("an empty list beside another term", V, ["regional_linear", "functional"], functional_drift=L())
    if not three:
        ctor("no locations", V, ["point_log"])
        E = lambda a, b: w.mat("E", num(a), num(b)); ax = lambda n, k: w.vec(n, num(k))
        ctor("no grid", V, ["external_Z"]); ctor("no grid but axes", V, ["external_Z"], external_drift_x=ax("EX", 3), external_drift_y=ax("EY", 4))
        ctor("no axes", V, ["external_Z"], external_drift=E(4, 3)); ctor("no x axis", V, ["external_Z"], external_drift=E(4, 3), external_drift_y=ax("EY", 4)); ctor("no y axis", V, ["external_Z"], external_drift=E(4, 3), external_drift_x=ax("EX", 3))
        for a in (2, 3, 4, 5):
            for b in (2, 3, 4, 5):
                if (a, b) not in ((4, 3), (3, 4)): ctor("grid of shape (%d, %d) with 3 x- and 4 y-coordinates" % (a, b), V, ["external_Z"], external_drift=E(a, b), external_drift_x=ax("EX", 3), external_drift_y=ax("EY", 4))
    # at execution
    d = dict(specified_drift=L(sd("SD", N), sd("SE", N)), drift_terms=L("specified"))
    s.obj = w.call(s.cls, *s.data, s.V, variogram_parameters=s.parlist, **d); loc = exec_loc(s)
    n = (num(3), num(4), num(5))[:s.dim]
    axes = [w.vec(a, k) for a, k in zip(("XP", "YP", "ZP"), n)]; pts = [w.vec(a, num(3)) for a in ("XP", "YP", "ZP")[:s.dim]]
    shape = tuple(reversed(n))
    def ex(what, allowed, style, arrs, be="vectorized"):
        kw = dict(mask=w.boolmat("MASK", *shape)) if style == "masked" else {}
        if arrs is not None: kw["specified_drift_arrays"] = arrs
        rejects(r, w, "drift inputs", "%s.execute(%s, %s): %s" % (MODS[cls][1], style, be, what), allowed, s.I.getattr(s.obj, "execute"), style, *(pts if style == "points" else axes), backend=be, loc=loc, **kw)
    A = lambda nm, *sh: w.mat(nm, *sh)
    for style in ("grid", "masked", "points"):
        sh = shape if style != "points" else (num(3),)
        ok_ = lambda nm: A(nm, *sh)
        ex("no arrays", V, style, None); ex("empty list", V, style, L())
        ex("tuple", T_, style, w.lst([ok_("SP"), ok_("SQ")], kind="tuple"))
        ex("one array for two terms", V, style, L(ok_("SP"))); ex("three arrays for two terms", V, style, L(ok_("SP"), ok_("SQ"), ok_("SR")))
        if style == "points":
            for m in (2, 4, 9): ex("second array of %d values for 3 points" % m, V, style, L(ok_("SP"), A("SQ", num(m)))); ex("first array of %d values for 3 points" % m, V, style, L(A("SP", num(m)), ok_("SQ")))
            ex("two-dimensional array", V, style, L(ok_("SP"), A("SQ", num(3), num(3))))
        else:
            good = [tuple(int(numval(x)) for x in shape), tuple(int(numval(x)) for x in reversed(shape))]
            rng = (3, 4, 5) if three else (2, 3, 4, 5)
            import itertools
            for q in itertools.product(rng, repeat=s.dim):
                if q in good: continue
                ex("second array of shape %s for %s" % (q, good[0]), V, style, L(ok_("SP"), A("SQ", *map(num, q))))
            ex("flattened array", V, style, L(ok_("SP"), A("SQ", num(12))))
def jobs(tier):
    out = []
    for cls in ALL:
        ks = [d[0] for d in ALL[cls]]
        n = 0
        for m in range(len(ks) + 1):
            for c in combinations(ks, m):
                n += 1
                out.append(("subset:%s:%s" % (cls, "+".join(c)), subset, (cls, c, n % 2, ("vectorized", "loop")[(n // 2) % 2], ("points", "grid")[(n // 4) % 2])))
        out.append(("rejected:" + cls, rejections, (cls,)))
        for be in ("vectorized", "loop"):
            for st in ("grid", "masked"):
                for tr in ((True, False), (False, True), (True, True)):
                    if st == "masked" and tr != (True, False): continue
                    c = dict(cls=cls, drift=[("spec", 2)], backend=be, style=st, sptr=tr, tag="transposed arrays %s" % (tr,))
                    out.append((cfgname(c), matched, (c,)))
            c = dict(cls=cls, drift=[("rl",), ("spec", 3), ("fun", 2)], backend=be, style="points"); out.append((cfgname(c), matched, (c,)))
    for be in ("vectorized", "loop"):
        for at in ("data", "point"):
            c = dict(cls="uk", drift=[("pl", 2)], backend=be, style="points", wellat=at, tag="well on " + at)
            out.append((cfgname(c), matched, (c,)))
    return out
