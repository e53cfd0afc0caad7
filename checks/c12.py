"""C12: kriging modifies neither model nor caller data; instances share nothing mutable."""
from effects import *
EXPLANATION = ("Interprocedural effect and alias analysis on the abstract heap (Python AST and Cython source): for every class, style, backend, window, drift and fitting option the heap at the end of execute, of each "
    "accessor and of the constructor - and at every raise inside them - is compared with the heap before the call; every object that existed before must be unchanged (a changed cell counts only if its content differs). "
    "After construction no mutable object of the caller may be reachable from the model, and two models may share none. Nothing of the repository is executed.")
ASSUMPTIONS = BASE_ASSUME + ["user-supplied callables have no side effects", "a GSTools model handed in is not modified by the caller"]
def inputs(s, kw): return [("xyz"[k], v) for k, v in enumerate(s.data)] + [("values", s.V)] + [(k, v) for k, v in kw.items() if k not in ("variogram_function", "functional_drift")] + ([("functional_drift", kw["functional_drift"])] if "functional_drift" in kw else [])
class Wat:
    def __init__(s, I): s.I = I
def job(r, cfg, fit, runs):
    s = Sc(r, cfg, stats=bool(cfg.get("stats"))); w = s.w; I = s.I
    s.cls = w.cls(*MODS[cfg["cls"]])
    kw = s.ctor_args()
    if fit: kw["variogram_parameters"] = None
    elif cfg.get("dictpar"):
        nm = {"linear": ("slope", "nugget"), "power": ("scale", "exponent", "nugget")}.get(s.vm, ("sill", "range", "nugget"))
        kw["variogram_parameters"] = w.I.newdict(dict(zip(nm, I.items(s.parlist))))
    if cfg.get("stats") and cfg["cls"] == "ok": kw["enable_statistics"] = True
    name = cfgname(cfg) + (" fitted" if fit else "")
    inp = inputs(s, kw)
    b = Before(I)
    s.obj = w.call(s.cls, *s.data, s.V, **kw)
    loc = meth_loc(s, "__init__")
    unchanged(r, s, b, name + ": constructor", inp + [("class", s.cls)], loc)
    unaliased(r, s, name + ": model", s.obj, inp, loc)
    # a second instance from the same caller data shares nothing with the first
    o1 = s.obj; o2 = w.call(s.cls, *s.data, s.V, **kw)
    R1, R2 = reach(I, o1), reach(I, o2)
    both = [(o, p) for o, p in R1.items() if o in R2 and o < 10**9 and o not in b.heap or (o in R2 and isinstance(b.heap.get(o), Content))]
    for o, p in both: r.bad("instances share nothing", "%s: two instances share attribute %s" % (name, p.lstrip(".")), loc)
    for p, v in default_objects(I, s.cls):
        for o, q in reach(I, v).items():
            if o in R1: both.append(o); r.bad("instances share nothing", "%s: attribute %s is the default argument of %s" % (name, R1[o].lstrip("."), p), loc)
    if not both: r.ok("instances share nothing", name)
    if not s.unb: I.setattr(s.obj, "UNBIAS", False)
    for st, be in runs:
        nm = "%s: execute(%s, %s)" % (name, st, be)
        b = Before(I); s.loc = exec_loc(s)
        pts0 = len(I.inputs)
        newin = {}
        s.execute(style=st, backend=be)
        res = s.res
        if res is None: r.undecided("result", nm, "not resolved")
        args = [("argument %s" % n, o) for o, n in list(I.inputs.items())[pts0:]]
        unchanged(r, s, b, nm, [("model", s.obj)] + inp, s.loc)
        mutated_inputs(r, s, b, nm)
        if res is not None:
            held = reach(I, s.obj)
            for k, x in enumerate(res):
                if any(o in held for o in x.bufs): r.bad("fresh results", "%s: a result shares memory with the model" % nm, s.loc)
                elif any(I.inputs.get(o) for o in x.bufs): r.bad("fresh results", "%s: a result shares memory with the caller's %s" % (nm, [I.inputs.get(o) for o in x.bufs][0]), s.loc)
                else: r.ok("fresh results", nm)
    for a in ("get_variogram_points", "get_epsilon_residuals", "get_statistics", "print_statistics", "display_variogram_model", "plot_epsilon_residuals"):
        b = Before(I)
        try: f = I.getattr(s.obj, a)
        except Dead: continue          # not offered by this class
        v, dead, pend = w.attempt(f)
        I.pend += pend
        unchanged(r, s, b, "%s: %s()" % (name, a), [("model", s.obj)] + inp, meth_loc(s, a))
    # updating changes the model only, and the model keeps none of the new arguments either
    b = Before(I)
    u = dict(zip(ANISO[s.dim], s.scal + s.ang)); u["variogram_parameters"] = None if fit else w.lst(list(I.items(s.parlist)), "variogram_parameters")
    if s.vm == "custom": u["variogram_function"] = s.gamma
    w.meth(s.obj, "update_variogram_model", s.vm, **u)
    own = [o for o in (s.obj.oid,)]
    loc = meth_loc(s, "update_variogram_model")
    unchanged(r, s, b, name + ": update_variogram_model", inp + list(u.items()), loc, allow=set(reach(I, s.obj)) | set(x for x in b.heap if x in own) | owned(b, s))
    unaliased(r, s, name + ": updated model", s.obj, inp + list(u.items()), loc)
def owned(b, s):
    """objects belonging to the model before the call"""
    I = s.I; S = I.S; I.S = I.S.copy(); I.S.heap = dict(b.heap)
    try: return set(reach(I, s.obj))
    finally: I.S = S
def default_objects(I, cls):
    f = cls.lookup("__init__")
    return [(f.cls.name if f.cls else f.name, v) for v in list(f.defaults or ()) + [x for x in (f.kwdefaults.values() if isinstance(f.kwdefaults, dict) else f.kwdefaults or ()) if x is not None]] if isinstance(f, Func) else []
def mutated_inputs(r, s, b, nm):
    """arguments of the call itself"""
    bad = [e for e in b.events("mutate") if e.get("input")]
    for e in bad:
        r.bad("arguments unchanged", "%s: %s is modified in place" % (nm, e["input"]), e["loc"])
    if not bad: r.ok("arguments unchanged", nm)
def wrapper(r, kind, method):
    """the scikit-learn wrappers, over recording stand-ins of the kriging classes"""
    import wrap, c24, c25
    if kind == "Krige": w, rec = wrap.mkworld(r); K = w.cls("pykrige.compat", "Krige"); est = {}; names = None
    else:
        c = c24 if kind == "RegressionKriging" else c25
        w, rec = (c24.world(r) if c is c24 else c25.world(r, 3))[:2]; K = w.cls(c.MOD, c.CLS)
        est = {c.NAME: (c24.estimator(w, "given") if c is c24 else c25.estimator(w, "given", 3))[0]}
    I = w.I; what = "%s(%s)" % (kind, method); loc = dict(file=K.mod.path, func=kind + ".__init__", line=K.lookup("__init__").node.lineno)
    class S_: pass
    s = S_(); s.I = I
    vals = wrap.opaque(w, "a", "list"); inp = list(vals.items())
    b = Before(I); o = w.call(K, method=method, **est, **vals)
    unchanged(r, s, b, what + ": constructor", inp, loc)
    if est:
        d1, d2 = (I.resolve(I.getattr(w.call(K, method=method), list(est)[0])) for _ in "12")
        if isinstance(d1, (Unk, Choice)) or isinstance(d2, (Unk, Choice)): r.undecided("instances share nothing", what, "default estimator not resolved")
        else: r.check(d1 is not d2, "instances share nothing", "%s: two instances built with the default estimator" % kind, loc)
    d = wrap.DIM[method]; N = sym("N", "I", lo=num(2)); M = sym("M", "I", lo=num(2))
    x, _ = wrap.xmat(w, "P", N, d); q, _ = wrap.xmat(w, "Q", M, d); p, _ = wrap.xmat(w, "PRED", N, 2); pq, _ = wrap.xmat(w, "PQ", M, 2)
    y, yq, sw = w.vec("TGT", N), w.vec("YQ", M), w.vec("SW", M)
    pts = I.newdict({n: w.vec("C" + n, M) for n in ("xpoints", "ypoints", "zpoints")[:d]})
    if est: calls = [("fit", (p, x, y)), ("predict", (pq, q)), ("krige_residual", (q,)), ("score", (pq, q, yq, sw)), ("fit", (p, x, y)), ("predict", (pq, q))]
    else: calls = [("fit", (x, y)), ("predict", (q,)), ("execute", (pts,)), ("fit", (x, y)), ("predict", (q,))]
    for n, (fn_, args) in enumerate(calls):
        nm = "%s.%s%s" % (what, fn_, " again" if n > 2 and fn_ != "score" else "")
        own = set() if fn_ != "fit" else {o_ for o_, path in reach(I, o).items()}
        for _, v in inp: own -= set(reach(I, v))
        b = Before(I); loc = wrap.floc(w, o, fn_, K.mod.path)
        v, dead, pend = w.attempt(I.getattr(o, fn_), *args); I.pend += pend
        if dead: r.bad("completes", nm + ": raises %s" % (exc_names(pend[-1].val)[0] if pend else "?"), loc); return
        unchanged(r, s, b, nm, [("the wrapper", o)] + inp + [("argument %d" % (k + 1), a) for k, a in enumerate(args)], loc, allow=own)
        mutated_inputs(r, s, b, nm)
def helpers(r):
    """the transform helpers of classification kriging leave their argument alone"""
    import c25
    w, rec, made = c25.world(r, 3); I = w.I; N = sym("N", "I", lo=num(2))
    class S_: pass
    s = S_(); s.I = I
    for f in ("closure", "ilr_transformation", "inverse_ilr_transformation"):
        g = c25.mod(w, f); a = w.mat("U", N, num(3)); b = Before(I)
        loc = dict(file=g.mod.path, func=f, line=g.node.lineno)
        v, dead, pend = w.attempt(g, a); I.pend += pend
        unchanged(r, s, b, f, [("argument", a)], loc); mutated_inputs(r, s, b, f)
def jobs(tier):
    out = [("helpers", helpers, ())]
    for m in ("ordinary", "universal", "ordinary3d", "universal3d"):
        for kind in ("Krige", "RegressionKriging", "ClassificationKriging"): out.append(("%s:%s" % (kind, m), wrapper, (kind, m)))
    def J(c, fit=False, runs=None):
        runs = runs or [(st, be) for st in ("grid", "masked", "points") for be in ("vectorized", "loop")]
        out.append(("%s%s" % (cfgname(c), ":fit" if fit else ""), job, (c, fit, runs)))
    DR = {"uk": [("rl",), ("pl", 2), ("ext",), ("spec", 2), ("fun", 1)], "uk3d": [("rl",), ("spec", 2), ("fun", 1)]}
    C = [(st, "C") for st in ("grid", "masked", "points")]
    for cls in MODS:
        d = dict(drift=DR[cls]) if cls in DR else {}
        J(dict(cls=cls, vm="custom", **d))
        J(dict(cls=cls, vm="spherical", dictpar=True, tag="dict"), runs=[("points", "vectorized")])
        J(dict(cls=cls, vm="linear", stats=True, tag="statistics"), fit=True, runs=[("points", "loop")])
        J(dict(cls=cls, vm="power", pinv="pinvh", exact=False), runs=[("masked", "vectorized"), ("masked", "loop")])
        if cls in DR:
            J(dict(cls=cls, vm="linear", unb=False, drift=[("rl",), ("spec", 1)]), runs=[("masked", "vectorized"), ("masked", "loop"), ("points", "loop")])
            J(dict(cls=cls, vm="linear", drift=[("spec", 2)], sptr=(True, False), tag="transposed"), runs=[("grid", "vectorized"), ("grid", "loop")])
    J(dict(cls="ok", vm="linear"), runs=C); J(dict(cls="ok", vm="spherical", win=True), runs=C + [(a, "loop") for a, _ in C])
    J(dict(cls="ok", vm="gaussian", win=True, pinv="pinv"), runs=C[:1]); J(dict(cls="ok", vm="linear", pinv="pinvh"), runs=C[:1])
    J(dict(cls="ok", vm="power", geo=True), runs=[("masked", "vectorized"), ("masked", "loop"), ("points", "loop")]); J(dict(cls="ok", vm="linear", geo=True, win=True), runs=[("grid", "loop")])
    J(dict(cls="ok", vm="linear", geo=True, stats=True), fit=True, runs=[("points", "loop")])
    J(dict(cls="ok3d", vm="linear", win=True), runs=[("grid", "loop"), ("masked", "loop"), ("points", "loop")])
    J(dict(cls="uk", vm="linear", drift=[("ext",)], tr=True), runs=[("grid", "vectorized")])
    return out
