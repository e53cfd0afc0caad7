"""C16: variogram parameters are normalised to one internal form."""
from scen import *
EXPLANATION = (HOW + "constructor and update of every class are evaluated with symbolic parameter lists and dicts of every model; the stored parameter terms are compared with "
    "the documented internal list, every malformed form must raise on all paths, and no fit may be started; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
KEYS = {"linear": ("slope", "nugget"), "power": ("scale", "exponent", "nugget")}
def keys(vm): return KEYS.get(vm, ("psill", "range", "nugget"))
def base(cls):
    return Sc(R("x"), dict(cls=cls, vm="linear"))
class Target:
    """constructor or update of one class"""
    def __init__(t, r, cls, how):
        t.r, t.how = r, how
        t.s = s = Sc(r, dict(cls=cls, vm="linear")); s.cls = s.w.cls(*MODS[cls])
        t.w = s.w
        t.kw0 = {}
        t.obj = None
        if how == "update":
            t.obj = s.w.call(s.cls, *s.data, s.V, variogram_model="linear", variogram_parameters=s.w.lst([sym("q0", "R"), sym("q1", "R")]))
            s.obj = t.obj
        t.loc = meth_loc(s, "__init__" if how == "ctor" else "update_variogram_model")
    def call(t): 
        return t.s.cls if t.how == "ctor" else t.s.I.getattr(t.obj, "update_variogram_model")
    def args(t): return list(t.s.data) + [t.s.V] if t.how == "ctor" else []
    def reject(t, what, allowed, model, params, **kw):
        return rejects(t.r, t.w, "malformed parameters", what, allowed, t.call(), *t.args(), variogram_model=model, variogram_parameters=params, loc=t.loc, **kw)
    def accept(t, what, model, params, **kw):
        v = accepts(t.r, t.w, "accepted", what, t.call(), *t.args(), variogram_model=model, variogram_parameters=params, loc=t.loc, **kw)
        if v is None: return None
        return v if t.how == "ctor" else t.obj
def stored(t, o, name, want):
    r = t.r
    p = t.w.attr(o, "variogram_model_parameters")
    its = t.s.I.items(p) if not isinstance(p, Arr) else None
    if isinstance(p, Arr):
        sp = t.w.snap(p)
        if sp.ndim == 1 and is_num(sp.shape[0]): its = [sp.at((num(k),)) for k in range(int(numval(sp.shape[0])))]
    if its is None or any(not isinstance(x, T) for x in its): return r.undecided("internal list", name, "not resolved")
    if not r.check(len(its) == len(want), "internal list", name + ": number of parameters", t.loc, dict(found=len(its), expected=len(want))): return
    for k, (a, b) in enumerate(zip(its, want)): r.eq("internal list", "%s: entry %d" % (name, k), a, b, (), t.loc)
def mkdict(t, items):
    return t.s.I.newdict([(k, v) for k, v in items])
def job(r, cls, how, vm):
    t = Target(r, cls, how); w = t.w
    pre = "%s %s %s" % (MODS[cls][1], "constructor" if how == "ctor" else "update", vm)
    n = spec.NPAR[vm]; ks = keys(vm)
    P = [sym("g%d" % k, "R", nonneg=True, lo=ZERO) for k in range(n)]
    internal = [sub(P[0], P[2])] + P[1:] if ks[0] == "psill" else P
    o = t.accept(pre + " list", vm, w.lst(P))
    if o is not None:
        stored(t, o, pre + " list", internal)
        f = w.attr(o, "variogram_model")
        r.check(f == vm, "model name", pre + ": variogram_model is the given name", t.loc, dict(found=str(f)))
    dicts = [("dict", list(zip(ks, P)), P)]
    if ks[0] == "psill": dicts.append(("dict with sill", [("sill", P[0]), ("range", P[1]), ("nugget", P[2])], internal))
    dicts.append(("dict in another order", list(reversed(dicts[-1][1])), dicts[-1][2]))
    for nm, it, want in dicts:
        o = t.accept("%s %s" % (pre, nm), vm, mkdict(t, it))
        if o is not None: stored(t, o, "%s %s" % (pre, nm), want)
    r.check(not [e for e in t.s.I.events if e["kind"] == "least_squares"], "given parameters are not re-fitted", pre, t.loc)
    for k in ks:
        t.reject("%s dict without %s" % (pre, k), ["KeyError"], vm, mkdict(t, [(a, b) for a, b in zip(ks, P) if a != k]))
    t.reject("%s empty dict" % pre, ["KeyError"], vm, mkdict(t, []))
    for m in range(0, 6):
        if m != n: t.reject("%s list of %d" % (pre, m), ["ValueError"], vm, w.lst([sym("h%d" % k, "R") for k in range(m)]))
    for nm, v in (("tuple", w.lst(P, kind="tuple")), ("string", "abc"), ("number", num(3)), ("array", w.vec("PA", num(n))), ("True", True)):
        t.reject("%s parameters given as %s" % (pre, nm), ["TypeError"], vm, v)
def cjob(r, cls, how):
    t = Target(r, cls, how); w = t.w; s = t.s
    pre = "%s %s custom" % (MODS[cls][1], "constructor" if how == "ctor" else "update")
    for m in (0, 1, 2, 3, 5):
        P = [sym("g%d" % k, "R") for k in range(m)]
        o = t.accept("%s list of %d" % (pre, m), "custom", w.lst(P), variogram_function=s.gamma)
        if o is not None: stored(t, o, "%s list of %d" % (pre, m), P)
    r.check(not [e for e in s.I.events if e["kind"] == "least_squares"], "given parameters are not re-fitted", pre, t.loc)
    t.reject(pre + " dict", ["TypeError"], "custom", mkdict(t, [("slope", ONE), ("nugget", ZERO)]), variogram_function=s.gamma)
    t.reject(pre + " without parameters", ["ValueError"], "custom", None, variogram_function=s.gamma)
    for nm, v in (("tuple", w.lst([ONE, ONE], kind="tuple")), ("string", "abc"), ("number", num(3)), ("array", w.vec("PA", num(2)))):
        t.reject("%s parameters given as %s" % (pre, nm), ["TypeError"], "custom", v, variogram_function=s.gamma)
def jobs(tier):
    out = []
    for cls in MODS:
        for how in ("ctor", "update"):
            for vm in spec.NPAR: out.append(("%s:%s:%s" % (cls, how, vm), job, (cls, how, vm)))
            out.append(("%s:%s:custom" % (cls, how), cjob, (cls, how)))
    return out
