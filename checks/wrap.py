"""The scikit-learn wrappers, with the four kriging classes replaced by recording stand-ins."""
from scen import *
METHODS = {"ordinary": "OrdinaryKriging", "universal": "UniversalKriging", "ordinary3d": "OrdinaryKriging3D", "universal3d": "UniversalKriging3D"}
DIM = {m: 3 if m.endswith("3d") else 2 for m in METHODS}
SETTINGS = ["variogram_model", "nlags", "weight", "n_closest_points", "verbose", "exact_values", "pseudo_inv", "pseudo_inv_type", "variogram_parameters", "variogram_function",
            "anisotropy_scaling", "anisotropy_angle", "enable_statistics", "coordinates_type", "drift_terms", "point_drift", "ext_drift_grid", "functional_drift"]
SPLIT = {"anisotropy_scaling": ("anisotropy_scaling", 0), "anisotropy_angle": ("anisotropy_angle", 0), "anisotropy_scaling_y": ("anisotropy_scaling", 0), "anisotropy_scaling_z": ("anisotropy_scaling", 1),
         "anisotropy_angle_x": ("anisotropy_angle", 0), "anisotropy_angle_y": ("anisotropy_angle", 1), "anisotropy_angle_z": ("anisotropy_angle", 2),
         "external_drift": ("ext_drift_grid", 0), "external_drift_x": ("ext_drift_grid", 1), "external_drift_y": ("ext_drift_grid", 2)}
class Recorder:
    """constructor and execute calls of the kriging classes: bound parameters by name, in call order"""
    def __init__(s): s.init = []; s.exec = []
    def which(s, I, args):
        o = I.resolve(args[0]) if args else None
        if not isinstance(o, Obj) or not isinstance(o.cls, Cls): return None
        return next((m for m, c in METHODS.items() if c in o.cls.mro_names()), None), o
    def bound(s, I, f, args, kw):
        env = {k: I.resolve(v) for k, v in I.bind(f, args, kw).items()}
        env.pop(f.node.args.args[0].arg)
        return {k: (I.snap(v) if isinstance(v, Arr) else v) for k, v in env.items()}, env
    def initf(s, I, f, args, kw):
        m = s.which(I, args)
        if not m or m[0] is None: return NotImplemented
        env, raw = s.bound(I, f, args, kw)
        dn = [a.arg for a in f.node.args.args]
        s.init.append(dict(method=m[0], obj=m[1], env=env, raw=raw, defaults=dict(zip(dn[len(dn) - len(f.defaults):], f.defaults)), facts=I.S.facts, k=len(s.init)))
        return None
    def execf(s, I, f, args, kw):
        m = s.which(I, args)
        if not m or m[0] is None: return NotImplemented
        env, raw = s.bound(I, f, args, kw)
        k = len(s.exec); fit = next((i["k"] for i in s.init if i["obj"] is m[1]), None)
        pts = [env.get(n) for n in ("xpoints", "ypoints", "zpoints")[:DIM[m[0]]]]
        if not all(isinstance(p, Snap_) for p in pts) or fit is None: return I.unknown("points of the kriging call")
        n = pts[0].shape[0]
        res = [I.newarr((n,), lambda ix, q=q: ufn(q, num(fit), *[p.at(ix) for p in pts]), "float") for q in ("kpred", "kvar")]
        s.exec.append(dict(method=m[0], obj=m[1], env=env, raw=raw, fit=fit, facts=I.S.facts, res=res))
        return tuple(res)
import rinterp as _r
def mkworld(r, missing=(), load=None, **flags):
    rec = Recorder()
    w = World(r, missing=missing, load=load, summarise={"__init__": rec.initf, "execute": rec.execf}, **flags)
    global Snap_
    a = w.I.newarr((num(1),), lambda ix: ZERO, "float"); Snap_ = type(w.I.snap(a))
    return w, rec
def opaque(w, tag, tuples="tuple"):
    """one distinct, unique value per setting"""
    v = {n: sym("%s_%s" % (tag, n), "O") for n in SETTINGS}
    v["variogram_function"] = Model("%s_vfun" % tag, None, callable=True)
    for n in ("variogram_parameters", "drift_terms", "functional_drift"): v[n] = w.lst([sym("%s_%s0" % (tag, n), "O")])
    v["point_drift"] = w.mat("%s_PD" % tag, num(2), num(3))
    def tup(n, k):
        it = [sym("%s_%s%d" % (tag, n, j), "R") for j in range(k)]
        return tuple(it) if tuples == "tuple" else w.lst(it)
    v["anisotropy_scaling"] = tup("scal", 2); v["anisotropy_angle"] = tup("ang", 3)
    g = [w.mat("%s_EXT" % tag, num(3), num(3)), w.vec("%s_EXTX" % tag, num(3)), w.vec("%s_EXTY" % tag, num(3))]
    v["ext_drift_grid"] = tuple(g) if tuples == "tuple" else w.lst(g)
    return v
def same(I, a, b):
    """True / False / None (not resolved): a is the value b"""
    a = I.resolve(a)
    if isinstance(a, (Unk, Choice)): return None
    if a is b: return True
    if isinstance(b, Arr): return isinstance(a, Arr) and a.buf == b.buf and a.oid == b.oid if hasattr(a, "oid") else isinstance(a, Arr) and a.buf == b.buf
    if isinstance(a, T) and isinstance(b, T): return a is b
    if isinstance(b, tuple): return isinstance(a, tuple) and len(a) == len(b) and all(same(I, x, y) for x, y in zip(a, b))
    if isinstance(b, (str, bool, int, float, type(None))): return type(a) is type(b) and a == b
    return False
def part(I, v, k):
    it = I.items(v) if not isinstance(v, tuple) else v
    return I.resolve(it[k])
def expected(I, name, vals, default):
    """value the kriging class should receive for its parameter name"""
    if name in SPLIT: return part(I, vals[SPLIT[name][0]], SPLIT[name][1])
    return vals[name] if name in vals else default
def show(v): return repr(v)[:60]
def check_fit(r, w, rec, what, method, vals, x, target, loc):
    """one recorded constructor call against the settings vals, columns of x (name) and target term function"""
    I = w.I
    r.check(rec["method"] == method, "kriging class", "%s: constructs %s" % (what, METHODS[method]), loc, dict(constructs=METHODS[rec["method"]]))
    if rec["method"] != method: return
    d = DIM[method]
    cols = dict(zip(("x", "y", "z")[:d], range(d))); tgt = "val" if d == 3 else "z"
    for p, v in rec["env"].items():
        if p in cols or p == tgt:
            if v is None or not hasattr(v, "at"): 
                r.undecided("data", "%s: %s" % (what, p), "not an array: %s" % show(v)) if isinstance(v, (Unk, Choice)) else r.bad("data", "%s: %s is not the array it should be" % (what, p), loc, dict(value=show(v)))
                continue
            n = x[1]
            if not r.shape("%s: shape of %s" % (what, p), v, (n,), loc): continue
            i = TM._index(n, "i")
            want = x[0](i, cols[p]) if p in cols else target(i)
            r.eq("data", "%s: %s" % (what, p), v.at((i,)), want, [le(ZERO, i), lt(i, n)], loc)
            continue
        want = expected(I, p, vals, I.resolve(rec["defaults"].get(p)))
        ok = same(I, rec["raw"][p], want)
        if ok is None: r.undecided("settings arrive", "%s: %s" % (what, p), "not resolved"); continue
        r.check(ok, "settings arrive", "%s: %s" % (what, p), loc, dict(parameter=p, received=show(rec["raw"][p]), expected=show(want)))
def check_exec(r, w, e, what, obj, vals, x, kwargs, loc):
    """one recorded execute call"""
    I = w.I; m = e["method"]
    r.check(e["obj"] is obj, "fitted model", what + ": the fitted model is evaluated", loc)
    st = I.resolve(e["env"].get("style"))
    if isinstance(st, (Unk, Choice)): r.undecided("style", what, "not resolved")
    else: r.check(st == "points", "style", what + ": evaluated as points", loc, dict(style=show(st)))
    for k, p in enumerate(("xpoints", "ypoints", "zpoints")[:DIM[m]]):
        v = e["env"][p]
        if not r.shape("%s: shape of %s" % (what, p), v, (x[1],), loc): continue
        i = TM._index(x[1], "i")
        r.eq("points", "%s: %s" % (what, p), v.at((i,)), x[0](i, k), [le(ZERO, i), lt(i, x[1])], loc)
    want = dict(backend="loop"); want.update(kwargs)
    if m.startswith("ordinary"): want["n_closest_points"] = vals["n_closest_points"]
    for p, v in e["raw"].items():
        if p in ("style", "xpoints", "ypoints", "zpoints"): continue
        if p in want: ok, ex = same(I, v, I.resolve(want[p])), want[p]
        elif p == "specified_drift_arrays" or p == "mask": ok, ex = (same(I, v, None)), None
        else: continue
        if ok is None: r.undecided("execute arguments", "%s: %s" % (what, p), "not resolved"); continue
        r.check(ok, "execute arguments", "%s: %s" % (what, p), loc, dict(parameter=p, received=show(v), expected=show(ex)))
    for p in want: r.check(p in e["raw"], "execute arguments", "%s: %s is passed on" % (what, p), loc)
def xmat(w, name, n, d):
    return w.mat(name, n, num(d)), (lambda i, k: sel(name, i, num(k)), n)
def one(r, recs, what, loc, n=1):
    if len(recs) == n: return recs
    if len(recs) > n: r.undecided("calls", what, "%d calls recorded, %d expected" % (len(recs), n)); return None
    r.bad("calls", "%s: %d calls, %d expected" % (what, len(recs), n), loc); return None
def floc(w, o, name, mod):
    try:
        f = w.I.getattr(o, name); f = getattr(f, "f", f)
        return dict(file=f.mod.path, func="%s.%s" % (f.cls.name, name), line=f.node.lineno)
    except Exception: return dict(file=mod, func=name, line=0)
