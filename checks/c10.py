"""C10: update_variogram_model leaves the model as if freshly constructed."""
from scen import *
from chk import _Undef_
EXPLANATION = (HOW + "a model constructed with one configuration, used, and then updated (once or twice) is compared, attribute by attribute and result by result, with a model "
    "constructed directly with the final configuration on the same data; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME + ["scipy.optimize.least_squares is a function of its arguments"]
ATTRS = ("lags", "semivariance", "variogram_model_parameters", "X_ADJUSTED", "Y_ADJUSTED", "Z_ADJUSTED", "XCENTER", "YCENTER", "ZCENTER",
    "anisotropy_scaling", "anisotropy_angle", "anisotropy_scaling_y", "anisotropy_scaling_z", "anisotropy_angle_x", "anisotropy_angle_y", "anisotropy_angle_z",
    "point_log_array", "z_scalars", "specified_drift_data_arrays", "delta", "sigma", "epsilon", "Q1", "Q2", "cR", "variogram_model", "variogram_function", "model", "coordinates_type", "exact_values", "pseudo_inv", "pseudo_inv_type", "X_ORIG", "Y_ORIG", "Z_ORIG", "Z", "VALUES")
STATS = ("delta", "sigma", "epsilon", "Q1", "Q2", "cR")
class Frozen:
    def __init__(f, snap): f.snap = snap
class FrozenSeq:
    def __init__(f, items, src): f.items, f.src = items, src
def freeze(s, v, depth=0):
    """the present content of a value, immune to later modification"""
    I = s.I
    v = I.resolve(v)
    if isinstance(v, bool): return TRUE if v else FALSE
    if isinstance(v, Arr):
        x = s.w.snap(v)
        return Unk("array") if x is None else Frozen(x)
    if isinstance(v, (Lst, tuple)) and depth < 3:
        its = I.items(v)
        return Unk("list") if its is None else FrozenSeq([freeze(s, x, depth + 1) for x in its], v)
    return v
def same_value(r, s, name, a, b, loc, depth=0, trials=4, sides=("updated", "fresh")):
    """equality of two values, each given live or frozen"""
    a, b = [x if isinstance(x, (Frozen, FrozenSeq)) else freeze(s, x) for x in (a, b)]
    if isinstance(a, (Unk, Choice)) or isinstance(b, (Unk, Choice)): return r.undecided("same state", name, "not resolved")
    if a is b: return r.ok("same state", name)
    if isinstance(a, T) and isinstance(b, T): return r.eq("same state", name, a, b, (), loc, trials=trials)
    if isinstance(a, Frozen) and isinstance(b, Frozen):
        x, y = a.snap, b.snap
        if x.ndim != y.ndim: return r.bad("same state", name + ": dimensions", loc, {sides[0]: x.ndim, sides[1]: y.ndim})
        for p, q in zip(x.shape, y.shape):
            v = dim_eq(p, q)
            if v is None or v is False:
                if not r.eq("same state", name + ": extent", dsize(p), dsize(q), (), loc): return
        if any(isinstance(p, FDim) != isinstance(q, FDim) for p, q in zip(x.shape, y.shape)): return r.undecided("same state", name, "layout")
        ix = tuple(dfresh(d) for d in x.shape)
        return r.eq("same state", name, x.at(ix), y.at(ix), (), loc, trials=trials)
    if isinstance(a, FrozenSeq) and isinstance(b, FrozenSeq):
        if not r.check(len(a.items) == len(b.items), "same state", name + ": length", loc, {sides[0]: len(a.items), sides[1]: len(b.items)}): return
        for k, (p, q) in enumerate(zip(a.items, b.items)): same_value(r, s, "%s[%d]" % (name, k), p, q, loc, depth + 1, trials, sides)
        return
    if isinstance(a, (str, type(None), Func, Model, Bound, Cls, Lib)) or isinstance(b, (str, type(None), Func, Model, Bound, Cls, Lib)):
        if a == b or getattr(a, "info", {}).get("value", 0) is getattr(b, "info", {}).get("value", 1): return r.ok("same state", name)
        return r.bad("same state", name, loc, {sides[0]: str(a), sides[1]: str(b)})
    return r.undecided("same state", name, "values of kind %s and %s" % (type(a).__name__, type(b).__name__))
def attr_or_none(s, o, a):
    v = s.I.S.heap.get(o.oid, {}) if hasattr(o, "oid") else {}
    return v.get(a, UNDEF) if isinstance(v, dict) else UNDEF
def compare_objects(r, s, name, upd, fresh, loc, attrs=ATTRS):
    n = 0
    for a in attrs:
        x, y = attr_or_none(s, upd, a), attr_or_none(s, fresh, a)
        if isinstance(x, _Undef_) and isinstance(y, _Undef_): continue
        n += 1
        if isinstance(x, _Undef_) or isinstance(y, _Undef_): r.undecided("same state", "%s: %s" % (name, a), "attribute missing on one side"); continue
        same_value(r, s, "%s: %s" % (name, a), x, y, loc)
    return n
def final_kw(s, fit, extra):
    u = dict(extra)
    if not fit: u["variogram_parameters"] = s.parlist
    if s.vm == "custom": u["variogram_function"] = s.gamma
    u.update(zip(ANISO[s.dim], s.scal + s.ang))
    return u
def step(s, k, vm, only=None):
    """update arguments of an intermediate step; only: the single anisotropy argument that differs from the final configuration"""
    n = spec.NPAR.get(vm, 2)
    u = dict(variogram_parameters=s.w.lst([sym("step%d_%d" % (k, j), "R", nonneg=True) for j in range(n)]))
    names = ANISO[s.dim]
    fin = dict(zip(names, s.scal + s.ang))
    u.update({a: sym("st%d%s" % (k, a), "R", nonneg=True) if only in (None, a) else fin[a] for a in names})
    return u
def job(r, cfg, steps, fit, extra, used):
    c = cfg
    stats = bool(c.get("stats"))
    s = Sc(r, c, stats=stats); w = s.w
    ek = dict(extra)
    if "nlags" in ek: ek["nlags"] = num(ek["nlags"])
    st = dict(enable_statistics=True) if stats and c["cls"] == "ok" else {}
    over = dict(ek, **st)
    if fit: over["variogram_parameters"] = None
    fresh = s.construct(**over)
    s.obj = fresh; s.cls = w.cls(*MODS[c["cls"]])
    runs = [(b, w_) for b in c.get("backends", ("vectorized",)) for w_ in (0,)]
    def results(o):
        out = []
        for be, _ in runs:
            s.obj = o
            out.append(s.execute(backend=be))
        return out
    R0 = results(fresh)
    name = "%s after %s%s%s%s" % (cfgname(c), "+".join(steps), " fitted" if fit else "", " used before" if used else "", " %s" % extra if extra else "")
    # the same data, another configuration first
    a = s.ctor_args(); a.update(step(s, 0, steps[0], c.get("only"))); a["variogram_model"] = steps[0]; a.pop("variogram_function", None); a.update(st)
    upd = w.call(s.cls, *s.data, s.V, **a)
    if not s.unb: s.I.setattr(upd, "UNBIAS", False)
    if used: results(upd)
    for k, vm in enumerate(steps[1:]):
        w.meth(upd, "update_variogram_model", vm, **step(s, k + 1, vm))
        if used: results(upd)
    s.obj = upd; loc = meth_loc(s, "update_variogram_model")
    w.meth(upd, "update_variogram_model", s.vm, **final_kw(s, fit, ek))
    compare_objects(r, s, name, upd, fresh, loc, [a for a in ATTRS if stats or a not in STATS])
    R1 = results(upd)
    s.obj = upd; s.loc = exec_loc(s)
    for (be, _), x, y in zip(runs, R1, R0):
        if x is None or y is None or any(v is None for v in x + y): r.undecided("same results", name + " " + be, "not resolved"); continue
        if not r.shape("%s %s: shape" % (name, be), x[0], y[0].shape, s.loc): continue
        ix, _ = s.pidx(); m = s.masked(ix); fs = [not_(m)] if m is not FALSE else []
        set_facts(add_facts((), fs))
        for k, nm in enumerate(("estimate", "variance")):
            r.eq("same results", "%s: %s (%s backend)" % (name, nm, be), x[k].at(ix), y[k].at(ix), fs, s.loc, trials=4)
        set_facts(())
def history(r, cfg):
    """one aspect changes between two executions: the second is that of the configuration then in force"""
    s = run_exec(r, cfg)
    if s is not None: compare_out(r, s, "same results", what="%s, other %s at the first execution" % (cfgname(cfg), cfg["hist"]), trials=4)
def defaults(r, cls, vm, fit, geo=False):
    """arguments left out mean the documented defaults in the constructor and in update_variogram_model alike"""
    c = dict(cls=cls, vm=vm, style="points", geo=geo)
    s = Sc(r, c); w = s.w; s.cls = w.cls(*MODS[cls])
    k = dict(variogram_model=vm)
    if not fit: k["variogram_parameters"] = s.parlist
    g = dict(coordinates_type="geographic") if geo else {}
    fresh = w.call(s.cls, *s.data, s.V, **k, **g)
    a = step(s, 0, "power"); a["variogram_model"] = "power"
    if geo: a = {x: y for x, y in a.items() if x not in ANISO[s.dim]}
    upd = w.call(s.cls, *s.data, s.V, nlags=num(9), weight=True, **a, **g)
    s.obj = upd; loc = meth_loc(s, "update_variogram_model")
    v = k.pop("variogram_model")
    w.meth(upd, "update_variogram_model", v, **k)
    compare_objects(r, s, "%s updated to %s with every other argument left out%s" % (MODS[cls][1], vm, " (fitted)" if fit else ""), upd, fresh, loc, [a for a in ATTRS if a not in STATS])
    for o, nm in ((fresh, "constructor"), (upd, "update_variogram_model")):
        for x in ANISO[s.dim]:
            y = attr_or_none(s, o, x)
            if isinstance(y, T): r.eq("documented defaults", "%s %s: %s" % (MODS[cls][1], nm, x), y, ONE if "scaling" in x else ZERO, (), loc)
            else: r.undecided("documented defaults", "%s %s: %s" % (MODS[cls][1], nm, x), "not resolved")
def jobs(tier):
    out = []
    for cls in MODS:
        out += [("defaults:%s:%s" % (cls, f), defaults, (cls, "linear", f)) for f in (False, True)]
    out.append(("defaults:ok:geo", defaults, ("ok", "linear", False, True)))
    for cls in MODS:
        for h in ("aniso", "params", "model", "function") if cls.startswith("ok") else ("aniso", "params"):
            for be in ("vectorized", "loop") + (("C",) if cls == "ok" and h != "function" else ()):
                c = dict(cls=cls, vm="custom" if h == "function" else "spherical", style="points", backend=be, hist=h, drift=[("rl",)] if cls.startswith("uk") else [])
                out.append(("history:" + cfgname(c), history, (c,)))
    def add_(c, steps, fit=False, extra=(), used=False):
        out.append(("%s:%s:%s:%s:%s" % (cfgname(c), "+".join(steps), fit, used, dict(extra)), job, (c, steps, fit, dict(extra), used)))
    B = {"ok": ("vectorized", "loop", "C"), "uk": ("vectorized", "loop"), "ok3d": ("vectorized", "loop"), "uk3d": ("vectorized", "loop")}
    DR = {"uk": [("rl",), ("pl", 2), ("ext",), ("spec", 1), ("fun", 1)], "uk3d": [("rl",), ("spec", 1), ("fun", 1)]}
    for cls in MODS:
        b = dict(cls=cls, backends=B[cls][:2], style="points")
        if cls in DR: b["drift"] = DR[cls]
        add_(dict(b, vm="custom"), ("linear",), used=True)
        add_(dict(b, vm="spherical"), ("linear", "gaussian"), used=True)
        add_(dict(b, vm="linear", backends=("vectorized",)), ("exponential",), fit=True, extra=dict(nlags=4, weight=True))
        add_(dict(b, vm="power", backends=("vectorized",)), ("linear",), fit=True)
        add_(dict(b, vm="exponential", backends=("vectorized",), drift=[], stats=True), ("linear",))
    for cls in MODS:      # exactly one anisotropy setting changes
        for a in ANISO[3 if cls.endswith("3d") else 2]:
            add_(dict(cls=cls, vm="linear", style="points", backends=(), drift=[("rl",)] + ([("pl", 1)] if cls == "uk" else []) if cls in DR else [], only=a, tag="only " + a), ("linear",))
    add_(dict(cls="uk", vm="linear", style="grid", drift=[("pl", 1)], backends=("loop",)), ("power", "linear"), used=True)
    add_(dict(cls="ok", vm="linear", style="points", backends=("C",)), ("power",), used=True)
    add_(dict(cls="ok", vm="linear", style="points", backends=("loop", "C"), win=True), ("power",), used=True)
    add_(dict(cls="ok3d", vm="linear", style="points", backends=("loop",), win=True), ("power",), used=True)
    add_(dict(cls="ok", vm="linear", style="points", backends=("vectorized",), geo=True), ("power", "spherical"), used=True)
    add_(dict(cls="ok", vm="linear", style="points", backends=("vectorized",), pinv="pinvh", exact=False), ("power",), used=True)
    return out
