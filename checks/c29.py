"""C29: GSTools models are validated and translated completely wherever they are accepted."""
from scen import *
from c10 import ATTRS, STATS, compare_objects, attr_or_none
EXPLANATION = (HOW + "Constructor and update_variogram_model of every class receive a modelled GSTools covariance model: without GSTools installed, of another type, with every kind of version, dimension and lat-lon flag (must be accepted or rejected as documented, "
    "before any of its properties is read), and valid ones, together with contradicting user settings; the object must then equal, attribute by attribute and in what it computes, one built from the model's variogram, scaling and angles as a custom model; " + DECIDE)
ASSUMPTIONS = list(BASE_ASSUME) + ["a GSTools CovModel provides pykrige_kwargs, pykrige_vario, pykrige_anis[_y/_z], pykrige_angle[_x/_y/_z], field_dim and latlon as in GSTools' documentation"]
GS = ["GSToolsException"]; DIM = ["ValueError", "GSToolsException"]
def bare():
    return Model("gsmodel", None, bases=(), pykrige_kwargs=Unk("pykrige_kwargs"))
def scene(r, cls, how, geo=False, version="1.7.0", missing=()):
    """(scenario, callable, positional args, base keywords)"""
    c = dict(cls=cls, vm="linear", style="points")
    if geo: c["geo"] = True
    def la(I, full): return version if full == "gstools.__version__" else None
    w = World(r, missing=missing, lib_attr=la)
    s = Sc(r, c, world=w); s.cls = w.cls(*MODS[cls])
    if how == "update":
        s.construct()
        return s, w.I.getattr(s.obj, "update_variogram_model"), (), {}
    kw = {k: v for k, v in s.ctor_args().items() if k not in ("variogram_model", "variogram_function", "variogram_parameters") + ANISO[s.dim]}
    return s, s.cls, tuple(s.data) + (s.V,), kw
def call_gs(s, f, pos, kw, m): return (f,) + pos, dict(kw, variogram_model=m)
def validity(r, cls, how, geo):
    nm = MODS[cls][1] + (".update_variogram_model" if how == "update" else "") + (" (geographic)" if geo else "")
    def case(what, want, model, **sc):
        s, f, pos, kw = scene(r, cls, how, geo, **sc)
        m = model(s); loc = meth_loc(s, "update_variogram_model" if how == "update" else "__init__")
        k = dict(kw, variogram_model=m)
        if want is True: accepts(r, s.w, "valid models are accepted", "%s: %s" % (nm, what), f, *pos, loc=loc, **k)
        else: rejects(r, s.w, "invalid models are rejected", "%s: %s" % (nm, what), want, f, *pos, loc=loc, **k)
    good = lambda latlon=False, dim=None: lambda s: gsmodel(s, dim, latlon)
    case("GSTools not installed", GS, good(), missing=("gstools",))
    case("GSTools not installed, object with nothing else", GS, lambda s: bare(), missing=("gstools",))
    case("not a CovModel", GS, lambda s: gsmodel(s, cov=False))
    case("not a CovModel, with none of its properties", GS, lambda s: bare())
    for v in ("0.9.9", "1.0", "1.2.1", "1.2"): case("GSTools " + v, GS, good(), version=v)
    ll = cls == "ok" and geo
    for v in ("1.3", "1.3.0", "1.3.5", "1.4.0", "1.7.0", "1.10.2", "2.0.0", "2.1.0", "10.0"): case("GSTools " + v, True, good(ll and not v.startswith("1.3")), version=v)
    three = cls.endswith("3d")
    for d in ((3,) if three else (1, 2)): case("model of dimension %d" % d, True, good(ll, d))
    for d in ((1, 2) if three else (3, 4)): case("model of dimension %d" % d, DIM, good(ll, d))
    if ll:
        case("lat-lon model with GSTools 1.3", GS, good(True), version="1.3.2")
        case("lat-lon model", True, good(True, 2))
    else:
        case("lat-lon model", DIM, good(True))
        if not three: case("lat-lon model of dimension 2", DIM, good(True, 2))
def translation(r, cls, how, geo):
    s, f, pos, kw = scene(r, cls, how, geo)
    w = s.w; I = s.I; m = gsmodel(s, latlon=geo)
    nm = MODS[cls][1] + (".update_variogram_model" if how == "update" else "") + (" (geographic)" if geo else "")
    loc = meth_loc(s, "update_variogram_model" if how == "update" else "__init__")
    other = Model("other", lambda it, args, kk, node: it.np.emap(lambda x: ufn("othergamma", x), args[1], dtype="float"), callable=True)
    user = dict(variogram_function=other, variogram_parameters=w.lst([sym("user0", "R", nonneg=True), sym("user1", "R", nonneg=True)]))
    user.update({a: sym("user_" + a, "R", nonneg=True) for a in ANISO[s.dim]})
    old = getattr(s, "obj", None)
    v, dead, pend = w.attempt(f, *pos, **dict(kw, variogram_model=m, **user))
    if dead: return r.bad("completes", nm + ": raises", loc)
    s.obj = old if how == "update" else v
    info = m.info
    slots = ("pykrige_anis", "pykrige_angle") if s.dim == 2 else ("pykrige_anis_y", "pykrige_anis_z", "pykrige_angle_x", "pykrige_angle_y", "pykrige_angle_z")
    # the same settings given by hand
    kw2 = {k: x for k, x in s.ctor_args().items() if k not in ("variogram_model", "variogram_function", "variogram_parameters") + ANISO[s.dim]}
    kw2.update(variogram_model="custom", variogram_function=info["pykrige_vario"], variogram_parameters=w.lst([]))
    kw2.update({a: info[g] for a, g in zip(ANISO[s.dim], slots)})
    got = s.obj
    fresh = w.call(s.cls, *s.data, s.V, **kw2)
    if isinstance(I.resolve(fresh), Unk): return r.undecided("same state", nm, "reference object not resolved")
    compare_objects(r, s, nm, got, fresh, loc, [a for a in ATTRS if a != "model" and a not in STATS])
    for a in ("variogram_model", "variogram_function"):
        x = I.resolve(attr_or_none(s, got, a))
        want = "custom" if a == "variogram_model" else info["pykrige_vario"]
        if isinstance(x, (Unk, Choice)): r.undecided("translated", "%s: %s" % (nm, a), "not resolved")
        else: r.check(x == want if isinstance(want, str) else x is want, "translated", "%s: %s" % (nm, a), loc, dict(value=repr(x)[:80]))
    vals = [a for a in w.I.S.heap.get(got.oid, {}).values() if I.resolve(a) is m]
    r.check(bool(vals) or None, "translated", nm + ": the model is kept", loc)
    # what it computes
    s.obj = got; s.execute(); A = s.res
    s.obj = fresh; s.execute(); B = s.res
    if A is None or B is None or any(x is None for x in tuple(A) + tuple(B)): return r.undecided("same results", nm, "not resolved")
    if not r.shape(nm + ": shape", A[0], B[0].shape, loc): return
    ix, _ = s.pidx()
    for j, what in enumerate(("estimate", "variance")): r.eq("same results", "%s: %s" % (nm, what), A[j].at(ix), B[j].at(ix), (), loc, trials=3)
def jobs(tier):
    out = []
    for cls, geo in (("ok", False), ("ok", True), ("uk", False), ("ok3d", False), ("uk3d", False)):
        for how in ("constructor", "update"):
            n = "%s:%s%s" % (cls, how, ":geo" if geo else "")
            out += [("validity:" + n, validity, (cls, how, geo)), ("translation:" + n, translation, (cls, how, geo))]
    return out
