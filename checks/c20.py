"""C20: invalid arguments are rejected before anything is computed from them."""
from scen import *
import itertools, math, c31
EXPLANATION = (HOW + "constructor, update and execute of every class are analysed with every kind of invalid argument, sizes and data symbolic where possible: every path must raise the documented exception; and with every documented "
    "style and backend, which must complete; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
V = ["ValueError"]
BADSTR = ("", "nosuch", None, True)
def values(good):
    out = list(BADSTR) + [num(0), num(1)]
    for g in good: out += [g.upper() if g.upper() != g else g.lower(), g + " ", g[:-1], g + "s"]
    return [v for v in out if v not in good]
def vn(v): return str(numval(v)) if isinstance(v, T) else repr(v)
def ctor(r, cls):
    s = Sc(r, dict(cls=cls, vm="linear")); w = s.w; s.cls = w.cls(*MODS[cls]); loc = meth_loc(s, "__init__"); nm = MODS[cls][1]
    def bad(what, **kw):
        a = dict(variogram_parameters=s.parlist); a.update(kw)
        rejects(r, w, "constructor arguments", "%s(%s)" % (nm, what), V, s.cls, *s.data, s.V, loc=loc, **a)
    for v in (num(0), num(1), "True", "", None, w.lst([]), num(F(1, 2))): bad("exact_values=%s" % (vn(v) if not isinstance(v, Lst) else "[]"), exact_values=v)
    for b in (True, False):
        for t in ("pinv2", "inv", "", "PINV", "lstsq", None): bad("pseudo_inv=%s, pseudo_inv_type=%r" % (b, t), pseudo_inv=b, pseudo_inv_type=t)
    for v in ("nosuch", "Linear", "", "hole", None): bad("variogram_model=%r" % (v,), variogram_model=v)
    for kw in ({}, dict(variogram_function="f"), dict(variogram_function=num(1))): bad("variogram_model='custom' without callable", variogram_model="custom", **kw)
    if cls == "ok":
        for v in values(("euclidean", "geographic")): bad("coordinates_type=%s" % vn(v), coordinates_type=v)
        for v in ("euclidean", "geographic"): accepts(r, w, "documented values", "%s(coordinates_type=%r)" % (nm, v), s.cls, *s.data, s.V, variogram_parameters=s.parlist, coordinates_type=v, loc=loc)
    for b in (True, False): accepts(r, w, "documented values", "%s(exact_values=%s)" % (nm, b), s.cls, *s.data, s.V, variogram_parameters=s.parlist, exact_values=b, loc=loc)
    for t in ("pinv", "pinvh"): accepts(r, w, "documented values", "%s(pseudo_inv_type=%r)" % (nm, t), s.cls, *s.data, s.V, variogram_parameters=s.parlist, pseudo_inv=True, pseudo_inv_type=t, loc=loc)
    s.obj = w.call(s.cls, *s.data, s.V, variogram_parameters=s.parlist); loc = meth_loc(s, "update_variogram_model")
    for v in ("nosuch", "Linear", "", "hole", None):
        rejects(r, w, "update arguments", "%s.update_variogram_model(%r)" % (nm, v), V, s.I.getattr(s.obj, "update_variogram_model"), v, variogram_parameters=s.parlist, loc=loc)
BACK = {"ok": ("vectorized", "loop", "C"), "uk": ("vectorized", "loop"), "ok3d": ("vectorized", "loop"), "uk3d": ("vectorized", "loop")}
def execute(r, cls, style):
    s = Sc(r, dict(cls=cls, vm="linear")); w = s.w; nm = MODS[cls][1]; s.construct(); loc = exec_loc(s)
    ex = s.I.getattr(s.obj, "execute")
    n = (3, 4, 5)[:s.dim]
    axes = [w.vec(a, num(k)) for a, k in zip(("XP", "YP", "ZP"), n)]; pts = [w.vec(a, num(3)) for a in ("XP", "YP", "ZP")[:s.dim]]
    P = pts if style == "points" else axes
    good = tuple(reversed(n)); mask = w.boolmat("MASK", *map(num, good))
    kw0 = dict(mask=mask) if style == "masked" else {}
    def bad(what, allowed, *args, **kw): rejects(r, w, "execute arguments", "%s.execute(%s)" % (nm, what), allowed, ex, *args, loc=loc, **kw)
    backs = BACK[cls]
    for b in values(backs):
        if cls != "ok" and b == "C": pass
        bad("%r, backend=%s" % (style, vn(b)), V, style, *P, backend=b, **kw0)
    if cls != "ok": bad("%r, backend='C'" % style, V, style, *P, backend="C", **kw0)
    for b in backs: accepts(r, w, "documented values", "%s.execute(%r, backend=%r)" % (nm, style, b), ex, style, *P, backend=b, loc=loc, **kw0)
    if cls in ("ok", "ok3d"):
        wb = [b for b in backs if b != "vectorized"]
        for b in backs:
            for what, k in (("0", num(0)), ("1", num(1)), ("-1", num(-1)), ("N+1", add(s.N, ONE)), ("N+7", add(s.N, num(7)))): bad("%r, backend=%r, n_closest_points=%s" % (style, b, what), V, style, *P, backend=b, n_closest_points=k, **kw0)
        bad("%r, backend='vectorized', n_closest_points=2" % style, V, style, *P, backend="vectorized", n_closest_points=num(2), **kw0)
        bad("%r, backend='nosuch', n_closest_points=2" % style, V, style, *P, backend="nosuch", n_closest_points=num(2), **kw0)
        for b in wb:
            for what, k in (("2", num(2)), ("N", s.N)): accepts(r, w, "documented values", "%s.execute(%r, backend=%r, n_closest_points=%s)" % (nm, style, b, what), ex, style, *P, backend=b, n_closest_points=k, loc=loc, **kw0)
    if style == "points":
        for v in values(("grid", "masked", "points")): bad("style=%s" % vn(v), V, v, *pts)
        for v in values(("grid", "masked", "points")): bad("style=%s, mask" % vn(v), V, v, *axes, mask=mask)
        for q in itertools.product((3, 4), repeat=s.dim):
            if len(set(q)) == 1: continue
            for b in backs: bad("'points' with %s coordinates, backend=%r" % (q, b), V, "points", *[w.vec(a, num(k)) for a, k in zip(("XP", "YP", "ZP"), q)], backend=b)
        m = sym("M", "I", lo=ONE)
        for d in range(s.dim): bad("'points' with one more value in coordinate %d" % d, V, "points", *[w.vec(a, add(m, ONE) if k == d else m) for k, a in enumerate(("XP", "YP", "ZP")[:s.dim])])
    if style == "masked":
        for b in backs: bad("'masked' without mask, backend=%r" % b, ["OSError", "IOError"], "masked", *axes, backend=b)
        for q in itertools.product((3, 4, 5) if s.dim == 3 else (2, 3, 4, 5), repeat=s.dim):
            if q in (good, tuple(reversed(good))): continue
            bad("'masked' with a mask of shape %s for %s" % (q, good), V, "masked", *axes, mask=w.boolmat("MASK", *map(num, q)))
        # masks with the right number of entries: every factorisation
        n2 = (4, 6, 9)[:s.dim] if s.dim == 3 else (4, 9); tot = math.prod(n2); ax2 = [w.vec(a, num(k)) for a, k in zip(("XP", "YP", "ZP"), n2)]
        for q in itertools.product([k for k in range(1, tot + 1) if tot % k == 0], repeat=s.dim):
            if math.prod(q) != tot or q in (n2, n2[::-1]): continue
            bad("'masked' with a mask of shape %s for %s" % (q, n2[::-1]), V, "masked", *ax2, mask=w.boolmat("MASK", *map(num, q)))
        for q in ((20,), (4,), (1,), (4, 5, 3, 1), (4, 3, 2), (4, 3, 1), (3, 4, 1), (1, 4, 3)):
            if len(q) != s.dim: bad("'masked' with a %d-dimensional mask of shape %s" % (len(q), q), V, "masked", *axes, mask=w.boolmat("MASK", *map(num, q)))
        if s.dim == 3: bad("'masked' with a two-dimensional mask", V, "masked", *axes, mask=w.boolmat("MASK", num(5), num(4)))
        # symbolic sizes: a mask one row too long
        ns = [sym(a, "I", lo=num(2)) for a in ("nx", "ny", "nz")[:s.dim]]
        for d in range(s.dim):
            sh = [add(k, num(100)) if j == d else k for j, k in enumerate(reversed([num(6)] * s.dim))]
            bad("'masked' with a mask 100 longer in dimension %d" % d, V, "masked", *[w.vec(a, num(6)) for a in ("XP", "YP", "ZP")[:s.dim]], mask=w.boolmat("MASK", *sh))
def wrapper(r, cls):
    w = World(r); s = None
    K = w.cls("pykrige.compat", "Krige")
    loc = dict(file="src/pykrige/compat.py", func="Krige.__init__", line=0)
    for v in values(("ordinary", "universal", "ordinary3d", "universal3d")):
        rejects(r, w, "kriging method", "Krige(method=%s)" % vn(v), V, K, method=v, loc=loc)
    for v in ("ordinary", "universal", "ordinary3d", "universal3d"): accepts(r, w, "documented values", "Krige(method=%r)" % v, K, method=v, loc=loc)
def jobs(tier):
    out = [("constructor:" + c, ctor, (c,)) for c in MODS]
    out += [("execute:%s:%s" % (c, st), execute, (c, st)) for c in MODS for st in ("grid", "masked", "points")]
    out += [("drift:" + c, c31.rejections, (c,)) for c in ("uk", "uk3d")]
    out.append(("Krige", wrapper, (None,)))
    return out
