"""C21: the compiled backend never accesses memory outside its arrays."""
from scen import *
from rinterp import Val, Resample, Unknown, facts_hold
EXPLANATION = (HOW + "every load, store, slice and BLAS/LAPACK pointer argument of the Cython code reached from execute(backend='C') becomes an obligation 'first and last element lie inside the array', in terms of symbolic sizes, window, neighbour indices and parameter counts, "
    "under the conditions the Python side has established by then; mask, point, data, window and parameter-list shapes are left free, so that a missing validation shows as an access that can fail. Obligations are proved by interval and polynomial reasoning over the sizes, "
    "else decided by random interpretation with a witness required before a violation is reported; LAPACK's error code must raise. Nothing of the repository is executed.")
ASSUMPTIONS = [a for a in BASE_ASSUME if "singular" not in a] + ["scipy.spatial.cKDTree.query returns index n for neighbours that do not exist and rejects non-finite points", "sizes stay below 2**31"]
def size_of(n): return n.count() if isinstance(n, FDim) else n
def inside(r, s, name, evs, need=True):
    seen = {}; n = 0
    for e in evs:
        i, n_ = e["index"], size_of(e["size"])
        loc = e["loc"]
        what = "%s line %s: %s" % (loc.get("func"), loc.get("line"), e["acc"])
        if not isinstance(i, T) or not isinstance(n_, T): r.undecided("inside", "%s: %s" % (name, what), "index not resolved"); continue
        k = (loc.get("line"), loc.get("file"), e["dim"], e["acc"], i, n_, e["facts"])
        if k in seen: continue
        seen[k] = 1; n += 1
        set_facts(()); old = TM.Ctx.facts
        set_facts(e["facts"])
        try: ok = TM.decide_ge0(i) is True and TM.decide_ge0(sub(sub(n_, ONE), i)) is True
        finally: set_facts(old)
        if ok: r.nf += 1; r.ok("inside", "%s: %s" % (name, what)); continue
        hit = None; tried = 0
        for t in range(160):
            v = Val(h64(SEED, "bounds", t))
            try:
                if not facts_hold(v, e["facts"]): continue
                x, y = v.ev(i), v.ev(n_); tried += 1
                if not (0 <= x < y): hit = (v, x, y); break
            except Resample: continue
            except Exception as ex: r.undecided("inside", "%s: %s" % (name, what), repr(ex)[:80]); break
        else:
            if tried < 8: r.undecided("inside", "%s: %s" % (name, what), "only %d admissible samples" % tried)
            else: r.ri += 1; r.ok("inside", "%s: %s" % (name, what))
            continue
        if hit: r.bad("inside", "%s: %s outside the array" % (name, what), loc, dict(index=str(hit[1])[:12], size=str(hit[2])[:12], access=show(i)[:80], extent=show(n_)[:60],
                      at={t.a[0]: str(x)[:12] for t, x in hit[0].cache.items() if isinstance(t, T) and t.op == "sym"}))
    return n
def access(s, e0): return [e for e in s.I.events[e0:] if e["kind"] == "access"]
def near(name, other, lo=1):
    """an independent size, sampled equal to one of the others most of the time"""
    t = sym(name, "I", lo=num(lo))
    def gen(val, key):
        h = h64(val.seed, "near", name)
        return 1 + h // 7 % 5 if h % 5 == 0 else int(val.sym(other[h // 7 % len(other)]))
    TM.SYMINFO.setdefault(t, {})["gen"] = gen; return t
def size(name, lo=1, span=4):
    t = sym(name, "I", lo=num(lo)); TM.SYMINFO.setdefault(t, {})["span"] = span; return t
def run(r, s, name, f, *args, **kw):
    """the call, and the accesses of its compiled part"""
    e0 = len(s.I.events)
    v, dead, pend = s.w.attempt(f, *args, **kw)
    ev = access(s, e0)
    n = inside(r, s, name, ev)
    return v, dead, n
def valid(r, cfg):
    """documented configurations: shapes free where the API checks them"""
    s = Sc(r, dict(cfg, backend="C"), bounds=True); s.construct()
    w, I = s.w, s.I; st = cfg["style"]; name = cfgname(s.c)
    K = sym("KF", "I"); TM.SYMINFO.setdefault(K, {})["gen"] = lambda val, key: int(val.sym(s.N)) + (1, 0, 0, -1, -1, -2, 2, -4)[h64(val.seed, "K") % 8]
    kw = dict(backend="C")
    if cfg.get("win"): kw["n_closest_points"] = K
    if st == "points": pts = [w.vec("XP", size("m1")), w.vec("YP", near("m2", (size("m1"),)))] if cfg.get("free") else s.points("points")
    else:
        nx, ny = size("nx"), size("ny"); pts = [w.vec("XP", nx), w.vec("YP", ny)]
    if st == "masked": kw["mask"] = w.boolmat("MASK", near("mr", (ny, ny, ny, nx)), near("mc", (nx, nx, nx, ny))) if cfg.get("free") else w.boolmat("MASK", ny, nx)
    v, dead, n = run(r, s, name, I.getattr(s.obj, "execute"), st, *pts, **kw)
    if dead: return r.undecided("reached", name, "no admissible input completes")
    if not n: return r.undecided("reached", name, "no access of compiled code reached: %s" % s.I.unsup[:1])
    r.ok("reached", "%s: %d accesses" % (name, n))
def shapes(r, win):
    """data arrays of different lengths"""
    for k, which in enumerate(("x", "y", "z")):
        for vm in ("linear", "spherical"):
            s = Sc(r, dict(cls="ok", vm=vm, style="points", backend="C"), bounds=True); w = s.w; s.cls = w.cls(*MODS["ok"])
            d = [s.data[0], s.data[1], s.V]; d[k] = w.vec("OTHER", size("nother", 1, 6))
            name = "%s of another length, %s%s" % (which, vm, ", window" if win else "")
            v, dead, pend = w.attempt(s.cls, *d, **s.ctor_args())
            if dead: r.ok("rejected", name + ": by the constructor"); continue
            s.obj = v; kw = dict(backend="C")
            if win: kw["n_closest_points"] = num(2)
            v, dead, n = run(r, s, name, w.I.getattr(s.obj, "execute"), "points", *s.points("points"), **kw)
            if dead and not n: r.ok("rejected", name + ": by execute")
def parameters(r, vm):
    """parameter lists of every length, for constructor and update; functions that only look like a built-in model"""
    for how in ("constructor", "update"):
        for n in range(0, 6):
            s = Sc(r, dict(cls="ok", vm=vm, style="points", backend="C"), bounds=True); w = s.w; s.cls = w.cls(*MODS["ok"])
            ps = w.lst([sym("q%d" % j, "R", nonneg=True, lo=ZERO) for j in range(n)])
            name = "%s with %d parameters, %s" % (vm, n, how)
            if how == "constructor": v, dead, pend = w.attempt(s.cls, *s.data, s.V, variogram_model=vm, variogram_parameters=ps); s.obj = v
            else:
                s.construct(); v, dead, pend = w.attempt(w.I.getattr(s.obj, "update_variogram_model"), vm, variogram_parameters=ps)
            if not dead:
                v, dead, k = run(r, s, name, w.I.getattr(s.obj, "execute"), "points", *s.points("points"), backend="C")
                if not k and not dead: r.undecided("reached", name, "no access of compiled code reached")
                else: r.ok("reached", name)
            else: r.ok("rejected", name)
def lookalike(r):
    for nm in ("linear_variogram_model", "power_variogram_model", "gaussian_variogram_model", "exponential_variogram_model", "spherical_variogram_model"):
        for n in (0, 1):
            s = Sc(r, dict(cls="ok", vm="custom", style="points", backend="C"), bounds=True); w = s.w; s.cls = w.cls(*MODS["ok"])
            f = Model("user", lambda it, args, kw, node: it.np.emap(lambda x: ufn("user", x), args[1], dtype="float"), callable=True, __name__=nm)
            s.obj = w.call(s.cls, *s.data, s.V, variogram_model="custom", variogram_function=f, variogram_parameters=w.lst([sym("q", "R", nonneg=True)][:n]))
            name = "user function called %s with %d parameters" % (nm, n)
            v, dead, k = run(r, s, name, w.I.getattr(s.obj, "execute"), "points", *s.points("points"), backend="C")
            if not k: r.ok("rejected", name)
def singular(r, vm, k, code):
    """LAPACK reports an error: execute raises"""
    s = Sc(r, dict(cls="ok", vm=vm, style="points", backend="C", n_pts=1), bounds=True, dgesv_info=num(code)); s.construct(); w = s.w
    name = "%s: dgesv returns info=%d" % (vm, code)
    loc = exec_loc(s)
    rejects(r, w, "singular raises", name, ["ValueError", "LinAlgError"], w.I.getattr(s.obj, "execute"), "points", *s.points("points"), backend="C", n_closest_points=num(k), loc=loc)
def jobs(tier):
    out = []
    VM = ("linear", "power", "gaussian", "exponential", "spherical")
    for vm in VM:
        for st in ("points", "grid", "masked"):
            for win in (False, True):
                if vm in ("linear", "spherical") or st == "points" or tier == "thorough":
                    c = dict(cls="ok", vm=vm, style=st, win=win, free=True)
                    out.append((cfgname(c), valid, (c,)))
        out.append(("parameters:" + vm, parameters, (vm,)))
    for win in (False, True):
        for st in ("points", "masked"):
            for o in (dict(exact=False), dict(pinv="pinv"), dict(pinv="pinvh"), dict(geo=True)):
                c = dict(cls="ok", vm="power", style=st, win=win, free=True, **o); out.append((cfgname(c), valid, (c,)))
        out.append(("shapes:%s" % win, shapes, (win,)))
    out.append(("lookalike", lookalike, ()))
    for vm in ("linear", "gaussian"):
        for code in (1, 3, -2): out.append(("singular:%s:%d" % (vm, code), singular, (vm, 2, code)))
    return out
