"""C23: the scikit-learn wrapper passes every setting to the kriging class it names."""
from wrap import *
EXPLANATION = ("Interprocedural value-flow analysis of Krige from its public methods, the four kriging classes replaced by stand-ins that record the parameters bound at every constructor and execute call. Every setting is a distinct opaque value: "
    "it must be stored under its own name, and arrive in the parameter of that name (tuple settings in their slot) of the class the method names - as constructed, and after every attribute was replaced as set_params and clone do - and nothing else may arrive anywhere; "
    "columns of x, targets and prediction points are symbolic and compared element by element; returned values, defaults, wrong dimensions, unknown methods and prediction before fit likewise, with and without scikit-learn. Nothing of the repository is executed.")
ASSUMPTIONS = ["scikit-learn's get_params, set_params and clone work through the constructor's signature and attributes of the same names, as documented"]
ANY = ["Exception"]
def ctor(w): return w.cls("pykrige.compat", "Krige")
def params(cls):
    f = cls.lookup("__init__"); a = f.node.args
    return f, [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
def stored(r, missing, tuples):
    w, rec = mkworld(r, missing=missing); I = w.I; K = ctor(w); nm = "Krige%s" % (" without scikit-learn" if missing else "")
    f, names = params(K)
    loc = dict(file=f.mod.path, func="Krige.__init__", line=f.node.lineno)
    a = f.node.args
    r.check(a.vararg is None and a.kwarg is None, "signature", nm + ": no *args or **kwargs", loc)
    for n in ["method"] + SETTINGS: r.check(n in names, "signature", "%s: parameter %s" % (nm, n), loc)
    if not missing:
        bases = K.mro_names()
        for b in ("BaseEstimator", "RegressorMixin"): r.check(any(x.split(".")[-1] == b for x in bases), "signature", "%s is a %s" % (nm, b), loc)
    v = opaque(w, "a", tuples)
    for m in METHODS:
        kw = {n: v[n] for n in v if n in names}
        o = w.call(K, method=m, **kw)
        if not isinstance(I.resolve(o), Obj): r.undecided("stored", nm, "object not resolved"); return
        for n in names:
            if n not in v and n != "method": r.undecided("stored", "%s: %s" % (nm, n), "setting without a model in this check"); continue
            got = attr(w, o, n)
            ok = same(I, got, m if n == "method" else v[n])
            if ok is None: r.undecided("stored", "%s(%s): %s" % (nm, m, n), "not resolved"); continue
            r.check(ok, "stored unmodified", "%s(%s): %s" % (nm, m, n), loc, dict(parameter=n, stored=show(got)))
    o = w.call(K); dn = [x.arg for x in a.args]; dflt = dict(zip(dn[len(dn) - len(f.defaults):], f.defaults)); dflt.update(f.kwdefaults or {})
    for n in names:
        r.check(n in dflt, "signature", "%s: %s has a default" % (nm, n), loc)
        ok = same(I, attr(w, o, n), I.resolve(dflt.get(n)))
        r.check(ok, "stored unmodified", "%s(): default of %s" % (nm, n), loc, dict(stored=show(attr(w, o, n)))) if ok is not None else r.undecided("stored", n, "not resolved")
    for bad in ("bogus", "Ordinary", "ordinary2d"): rejects(r, w, "unknown method", "%s(method=%r)" % (nm, bad), ["ValueError"], K, method=bad, loc=loc)
def attr(w, o, n):
    try: return w.I.resolve(w.I.getattr(o, n))
    except Dead: return Exc_missing
class _M:
    def __repr__(s): return "<no such attribute>"
Exc_missing = _M()
def scenario(r, method, missing, how, tuples):
    """how: 'ctor' settings given to the constructor; 'set' every attribute replaced afterwards; 'refit' after an earlier fit with other data and method"""
    w, rec = mkworld(r, missing=missing); I = w.I; K = ctor(w); f, names = params(K)
    what = "Krige(%s)%s" % (method, {"ctor": "", "set": " after set_params", "refit": " fitted a second time"}[how]) + (" without scikit-learn" if missing else "")
    A, B = opaque(w, "a", tuples), opaque(w, "b", tuples)
    N, M = sym("N", "I", lo=num(2)), sym("M", "I", lo=ONE)
    d = DIM[method]
    if how == "ctor": o = w.call(K, method=method, **A); vals = A
    else:
        other = {"ordinary": "universal3d", "universal": "ordinary3d", "ordinary3d": "universal", "universal3d": "ordinary"}[method]
        o = w.call(K, method=other, **B); vals = A
        if how == "refit":
            x0, _ = xmat(w, "P0", N, DIM[other]); w.meth(o, "fit", x0, w.vec("T0", N))
            q0, _ = xmat(w, "Q0", M, DIM[other]); w.meth(o, "predict", q0)
        for n in names: I.setattr(o, n, method if n == "method" else vals[n])
    k0, e0 = len(rec.init), len(rec.exec)
    x, xs = xmat(w, "P", N, d); y = w.vec("TGT", N)
    loc = floc(w, o, "fit", "compat.py")
    base = list(I.S.facts)
    v, dead, pend = w.attempt(I.getattr(o, "fit"), x, y)
    if dead: return r.bad("completes", what + ".fit: raises %s" % (exc_names(pend[-1].val)[0] if pend else "?"), loc)
    c = one(r, rec.init[k0:], what + ".fit", loc)
    if not c: return
    check_fit(r, w, c[0], what + ".fit", method, vals, xs, lambda i: sel("TGT", i), loc)
    for n in names:
        got = attr(w, o, n); ok = same(I, got, method if n == "method" else vals.get(n))
        r.check(ok, "settings kept", "%s: fit leaves %s alone" % (what, n), loc, dict(value=show(got))) if ok is not None else r.undecided("settings kept", n, "not resolved")
    q, qs = xmat(w, "Q", M, d)
    loc = floc(w, o, "predict", "compat.py")
    extra = [{}, dict(backend="vectorized"), dict(backend=sym("be", "O"))]
    if method.startswith("universal"): extra.append(dict(backend="vectorized", specified_drift_arrays=w.lst([w.vec("SPA", M)])))
    for kw in extra:
        wh = "%s.predict(%s)" % (what, ", ".join(sorted(kw)))
        k = len(rec.exec)
        v, dead, pend = w.attempt(I.getattr(o, "predict"), q, **kw)
        if dead: r.bad("completes", wh + ": raises %s" % (exc_names(pend[-1].val)[0] if pend else "?"), loc); continue
        e = one(r, rec.exec[k:], wh, loc)
        if not e: continue
        check_exec(r, w, e[0], wh, c[0]["obj"], vals, qs, kw, loc)
        got = I.resolve(v)
        if not isinstance(got, Arr): r.undecided("returned", wh, "result not resolved") if isinstance(got, (Unk, Choice)) else r.bad("returned", wh + ": not an array", loc); continue
        if r.shape(wh + ": shape of the result", w.snap(got), (M,), loc):
            i = TM._index(M, "i"); r.eq("returned", wh + ": the prediction", w.snap(got).at((i,)), w.snap(e[0]["res"][0]).at((i,)), (), loc)
        # execute with named points
        loc2 = floc(w, o, "execute", "compat.py")
        k = len(rec.exec); wh = wh.replace(".predict", ".execute")
        cols = [w.vec("C%d" % j, M) for j in range(d)]
        pd = I.newdict(dict(zip(("xpoints", "ypoints", "zpoints"), cols)))
        before = dict(I.S.heap[pd.oid]) if isinstance(I.S.heap[pd.oid], dict) else None
        v, dead, pend = w.attempt(I.getattr(o, "execute"), pd, **kw)
        if dead: r.bad("completes", wh + ": raises %s" % (exc_names(pend[-1].val)[0] if pend else "?"), loc2); continue
        e = one(r, rec.exec[k:], wh, loc2)
        if not e: continue
        check_exec(r, w, e[0], wh, c[0]["obj"], vals, (lambda i, k: sel("C%d" % k, i), M), kw, loc2)
        if before is not None: r.check(I.S.heap[pd.oid] == before, "argument untouched", wh + ": the caller's dictionary is left as it was", loc2)
        it = I.items(v) if not isinstance(I.resolve(v), Unk) else None
        if it is None or len(it) != 2: r.undecided("returned", wh, "result not resolved"); continue
        i = TM._index(M, "i")
        for g, ww, nn in zip(it, e[0]["res"], ("prediction", "variance")): r.eq("returned", "%s: the %s" % (wh, nn), w.snap(g).at((i,)), w.snap(ww).at((i,)), (), loc2)
def rejected(r, method, missing):
    w, rec = mkworld(r, missing=missing); I = w.I; K = ctor(w); nm = "Krige(%s)" % method + (" without scikit-learn" if missing else "")
    N = sym("N", "I", lo=num(5))
    o = w.call(K, method=method); d = DIM[method]
    loc = floc(w, o, "predict", "compat.py")
    q = [xmat(w, "Q%d" % k, N, k)[0] for k in range(1, 6)]
    rejects(r, w, "predict before fit", nm, ANY, I.getattr(o, "predict"), q[d - 1], loc=loc)
    y = w.vec("TGT", N); loc = floc(w, o, "fit", "compat.py")
    for k in (1, 2, 3, 4, 5):
        if k != d: rejects(r, w, "wrong dimension", "%s.fit with %d columns" % (nm, k), ["ValueError"], I.getattr(o, "fit"), q[k - 1], y, loc=loc)
    rejects(r, w, "predict before fit", nm + " after rejected fits", ANY, I.getattr(o, "predict"), q[d - 1], loc=loc)
    w.meth(o, "fit", q[d - 1], y); loc = floc(w, o, "predict", "compat.py")
    for k in (1, 2, 3, 4, 5):
        if k != d: rejects(r, w, "wrong dimension", "%s.predict with %d columns" % (nm, k), ["ValueError"], I.getattr(o, "predict"), q[k - 1], loc=loc)
    I.setattr(o, "method", "bogus")
    rejects(r, w, "unknown method", nm + ".fit after set_params(method='bogus')", ANY, I.getattr(o, "fit"), q[d - 1], y, loc=loc)
def defaults(r, method, missing):
    """settings left unset act as the kriging class's own defaults"""
    w, rec = mkworld(r, missing=missing); I = w.I; K = ctor(w)
    o = w.call(K, method=method); N = sym("N", "I", lo=num(2)); x, xs = xmat(w, "P", N, DIM[method])
    loc = floc(w, o, "fit", "compat.py"); w.meth(o, "fit", x, w.vec("TGT", N))
    c = one(r, rec.init, "Krige(%s).fit" % method, loc)
    if not c: return
    for p, dv in c[0]["defaults"].items():
        got = I.resolve(c[0]["raw"][p]); dv = I.resolve(dv)
        if isinstance(got, (Unk, Choice)): r.undecided("defaults", p, "not resolved"); continue
        ok = same(I, got, dv) or (not isinstance(got, T) and not isinstance(dv, T) and got in (None, False) and dv in (None, False))
        r.check(ok, "defaults", "Krige(method=%r): %s left unset" % (method, p), loc, dict(parameter=p, received=show(got), default=show(dv)))
def jobs(tier):
    out = []
    for miss in ((), ("sklearn",)):
        t = ":no-sklearn" if miss else ""
        for tu in ("tuple", "list"): out.append(("stored:%s%s" % (tu, t), stored, (miss, tu)))
        for m in METHODS:
            for how in ("ctor", "set", "refit"): out.append(("%s:%s%s" % (m, how, t), scenario, (m, miss, how, "list" if how == "set" else "tuple")))
            out.append(("rejected:%s%s" % (m, t), rejected, (m, miss)))
            out.append(("defaults:%s%s" % (m, t), defaults, (m, miss)))
    return out
