"""C24: regression kriging = regression prediction + kriged regression residual."""
from wrap import *
EXPLANATION = ("Interprocedural value-flow analysis of RegressionKriging from its public methods with a modelled scikit-learn regressor (training data of every fit recorded, predictions an uninterpreted function of the fit and of the predictor row) and the four kriging classes "
    "replaced by recording stand-ins: training data, residuals, coordinates and every (opaque, unique) kriging setting are compared with what must arrive, for all four methods, first and second fit; predict must be the sum of both parts element by element, and score, with r2_score expanded to its formula, "
    "must compare exactly those predictions with the targets; estimators of other types must be rejected and default estimators must not be shared. Nothing of the repository is executed.")
ASSUMPTIONS = ["the estimator follows scikit-learn's fit/predict interface and predicts one value per row", "sklearn.metrics.r2_score is 1 - sum w (y - p)^2 / sum w (y - mean_w y)^2"]
MOD, CLS = "pykrige.rk", "RegressionKriging"
NAME = "regression_model"
def estimator(w, tag, bases=("BaseEstimator", "RegressorMixin"), d=2):
    """a modelled regressor: prediction = function of (estimator, number of fits, predictor row)"""
    I = w.I; st = dict(fits=[])
    def fit(it, args, kw, node):
        env = dict(zip(("X", "y", "sample_weight"), args)); env.update(kw)
        st["fits"].append({k: (w.snap(v) if isinstance(it.resolve(v), Arr) else it.resolve(v)) for k, v in env.items()})
        return m
    def predict(it, args, kw, node):
        X = w.snap(args[0] if args else kw["X"]); k = num(len(st["fits"]))
        if X is None or X.ndim != 2: return it.unknown("predictors")
        return it.newarr((X.shape[0],), lambda ix: ufn("reg_" + tag, k, *[X.at((ix[0], num(j))) for j in range(d)]), "float")
    m = Model("estimator " + tag, None, bases=bases, fit=Model("fit", fit, callable=True), predict=Model("predict", predict, callable=True))
    return m, st
def r2(w):
    def f(args, kw):
        I = w.I
        env = dict(zip(("y_true", "y_pred"), args)); env.update(kw)
        a, b = (w.snap(env[k]) for k in ("y_true", "y_pred"))
        sw = I.resolve(env.get("sample_weight"))
        if a is None or b is None or set(env) - {"y_true", "y_pred", "sample_weight"}: return I.unknown("arguments of r2_score")
        ws = None if sw is None else w.snap(sw)
        return formula(a, b, ws)
    return f
def formula(a, b, ws):
    n = a.shape[0]
    wt = (lambda i: ONE) if ws is None else (lambda i: ws.at((i,)))
    mean = div(summ(n, lambda i: mul(wt(i), a.at((i,)))), summ(n, wt))
    return sub(ONE, div(summ(n, lambda i: mul(wt(i), power(sub(a.at((i,)), b.at((i,))), 2))), summ(n, lambda i: mul(wt(i), power(sub(a.at((i,)), mean), 2)))))
def world(r):
    made = []
    def lib_call(I, name, args, kw, node):
        if name.startswith("sklearn.") and name.split(".")[-1] == "SVR":
            m, st = estimator(W[0], "default%d" % len(made)); made.append((m, st, dict(kw))); return m
        if name.startswith("sklearn.") and name.endswith(".r2_score"): return r2(W[0])(args, kw)
        return NotImplemented
    W = []
    w, rec = mkworld(r, lib_call=lib_call); W.append(w)
    return w, rec, made
def data(w, method, tag="", whole=False):
    N = sym("N" + tag, "I", lo=num(2)); d = DIM[method]
    p, ps = xmat(w, "PRED" + tag, N, 2); x, xs = xmat(w, "P" + tag, N, d)
    return N, (p, ps), (x, xs), w.vec("TGT" + tag, N) if not whole else ints(w, "TGT" + tag, N)
def ints(w, name, N):
    a = w.I.newarr((N,), lambda ix: sel(name, *ix, sort="I"), "int"); w.I.inputs[a.buf] = name
    return a
def scenario(r, method, how):
    w, rec, made = world(r); I = w.I; K = w.cls(MOD, CLS)
    what = "%s(%s)%s" % (CLS, method, {"refit": " fitted a second time", "int": " with integer targets"}.get(how, ""))
    TS = "I" if how == "int" else "R"
    vals = opaque(w, "a"); m, st = estimator(w, "given")
    o = w.call(K, **{NAME: m}, method=method, **vals)
    loc = floc(w, o, "__init__", "rk.py")
    if how == "refit":
        N0, p0, x0, y0 = data(w, method, "_old")
        w.meth(o, "fit", p0[0], x0[0], y0); w.meth(o, "predict", p0[0], x0[0])
    k0, f0 = len(rec.init), len(st["fits"])
    N, (p, ps), (x, xs), y = data(w, method, whole=how == "int")
    loc = floc(w, o, "fit", "rk.py")
    v, dead, pend = w.attempt(I.getattr(o, "fit"), p, x, y)
    if dead: return r.bad("completes", what + ".fit: raises %s" % (exc_names(pend[-1].val)[0] if pend else "?"), loc)
    fits = one(r, st["fits"][f0:], what + ".fit of the regressor", loc); inits = one(r, rec.init[k0:], what + ".fit of the residual", loc)
    if not fits or not inits: return
    i = TM._index(N, "i")
    env = fits[0]
    for nm, src, cols in (("X", ps[0], 2), ("y", lambda i, k: sel("TGT", i, sort=TS), None)):
        s = env.get(nm)
        if s is None or not hasattr(s, "at"): r.undecided("trains on (p, y)", what, "%s not resolved" % nm); continue
        if not r.shape("%s: %s of the regressor" % (what, nm), s, (N,) if cols is None else (N, num(cols)), loc): continue
        for k in range(cols or 1): r.eq("trains on (p, y)", "%s: %s[%d]" % (what, nm, k), s.at((i,) if cols is None else (i, num(k))), src(i, k), (), loc)
    r.check(set(env) <= {"X", "y"}, "trains on (p, y)", what + ": nothing else given to fit", loc, dict(given=sorted(env)))
    fk = num(len(st["fits"]))
    reg = lambda P: (lambda i: ufn("reg_given", fk, P(i, 0), P(i, 1)))
    check_fit(r, w, inits[0], what + ".fit", method, vals, xs, lambda i: sub(sel("TGT", i, sort=TS), reg(ps[0])(i)), loc)
    M = sym("M", "I", lo=num(2)); q, qs = xmat(w, "Q", M, DIM[method]); pq, pqs = xmat(w, "PQ", M, 2); yq = w.vec("YQ", M); sw = w.vec("SW", M)
    rinterp.ARR["SW"] = dict(gen=lambda val, key: rinterp.mpf(h64(val.seed, "sw", *map(str, key)) % 97 + 3) / 10)
    extra = [{}, dict(backend=sym("be", "O"))]
    if method.startswith("universal"): extra.append(dict(backend="vectorized", specified_drift_arrays=w.lst([w.vec("SPA", M)])))
    for kw in extra:
        want = lambda i: add(ufn("kpred", num(inits[0]["k"]), *[qs[0](i, k) for k in range(DIM[method])]), reg(pqs[0])(i))
        res = lambda i: ufn("kpred", num(inits[0]["k"]), *[qs[0](i, k) for k in range(DIM[method])])
        for fn_, args, ref in (("predict", (pq, q), want), ("krige_residual", (q,), res), ("score", (pq, q, yq), None), ("score", (pq, q, yq, sw), None)):
            wh = "%s.%s(%s)" % (what, fn_, ", ".join(sorted(kw))) + (" weighted" if len(args) == 4 else "")
            loc = floc(w, o, fn_, "rk.py"); k = len(rec.exec)
            v, dead, pend = w.attempt(I.getattr(o, fn_), *args, **kw)
            if dead: r.bad("completes", wh + ": raises %s" % (exc_names(pend[-1].val)[0] if pend else "?"), loc); continue
            e = one(r, rec.exec[k:], wh, loc)
            if not e: continue
            check_exec(r, w, e[0], wh, inits[0]["obj"], vals, qs, kw, loc)
            v = I.resolve(v)
            if fn_ == "score":
                if not isinstance(v, T): r.undecided("score", wh, "not resolved"); continue
                from values import Snap
                a = w.snap(yq); b = w.snap(I.newarr((M,), lambda ix: want(ix[0]), "float"))
                r.eq("score", wh, v, formula(a, b, w.snap(sw) if len(args) == 4 else None), (), loc); continue
            if not isinstance(v, Arr): r.undecided("sum", wh, "not resolved") if isinstance(v, (Unk, Choice)) else r.bad("sum", wh + ": not an array", loc); continue
            if r.shape(wh + ": shape", w.snap(v), (M,), loc):
                j = TM._index(M, "i"); r.eq("sum of both parts" if fn_ == "predict" else "kriged residual", wh, w.snap(v).at((j,)), ref(j), (), loc)
def types(r):
    w, rec, made = world(r); K = w.cls(MOD, CLS); loc = dict(file=K.mod.path, func=CLS + ".__init__", line=K.lookup("__init__").node.lineno)
    for b in ((), ("BaseEstimator",), ("RegressorMixin",), ("BaseEstimator", "ClassifierMixin"), ("TransformerMixin", "BaseEstimator")):
        m, _ = estimator(w, "bad", b)
        rejects(r, w, "estimator type", "%s with an object that is %s" % (CLS, "+".join(b) or "no estimator"), ["RuntimeError"], K, m, loc=loc)
    rejects(r, w, "estimator type", CLS + " with a string", ["RuntimeError"], K, "svr", loc=loc)
    for b in (("BaseEstimator", "RegressorMixin"), ("RegressorMixin", "BaseEstimator"), ("MultiOutputMixin", "RegressorMixin", "BaseEstimator")):
        m, _ = estimator(w, "good", b)
        accepts(r, w, "estimator type", "%s with a regressor (%s)" % (CLS, "+".join(b)), K, m, loc=loc)
    for bad in ("bogus", "Ordinary"): rejects(r, w, "unknown method", "%s(method=%r)" % (CLS, bad), ["ValueError"], K, estimator(w, "good")[0], method=bad, loc=loc)
def defaults(r, method):
    w, rec, made = world(r); I = w.I; K = w.cls(MOD, CLS)
    loc = dict(file=K.mod.path, func=CLS + ".__init__", line=K.lookup("__init__").node.lineno)
    a = w.call(K, method=method); b = w.call(K, method=method)
    ma, mb = (I.resolve(I.getattr(o, NAME)) for o in (a, b))
    if not isinstance(ma, Model) or not isinstance(mb, Model): r.undecided("own default estimator", CLS, "not resolved")
    else: r.check(ma is not mb, "own default estimator", "%s(): two instances do not share their default %s" % (CLS, NAME), loc)
    N, (p, ps), (x, xs), y = data(w, method); w.meth(a, "fit", p, x, y)
    loc = floc(w, a, "fit", "rk.py")
    c = one(r, rec.init, "%s(%s).fit" % (CLS, method), loc)
    if not c: return
    for pn, dv in c[0]["defaults"].items():
        got = I.resolve(c[0]["raw"][pn]); dv = I.resolve(dv)
        if isinstance(got, (Unk, Choice)): r.undecided("defaults", pn, "not resolved"); continue
        ok = same(I, got, dv) or (not isinstance(got, T) and not isinstance(dv, T) and got in (None, False) and dv in (None, False))
        r.check(ok, "defaults", "%s(method=%r): %s left unset" % (CLS, method, pn), loc, dict(parameter=pn, received=show(got), default=show(dv)))
    N1, (p1, _), (x1, _), y1 = data(w, method, "_2")
    rejects(r, w, "predict before fit", "%s(%s)" % (CLS, method), ["Exception"], I.getattr(b, "predict"), p1, x1, loc=floc(w, b, "predict", "rk.py"))
def jobs(tier):
    out = [("types", types, ())]
    for m in METHODS:
        for how in ("ctor", "refit", "int"): out.append(("%s:%s" % (m, how), scenario, (m, how)))
        out.append(("defaults:" + m, defaults, (m,)))
    return out
