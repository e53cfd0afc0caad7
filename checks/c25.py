"""C25: classification kriging: log-ratio residuals, exact inverse, original labels."""
from wrap import *
from fractions import Fraction as F
EXPLANATION = ("Interprocedural value-flow analysis of ClassificationKriging from its public methods with a modelled scikit-learn classifier (training data recorded, class probabilities an uninterpreted function of fit, predictor row and class; 2 to 4 classes with symbolic labels) "
    "and the four kriging classes replaced by recording stand-ins. The forward and inverse transforms are analysed on their own (identity on the simplex, isometry, finite for one-hot rows); every kriged target, coordinate and (opaque, unique) setting, the predicted label and the score are compared with their definition; "
    "terms are compared by normal form, else by random interpretation of both terms with a witness required before a violation is reported. Nothing of the repository is executed.")
ASSUMPTIONS = ["the estimator follows scikit-learn's fit/predict_proba interface with classes_ sorted", "scipy.linalg.helmert, sklearn's OneHotEncoder and accuracy_score follow their documentation", "real arithmetic: rounding is not modelled"]
MOD, CLS, NAME = "pykrige.ck", "ClassificationKriging", "classification_model"
mpf = rinterp.mpf
def lib_calls(made, W, k):
    def lib_call(I, name, args, kw, node):
        if not name.startswith("sklearn."): return NotImplemented
        n = name.split(".")[-1]; w = W[0]
        if n == "SVC":
            m, st = estimator(w, "default%d" % len(made), k, proba=I.resolve(kw.get("probability", False)) is True); made.append(m); return m
        if n == "accuracy_score":
            env = dict(zip(("y_true", "y_pred"), args)); env.update(kw)
            a, b = (w.snap(env[q]) for q in ("y_true", "y_pred")); sw = I.resolve(env.get("sample_weight"))
            if a is None or b is None: return I.unknown("arguments of accuracy_score")
            return accuracy(a, b, None if sw is None else w.snap(sw))
        if n == "OneHotEncoder": return encoder(w, kw, args)
        return NotImplemented
    return lib_call
def accuracy(a, b, ws):
    n = a.shape[0]; wt = (lambda i: ONE) if ws is None else (lambda i: ws.at((i,)))
    A = (lambda i: a.at((i,))) if a.ndim == 1 else (lambda i: a.at((i, ZERO)))
    B = (lambda i: b.at((i,))) if b.ndim == 1 else (lambda i: b.at((i, ZERO)))
    return div(summ(n, lambda i: ite(eq(A(i), B(i)), wt(i), ZERO)), summ(n, wt))
def encoder(w, kw, args):
    I = w.I; st = {}
    cats = I.resolve(kw.get("categories", args[0] if args else "auto")); sparse = I.resolve(kw.get("sparse_output", kw.get("sparse", True)))
    if kw.get("drop") is not None and I.resolve(kw["drop"]) is not None: return I.unknown("OneHotEncoder(drop)")
    def fit(it, a, k, node):
        if isinstance(cats, str): st["c"] = W_CLASSES[0]
        else:
            c = it.items(cats)
            st["c"] = w.snap(c[0]) if c is not None and len(c) == 1 else None
        return m
    def tr(it, a, k, node):
        y = w.snap(a[0] if a else k["X"]); c = st.get("c")
        if y is not None and y.ndim != 2: raise it.raise_("ValueError", "expected 2D array")
        if y is None or c is None or c.ndim != 1: return it.unknown("one-hot encoding")
        arr = it.newarr((y.shape[0], c.shape[0]), lambda ix: ite(eq(y.at((ix[0], ZERO)), c.at((ix[1],))), ONE, ZERO), "float")
        if sparse is not True: return arr
        me = Model("sparse", None, shape=arr.shape)
        for n in ("todense", "toarray"): me.info[n] = Model(n, lambda it, a, k, node: arr, callable=True)
        me.info["A"] = arr
        return me
    m = Model("encoder", None, fit=Model("fit", fit, callable=True), transform=Model("transform", tr, callable=True),
        fit_transform=Model("fit_transform", lambda it, a, k, node: (fit(it, a, k, node), tr(it, a, k, node))[1], callable=True))
    return m
W_CLASSES = [None]
def estimator(w, tag, k, bases=("BaseEstimator", "ClassifierMixin"), d=2, proba=True):
    """a modelled classifier of k classes; probabilities positive, summing to one"""
    I = w.I; st = dict(fits=[])
    def fit(it, args, kw, node):
        env = dict(zip(("X", "y", "sample_weight"), args)); env.update(kw)
        st["fits"].append({n: (w.snap(v) if isinstance(it.resolve(v), Arr) else it.resolve(v)) for n, v in env.items()})
        c = it.newarr((num(k),), lambda ix: label(ix[0]), "float"); m.info["classes_"] = c; W_CLASSES[0] = w.snap(c)
        return m
    def pp(it, args, kw, node):
        X = w.snap(args[0] if args else kw["X"])
        if X is None or X.ndim != 2: return it.unknown("predictors")
        return it.newarr((X.shape[0], num(k)), lambda ix: prob(tag, len(st["fits"]), [X.at((ix[0], num(j))) for j in range(d)], ix[1], k), "float")
    m = Model("estimator " + tag, None, bases=bases, fit=Model("fit", fit, callable=True), predict=Model("predict", lambda it, a, kw, node: it.unknown("predict"), callable=True))
    if proba: m.info["predict_proba"] = Model("predict_proba", pp, callable=True)
    return m, st
def label(k): return sel("LABEL", k)
def prob(tag, f, row, c, k):
    u = lambda j: fn("exp", ufn("logit_" + tag, num(f), *row, j))
    return div(u(c), add(*[u(num(j)) for j in range(k)]))
def gens(k):
    """distinct increasing labels that are not their positions; training labels among them"""
    lab = lambda val, j: mpf(3) + mpf(7 * j) / 2 + mpf(h64(val.seed, "lab", j) % 3)
    rinterp.ARR["LABEL"] = dict(gen=lambda val, key: lab(val, int(key[1])))
    for nm in ("TGT", "YQ"): rinterp.ARR[nm] = dict(gen=lambda val, key, nm=nm: lab(val, h64(val.seed, nm, str(key[1])) % k))
    rinterp.ARR["SW"] = dict(gen=lambda val, key: mpf(h64(val.seed, "sw", *map(str, key)) % 97 + 3) / 10)
def world(r, k, missing=()):
    made = []; W = []
    w, rec = mkworld(r, lib_call=lib_calls(made, W, k)); W.append(w); gens(k)
    return w, rec, made
def mod(w, name): return w.get(MOD, name)
# ------------------------------------------------------------------ transforms
def helm(k):
    return [[div(ONE, sqrt(num(m * (m + 1)))) if j < m else div(num(-m), sqrt(num(m * (m + 1)))) if j == m else ZERO for j in range(k)] for m in range(1, k)]
def transforms(r, k):
    w, rec, made = world(r, k); I = w.I
    N = sym("N", "I", lo=ONE); loc = lambda f: dict(file=f.mod.path, func=f.name, line=f.node.lineno)
    fw, bw, cl = mod(w, "ilr_transformation"), mod(w, "inverse_ilr_transformation"), mod(w, "closure")
    small = lambda val, key: mpf(10) ** (-mpf(h64(val.seed, "m", *map(str, key)) % 11)) * (1 + mpf(h64(val.seed, "c", *map(str, key)) % 997) / 300)
    for nm in ("U", "U2"): rinterp.ARR[nm] = dict(gen=small)
    def simplex(nm): return I.newarr((N, num(k)), lambda ix: div(sel(nm, ix[0], ix[1]), add(*[sel(nm, ix[0], num(j)) for j in range(k)])), "float")
    i = TM._index(N, "i"); fs = [le(ZERO, i), lt(i, N)]
    A = simplex("U"); B = simplex("U2")
    fa, fb = (I.resolve(w.call(fw, x)) for x in (A, B))
    if not isinstance(fa, Arr) or not isinstance(fb, Arr): return r.undecided("transform", "ilr_transformation", "not resolved")
    sa, sb = w.snap(fa), w.snap(fb)
    if not r.shape("ilr_transformation: %d classes" % k, sa, (N, num(k - 1)), loc(fw)): return
    dot = lambda s, t: add(*[mul(s.at((i, num(j))), t.at((i, num(j)))) for j in range(k - 1)])
    def clr(nm):
        l = [fn("log", sel(nm, i, num(j))) for j in range(k)]; m = scale(add(*l), F(1, k)); return [sub(x, m) for x in l]
    ca, cb = clr("U"), clr("U2")
    r.eq("isometric log-ratio", "ilr_transformation keeps inner products (%d classes)" % k, dot(sa, sb), add(*[mul(x, y) for x, y in zip(ca, cb)]), fs, loc(fw), trials=30)
    back = I.resolve(w.call(bw, fa))
    if not isinstance(back, Arr): return r.undecided("transform", "inverse_ilr_transformation", "not resolved")
    if not r.shape("inverse_ilr_transformation: %d classes" % k, w.snap(back), (N, num(k)), loc(bw)): return
    for j in range(k): r.eq("inverse undoes forward", "%d classes: component %d" % (k, j), w.snap(back).at((i, num(j))), w.snap(A).at((i, num(j))), fs, loc(bw), trials=60)
    # any coordinates: inverse lands on the simplex and forward undoes it
    Z = w.mat("Z", N, num(k - 1)); rinterp.ARR["Z"] = dict(gen=lambda val, key: mpf(h64(val.seed, "z", *map(str, key)) % 2000 - 1000) / 100)
    bz = w.call(bw, Z); s = w.snap(bz)
    if s is None: return r.undecided("transform", "inverse_ilr_transformation", "not resolved")
    r.eq("inverse lands on the simplex", "%d classes: components sum to one" % k, add(*[s.at((i, num(j))) for j in range(k)]), ONE, fs, loc(bw), trials=30)
    for j in range(k): r.eq("inverse lands on the simplex", "%d classes: component %d is positive" % (k, j), ite(lt(ZERO, s.at((i, num(j)))), ONE, ZERO), ONE, fs, loc(bw), trials=20)
    fz = w.snap(w.call(fw, bz))
    if fz is not None:
        for j in range(k - 1): r.eq("forward undoes inverse", "%d classes: coordinate %d" % (k, j), fz.at((i, num(j))), sel("Z", i, num(j)), fs, loc(fw), trials=40)
    # one-hot rows: finite, and the inverse gives the same class back
    lab = sym("lab", "I", lo=ZERO); fs2 = fs + [lt(lab, num(k))]; TM.SYMINFO.setdefault(lab, {})["span"] = k - 1
    H = I.newarr((N, num(k)), lambda ix: ite(eq(ix[1], lab), ONE, ZERO), "float")
    fh = w.call(fw, H); sh = w.snap(fh); bh = w.snap(w.call(bw, fh))
    if sh is None or bh is None: return r.undecided("transform", "one-hot rows", "not resolved")
    for j in range(k - 1):
        t = sh.at((i, num(j))); fin = ite(lt(fn("abs", t), num(10 ** 6)), ONE, ZERO)
        r.eq("finite on one-hot rows", "%d classes: coordinate %d" % (k, j), fin, ONE, fs2, loc(fw), trials=20)
    for j in range(k):
        t = fn("abs", sub(bh.at((i, num(j))), ite(eq(num(j), lab), ONE, ZERO)))
        r.eq("inverse undoes forward", "%d classes: one-hot component %d within 1e-12" % (k, j), ite(lt(t, num(F(1, 10 ** 12))), ONE, ZERO), ONE, fs2, loc(bw), trials=20)
    # closure
    kk = sym("kk", "R", nonneg=True); C = w.mat("U", N, num(k))
    for nm, args, tot in (("closure(data)", (C,), ONE), ("closure(data, k)", (C, kk), kk)):
        s = w.snap(w.call(cl, *args))
        if s is None: r.undecided("closure", nm, "not resolved"); continue
        for j in range(k): r.eq("closure", "%s, %d columns: column %d" % (nm, k, j), s.at((i, num(j))), div(mul(tot, sel("U", i, num(j))), add(*[sel("U", i, num(q)) for q in range(k)])), fs, loc(cl), trials=20)
# ------------------------------------------------------------------ the wrapper
def data(w, method, tag="", two=False):
    N = sym("N" + tag, "I", lo=num(2)); p, ps = xmat(w, "PRED" + tag, N, 2); x, xs = xmat(w, "P" + tag, N, DIM[method])
    T_ = "TGT" + tag
    y = w.mat(T_, N, ONE) if two else w.vec(T_, N)
    return N, (p, ps), (x, xs), y
def fwd(w, cols, n):
    """the repository's forward transform of columns given as functions of the row"""
    a = w.I.newarr((n, num(len(cols))), lambda ix: w.I.np.pickk(ix[1], [(lambda c=c: c(ix[0])) for c in cols]), "float")
    return w.snap(w.call(mod(w, "ilr_transformation"), a))
def scenario(r, method, how, k, two=False):
    w, rec, made = world(r, k); I = w.I; K = w.cls(MOD, CLS)
    what = "%s(%s), %d classes%s%s" % (CLS, method, k, " fitted a second time" if how == "refit" else "", ", targets of shape (Ns, 1)" if two else "")
    vals = opaque(w, "a"); m, st = estimator(w, "given", k)
    o = w.call(K, **{NAME: m}, method=method, **vals)
    if how == "refit":
        N0, p0, x0, y0 = data(w, method, "_old"); rinterp.ARR["TGT_old"] = rinterp.ARR["TGT"]
        w.meth(o, "fit", p0[0], x0[0], y0); w.meth(o, "predict", p0[0], x0[0])
    k0, f0 = len(rec.init), len(st["fits"])
    N, (p, ps), (x, xs), y = data(w, method, two=two)
    tgt = (lambda i: sel("TGT", i, ZERO)) if two else (lambda i: sel("TGT", i))
    loc = floc(w, o, "fit", "ck.py")
    v, dead, pend = w.attempt(I.getattr(o, "fit"), p, x, y)
    if dead: return r.bad("completes", what + ".fit: raises %s" % (exc_names(pend[-1].val)[0] if pend else "?"), loc)
    fits = one(r, st["fits"][f0:], what + ".fit of the classifier", loc)
    inits = one(r, rec.init[k0:], what + ".fit of the residuals", loc, k - 1)
    if not fits or not inits: return
    i = TM._index(N, "i"); env = fits[0]
    for nm, src, cols in (("X", ps[0], 2), ("y", lambda i, k: tgt(i), None)):
        s = env.get(nm)
        if s is None or not hasattr(s, "at"): r.undecided("trains on (p, y)", what, "%s not resolved" % nm); continue
        if not r.shape("%s: %s of the classifier" % (what, nm), s, (N,) if cols is None else (N, num(cols)), loc): continue
        for j in range(cols or 1): r.eq("trains on (p, y)", "%s: %s[%d]" % (what, nm, j), s.at((i,) if cols is None else (i, num(j))), src(i, j), (), loc)
    r.check(set(env) <= {"X", "y"}, "trains on (p, y)", what + ": nothing else given to fit", loc, dict(given=sorted(env)))
    cls_ = w.snap(I.resolve(I.getattr(o, "classes_")))
    if cls_ is None: r.undecided("labels", what, "classes_ not resolved")
    else: 
        for j in range(k): r.eq("labels", "%s: classes_[%d]" % (what, j), cls_.at((num(j),)), label(num(j)), (), loc)
    nf = len(st["fits"])
    P = lambda rows: [(lambda i, j=j: prob("given", nf, [rows(i, 0), rows(i, 1)], num(j), k)) for j in range(k)]
    oh = fwd(w, [(lambda i, j=j: ite(eq(tgt(i), label(num(j))), ONE, ZERO)) for j in range(k)], N); pr = fwd(w, P(ps[0]), N)
    # which recorded fit kriges which coordinate
    tn = "val" if DIM[method] == 3 else "z"
    res = [(lambda i, c=c: sub(oh.at((i, num(c))), pr.at((i, num(c))))) for c in range(k - 1)]
    def same_(e, c):
        s = e["env"].get(tn)
        return s is not None and hasattr(s, "at") and s.ndim == 1 and rinterp.compare(s.at((i,)), res[c](i), (), trials=6, seed=1).verdict != "DIFFERENT"
    order = [next((c for c in [q] + list(range(k - 1)) if same_(e, c)), q) for q, e in enumerate(inits)]
    if sorted(order) != list(range(k - 1)): order = list(range(k - 1))
    for e, c in zip(inits, order): check_fit(r, w, e, "%s.fit, coordinate %d" % (what, c), method, vals, xs, res[c], loc)
    of = {c: e["k"] for e, c in zip(inits, order)}
    M = sym("M", "I", lo=num(2)); q, qs = xmat(w, "Q", M, DIM[method]); pq, pqs = xmat(w, "PQ", M, 2); yq = w.vec("YQ", M); sw = w.vec("SW", M)
    d = DIM[method]
    kr = lambda c: (lambda i: ufn("kpred", num(of[c]), *[qs[0](i, j) for j in range(d)]))
    base = fwd(w, P(pqs[0]), M)
    tot = I.newarr((M, num(k - 1)), lambda ix: w.I.np.pickk(ix[1], [(lambda c=c: add(kr(c)(ix[0]), base.at((ix[0], num(c))))) for c in range(k - 1)]), "float")
    inv = w.snap(w.call(mod(w, "inverse_ilr_transformation"), tot))
    def best(i):
        g = [inv.at((i, num(j))) for j in range(k)]
        t = label(num(k - 1))
        for j in reversed(range(k - 1)): t = ite(and_(*([ge(g[j], g[h]) for h in range(k) if h > j] + [lt(g[h], g[j]) for h in range(j)])), label(num(j)), t)
        return t
    extra = [{}, dict(backend=sym("be", "O"))]
    if method.startswith("universal"): extra.append(dict(backend="vectorized", specified_drift_arrays=w.lst([w.vec("SPA", M)])))
    for kw in extra:
        for fn_, args in (("predict", (pq, q)), ("krige_residual", (q,)), ("score", (pq, q, yq)), ("score", (pq, q, yq, sw))):
            wh = "%s.%s(%s)" % (what, fn_, ", ".join(sorted(kw))) + (" weighted" if len(args) == 4 else "")
            loc = floc(w, o, fn_, "ck.py"); ke = len(rec.exec)
            v, dead, pend = w.attempt(I.getattr(o, fn_), *args, **kw)
            if dead: r.bad("completes", wh + ": raises %s" % (exc_names(pend[-1].val)[0] if pend else "?"), loc); continue
            es = one(r, rec.exec[ke:], wh, loc, k - 1)
            if not es: continue
            objs = {e["obj"].oid for e in es}
            r.check(objs == {e["obj"].oid for e in inits}, "fitted model", wh + ": every fitted coordinate is evaluated once", loc)
            for e in es: check_exec(r, w, e, wh, e["obj"], vals, qs, kw, loc)
            v = I.resolve(v)
            if fn_ == "score":
                if not isinstance(v, T): r.undecided("score", wh, "not resolved"); continue
                a = w.snap(yq); b = w.snap(I.newarr((M,), lambda ix: best(ix[0]), "float"))
                r.eq("score", wh, v, accuracy(a, b, w.snap(sw) if len(args) == 4 else None), (), loc, trials=12); continue
            if not isinstance(v, Arr): r.undecided("result", wh, "not resolved") if isinstance(v, (Unk, Choice)) else r.bad("result", wh + ": not an array", loc); continue
            i = TM._index(M, "i")
            if fn_ == "predict":
                if r.shape(wh + ": shape", w.snap(v), (M,), loc): r.eq("label of the most probable class", wh, w.snap(v).at((i,)), best(i), (), loc, trials=40)
            elif r.shape(wh + ": shape", w.snap(v), (M, num(k - 1)), loc):
                for c in range(k - 1): r.eq("kriged residual", "%s: coordinate %d" % (wh, c), w.snap(v).at((i, num(c))), kr(c)(i), (), loc)
def types(r):
    w, rec, made = world(r, 3); K = w.cls(MOD, CLS); loc = dict(file=K.mod.path, func=CLS + ".__init__", line=K.lookup("__init__").node.lineno)
    for b in ((), ("BaseEstimator",), ("ClassifierMixin",), ("BaseEstimator", "RegressorMixin"), ("TransformerMixin", "BaseEstimator")):
        rejects(r, w, "estimator type", "%s with an object that is %s" % (CLS, "+".join(b) or "no estimator"), ["RuntimeError"], K, estimator(w, "bad", 3, b)[0], loc=loc)
    for b in (("BaseEstimator", "ClassifierMixin"), ("ClassifierMixin", "BaseEstimator")):
        accepts(r, w, "estimator type", "%s with a classifier (%s)" % (CLS, "+".join(b)), K, estimator(w, "good", 3, b)[0], loc=loc)
def defaults(r, method):
    w, rec, made = world(r, 2); I = w.I; K = w.cls(MOD, CLS)
    loc = dict(file=K.mod.path, func=CLS + ".__init__", line=K.lookup("__init__").node.lineno)
    a = w.call(K, method=method); b = w.call(K, method=method)
    ma, mb = (I.resolve(I.getattr(o, NAME)) for o in (a, b))
    if not isinstance(ma, Model) or not isinstance(mb, Model): r.undecided("own default estimator", CLS, "not resolved")
    else: r.check(ma is not mb, "own default estimator", "%s(): two instances do not share their default %s" % (CLS, NAME), loc)
    N, (p, ps), (x, xs), y = data(w, method)
    N1, (p1, _), (x1, _), y1 = data(w, method, "_2")
    rejects(r, w, "predict before fit", "%s(%s)" % (CLS, method), ["Exception"], I.getattr(b, "predict"), p1, x1, loc=floc(w, b, "predict", "ck.py"))
    loc = floc(w, a, "fit", "ck.py")
    v, dead, pend = w.attempt(I.getattr(a, "fit"), p, x, y)
    if dead: return r.bad("completes", "%s(method=%r).fit with the default classifier: raises %s" % (CLS, method, exc_names(pend[-1].val)[0] if pend else "?"), loc)
    c = one(r, rec.init, "%s(%s).fit" % (CLS, method), loc)
    if not c: return
    for pn, dv in c[0]["defaults"].items():
        got = I.resolve(c[0]["raw"][pn]); dv = I.resolve(dv)
        if isinstance(got, (Unk, Choice)): r.undecided("defaults", pn, "not resolved"); continue
        ok = same(I, got, dv) or (not isinstance(got, T) and not isinstance(dv, T) and got in (None, False) and dv in (None, False))
        r.check(ok, "defaults", "%s(method=%r): %s left unset" % (CLS, method, pn), loc, dict(parameter=pn, received=show(got), default=show(dv)))
def jobs(tier):
    out = [("types", types, ())] + [("transforms:%d" % k, transforms, (k,)) for k in ((2, 3, 4, 5) if tier != "thorough" else (2, 3, 4, 5, 6, 7))]
    for m in METHODS:
        out.append(("%s:ctor" % m, scenario, (m, "ctor", 3))); out.append(("%s:refit" % m, scenario, (m, "refit", 2)))
        out.append(("defaults:" + m, defaults, (m,)))
    out += [("ordinary:4 classes", scenario, ("ordinary", "ctor", 4)), ("ordinary:column", scenario, ("ordinary", "ctor", 3, True)), ("universal3d:column", scenario, ("universal3d", "refit", 2, True))]
    return out
