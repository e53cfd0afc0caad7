"""C14: each variogram function is its documented formula, Python and compiled alike."""
from chk import *
import spec
EXPLANATION = ("Value-graph (GVN) abstract interpretation of every variogram function, Python source and Cython source, on arrays of symbolic length "
    "with symbolic parameters; the element term is compared with the documented formula, first by normal form, else by random interpretation of both terms. "
    "Effect rule: no store into parameters or distances.")
ASSUMPTIONS = ["real arithmetic: rounding is not modelled", "numpy functions follow their documentation", "range > 0, distances >= 0"]

def params(name):
    n = spec.NPAR[name]
    ps = [sym("%s%d" % (name[:3], k), "R", nonneg=True, lo=ZERO) for k in range(n)]
    return ps
def pyjob(r, name, nd):
    w = World(r)
    f = w.get("pykrige.variogram_models", name.replace("-", "_") + "_variogram_model")
    ps = params(name)
    facts = [gt(ps[1], ZERO)] if name not in ("linear",) else []
    w.I.assume(*facts)
    shape = tuple(sym("n%d" % k, "I", lo=num(1)) for k in range(nd))
    d = w.I.newarr(shape, lambda ix: spec.nonneg_sel("D", *ix), "float"); w.I.inputs[d.buf] = "distances"
    m = w.lst(ps, "parameters")
    loc = dict(file=f.mod.path, func=f.name, line=f.node.lineno)
    v = w.call(f, m, d)
    s = w.snap(v)
    if not r.shape("%s keeps the shape of the distances (%dD)" % (name, nd), s, shape, loc): return
    ix = tuple(dfresh(x) for x in shape)
    dd = spec.nonneg_sel("D", *ix)
    r.eq("formula", "%s(d) is the documented formula (%dD distances)" % (name, nd), s.at(ix), spec.variogram(name, ps, dd), facts, loc, trials=24)
    # the boundary distances
    for nm, val in [("0", ZERO)] + ([("range", ps[1])] if name in ("gaussian", "spherical", "exponential", "hole-effect") else []):
        w2 = World(r)
        f2 = w2.get("pykrige.variogram_models", name.replace("-", "_") + "_variogram_model")
        w2.I.assume(*facts)
        d2 = w2.I.newarr(shape, lambda ix: val, "float")
        v2 = w2.snap(w2.call(f2, w2.lst(ps), d2))
        if v2 is None: r.undecided("formula", "%s at distance %s" % (name, nm), "value not resolved"); continue
        r.eq("formula", "%s at distance %s" % (name, nm), v2.at(ix), spec.variogram(name, ps, val), facts, loc)
    muts = [e for e in w.I.events if e["kind"] == "mutate" and e.get("input")]
    r.check(not muts, "inputs unmodified", "%s does not store into its arguments" % name, muts[0]["loc"] if muts else loc)
def cjob(r, name):
    w = World(r)
    get = w.get("pykrige.lib.variogram_models", "get_variogram_model")
    fv, dead, ab = w.attempt(get, name.replace("-", "_") + "_variogram_model")
    if dead:
        ok = all("NotImplementedError" in exc_names(a.val) for a in ab)
        return r.check(ok, "no compiled version", "%s has no compiled version and is refused" % name)
    f = w.I.resolve(fv)
    if isinstance(f, Model) and f.name == "ref": f = f.info["value"]
    loc = dict(file=f.mod.path, func=f.name, line=f.node.lineno)
    ps = params(name); facts = [gt(ps[1], ZERO)] if name not in ("linear",) else []
    w.I.assume(*facts)
    n = sym("n", "I", lo=num(1))
    d = w.I.newarr((n,), lambda ix: spec.nonneg_sel("D", *ix), "float"); w.I.inputs[d.buf] = "distances"
    out = w.I.newarr((n,), lambda ix: sel("OUT0", *ix), "float")
    pa = w.I.newarr((num(len(ps)),), lambda ix: w.I.np.pickk(ix[0], [(lambda t=t: t) for t in ps]), "float"); w.I.inputs[pa.buf] = "parameters"
    w.call(f, pa, n, d, out)
    s = w.snap(out); q = TM._index(n)
    dd = spec.nonneg_sel("D", q)
    r.eq("compiled formula", "compiled %s(d) is the documented formula" % name, s.at((q,)), spec.variogram(name, ps, dd), facts, loc, trials=24)
    muts = [e for e in w.I.events if e["kind"] == "mutate" and e.get("input")]
    r.check(not muts, "inputs unmodified", "compiled %s does not store into its arguments" % name, muts[0]["loc"] if muts else loc)
def jobs(tier):
    out = []
    for nm in spec.NPAR:
        for nd in (1, 2): out.append(("py:%s:%dD" % (nm, nd), pyjob, (nm, nd)))
        out.append(("pyx:%s" % nm, cjob, (nm,)))
    return out
