"""C08: moving windows."""
from scen import *
EXPLANATION = (HOW + "moving-window results are compared with the documented sub-problem of the n nearest data points (nearest-neighbour query modelled as an uninterpreted ranking of the "
    "distances it is asked about: matrix, right-hand side and values all gathered through the same neighbour index), approximate queries are reported, and window sizes below two or above the "
    "number of data must raise ValueError on every path; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME + ["cKDTree.query returns the k nearest points in ascending order"]
def job(r, cfg):
    s = run_exec(r, cfg)
    if s is None: return
    compare_out(r, s, "window", trials=10)
    ap = [e for e in s.I.events if e["kind"] == "knn-approximate"]
    r.check(not ap, "exact neighbours", cfgname(cfg), ap[0]["loc"] if ap else s.loc)
def reject(r, cfg, how):
    s = Sc(r, dict(cfg, win=True)); s.K = None
    s.construct(); s.loc = exec_loc(s)
    pend0 = s.I.pend; s.I.pend = []
    if how == "too many": K = sym("Kbig", "I", lo=add(s.N, ONE))
    elif how == "one": K = ONE
    else: K = num(0) if how == "zero" else num(-1)
    if how == "too many": s.I.assume(gt(K, s.N))
    dead = False
    try: s.execute(n_closest_points=K)
    except Dead: dead = True
    name = "%s: n_closest_points %s" % (cfgname(cfg), how)
    if dead:
        kinds = {exc_names(a.val)[0] for a in s.I.pend if a.kind == "raise"}
        r.check(kinds <= {"ValueError"}, "rejected", name, s.loc, dict(raised=sorted(kinds)))
    else: 
        if s.I.unsup: r.undecided("rejected", name, s.I.unsup[-1])
        else: r.bad("rejected", name + " is accepted", s.loc)
def jobs(tier):
    cf = []
    for st in ("grid", "points", "masked"):
        cf.append(dict(cls="ok", win=True, style=st, backend="loop")); cf.append(dict(cls="ok3d", win=True, style=st, backend="loop"))
        cf.append(dict(cls="ok", vm="linear", win=True, style=st, backend="C"))
        cf.append(dict(cls="ok", win=True, style=st, backend="loop", geo=True))
    cf.append(dict(cls="ok", vm="spherical", win=True, style="points", backend="C", geo=True))
    for p in ("pinv", "pinvh"):
        cf += [dict(cls="ok", win=True, style="points", backend="loop", pinv=p), dict(cls="ok3d", win=True, style="points", backend="loop", pinv=p), dict(cls="ok", vm="power", win=True, style="points", backend="C", pinv=p)]
    for ex in (False,): cf += [dict(cls="ok", win=True, style="points", coin=True, backend="loop", exact=ex), dict(cls="ok3d", win=True, style="points", coin=True, backend="loop", exact=ex)]
    cf += [dict(cls="ok", win=True, style="points", coin=True, backend="loop"), dict(cls="ok3d", win=True, style="points", coin=True, backend="loop")]
    for h in ("aniso", "params", "model"):       # the window is that of the present configuration, whatever was executed before
        cf += [dict(cls="ok", vm="spherical", win=True, style="points", backend=b, hist=h) for b in ("loop", "C")] + [dict(cls="ok3d", vm="spherical", win=True, style="points", backend="loop", hist=h)]
    out = [(cfgname(c), job, (c,)) for c in cf]
    for how in ("too many", "one", "zero", "negative"):
        for c in (dict(cls="ok", backend="loop"), dict(cls="ok", vm="linear", backend="C"), dict(cls="ok3d", backend="loop"), dict(cls="ok", backend="loop", geo=True)):
            out.append(("reject:%s:%s" % (cfgname(c), how), reject, (c, how)))
    return out
