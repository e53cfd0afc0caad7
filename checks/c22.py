"""C22: pseudo_inv selects the solver on every path."""
from scen import *
EXPLANATION = (HOW + "every linear solve reached from constructor, update (fit statistics) and execute is recorded with the solver it goes through and the matrix it is given; the solver class "
    "must be the one pseudo_inv and pseudo_inv_type select, in every class, backend, window mode and style; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
def tags(evs): return sorted({e["tag"] for e in evs})
def job(r, cfg):
    s = Sc(r, cfg); name = cfgname(cfg); s.construct(); s.loc = exec_loc(s)
    want = s.tag()
    for be in cfg["backends"]:
        pend0 = s.I.pend; s.I.pend = []; n0 = len(s.I.unsup)
        try:
            try: s.execute(backend=be); dead = False
            except Dead: dead = True
        finally: s.I.pend = pend0
        what = "%s backend %s" % (name, be)
        if dead: r.bad("implemented", what + ": refused", s.loc) ; continue
        ev = s.solves()
        if len(s.I.unsup) > n0: r.undecided("solver", what, s.I.unsup[-1]); continue
        if not ev: r.undecided("solver", what, "no linear solve found"); continue
        for e in ev:
            r.check(e["tag"] == want, "solver", "%s: solved through %s" % (what, want), e["loc"], dict(found=e["tag"], documented=want))
        if s.res is None or any(x is None for x in s.res): r.undecided("result", what, "not resolved"); continue
        ix, _ = s.pidx(); m = s.masked(ix); fs = [not_(m)] if m is not FALSE else []
        ez, ev_ = s.reference(ix)
        if r.shape(what + ": result shape", s.res[0], s.shape, s.loc):
            set_facts(add_facts((), fs))
            r.eq("solution used", what + ": the estimate comes from that solution", s.res[0].at(ix), ez, fs, s.loc, trials=4)
            set_facts(())
def stats(r, cfg, how):
    s = Sc(r, cfg, stats=True); name = "%s %s" % (cfgname(cfg), how)
    kw = dict(enable_statistics=True) if cfg["cls"] == "ok" else {}
    s.construct(**kw); n0 = 0
    if how == "update":
        n0 = len(s.I.events)
        u = dict(variogram_parameters=s.w.lst([num(2), num(F(1, 2))]))
        s.w.meth(s.obj, "update_variogram_model", "linear", **u)
    ev = [e for e in s.I.events[n0:] if e["kind"] == "solve"]
    if not ev:
        return r.undecided("statistics solver", name, "no linear solve found")
    for e in ev:
        r.check(e["tag"].startswith("inv:") == bool(cfg.get("pinv")), "statistics solver", "%s: %s" % (name, "pseudo-inverse" if cfg.get("pinv") else "ordinary solve"), e["loc"], dict(found=e["tag"]))
def types(r, cls):
    s = Sc(r, dict(cls=cls, vm="linear")); s.cls = s.w.cls(*MODS[cls]); loc = meth_loc(s, "__init__")
    for t in ("pinv", "pinvh"):
        for pi in (True, False):
            accepts(r, s.w, "accepted type", "%s(pseudo_inv=%s, pseudo_inv_type=%r)" % (cls, pi, t), s.cls, *s.data, s.V, variogram_parameters=s.parlist, pseudo_inv=pi, pseudo_inv_type=t, loc=loc)
    for t in ("pinv2", "inv", "", "PINV", "lstsq", "none"):
        for pi in (True, False):
            rejects(r, s.w, "unknown type", "%s(pseudo_inv=%s, pseudo_inv_type=%r)" % (cls, pi, t), ["ValueError"], s.cls, *s.data, s.V, variogram_parameters=s.parlist, pseudo_inv=pi, pseudo_inv_type=t, loc=loc)
def jobs(tier):
    out = []
    for pv in (None, "pinv", "pinvh"):
        for st in ("points", "masked"):
            for ex in (True, False):
                if st == "masked" and not ex: continue
                for cls in MODS:
                    c = dict(cls=cls, vm="linear", style=st, exact=ex, pinv=pv, backends=("vectorized", "loop") + (("C",) if cls == "ok" else ()))
                    if cls.startswith("uk") and ex: c["drift"] = [("rl",)]
                    out.append((cfgname(c), job, (c,)))
        for cls in ("ok", "ok3d"):
            c = dict(cls=cls, vm="linear", style="points", win=True, pinv=pv, backends=("loop",) + (("C",) if cls == "ok" else ()))
            out.append((cfgname(c), job, (c,)))
        c = dict(cls="ok", vm="linear", style="points", geo=True, pinv=pv, backends=("vectorized", "loop", "C")); out.append((cfgname(c), job, (c,)))
        for cls in MODS:
            for how in ("ctor", "update"): 
                c = dict(cls=cls, vm="linear", pinv=pv); out.append(("statistics:%s:%s" % (cfgname(c), how), stats, (c, how)))
    for cls in MODS: out.append(("types:" + cls, types, (cls,)))
    return out
