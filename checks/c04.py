"""C04: all backends compute the same estimate and variance."""
from scen import *
EXPLANATION = (HOW + "for one model object, the result terms of every pair of backends are compared at a generic unmasked point, for every style, drift combination, window mode, "
    "exact_values and pseudo-inverse setting; a backend that cannot honour a configuration must raise on every path; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
def job(r, cfg, backends):
    s = Sc(r, cfg); s.construct(); s.loc = exec_loc(s)
    res = {}
    name = cfgname(cfg)
    for be in backends:
        pend0 = s.I.pend; s.I.pend = []
        try:
            try: out = s.execute(backend=be); dead = False
            except Dead: dead = True
            pend = s.I.pend
        finally: s.I.pend = pend0
        if dead: res[be] = ("raises", pend); continue
        if out is None or any(x is None for x in out): r.undecided("backend agreement", name + " " + be, "result not resolved: %s" % s.I.unsup[-2:]); continue
        res[be] = ("value", out)
    base = next((b for b in ("loop", "vectorized", "C") if b in res and res[b][0] == "value"), None)
    if base is None:
        return r.undecided("backend agreement", name, "no backend with a resolved result")
    ix, _ = s.pidx(); m = s.masked(ix); fs = [not_(m)] if m is not FALSE else []
    heavy = s.nd() > 4
    for be in res:
        if be == base: continue
        kind, v = res[be]
        if kind == "raises": r.ok("refuses what it cannot honour", "%s: backend %s raises" % (name, be)); continue
        if not r.shape("%s: %s result shape" % (name, be), v[0], s.res_shape(res[base][1][0]), s.loc) or not r.shape("%s: %s variance shape" % (name, be), v[1], s.res_shape(res[base][1][1]), s.loc): continue
        set_facts(add_facts((), fs))
        for k, nm in enumerate(("estimate", "variance")):
            a, b = res[base][1][k].at(ix), v[k].at(ix)
            r.eq("backend agreement", "%s: %s of %s = %s" % (name, nm, be, base), b, a, fs, s.loc, trials=3 if heavy else 6)
        set_facts(())
def configs(tier):
    out = []
    P = ("vectorized", "loop"); PC = P + ("C",)
    pins = (None, "pinv", "pinvh")
    for st in ("grid", "points", "masked"):
        for ex in (True, False):
            out.append((dict(cls="ok", vm="linear", style=st, exact=ex), PC))
            out.append((dict(cls="ok", vm="linear", style=st, exact=ex, geo=True), PC))
            out.append((dict(cls="ok3d", style=st, exact=ex), P))
            out.append((dict(cls="uk", style=st, exact=ex), P)); out.append((dict(cls="uk3d", style=st, exact=ex), P))
    for ex in (True, False): 
        for geo in (False, True):
            out.append((dict(cls="ok", vm="linear", style="points", coin=True, exact=ex, geo=geo), PC))
        out.append((dict(cls="ok", vm="linear", style="points", coin=True, exact=ex, win=True), PC))
        for cls in ("uk", "ok3d", "uk3d"): out.append((dict(cls=cls, style="points", coin=True, exact=ex), P))
    for pv in pins[1:]:
        out.append((dict(cls="ok", vm="spherical", style="points", pinv=pv), PC))
        out.append((dict(cls="ok", vm="linear", style="points", win=True, pinv=pv), PC))
        for cls in ("uk", "ok3d", "uk3d"): out.append((dict(cls=cls, style="points", pinv=pv), P))
    for vm in ("power", "gaussian", "spherical", "exponential", "hole-effect"):
        out.append((dict(cls="ok", vm=vm, style="points"), PC))
        if vm in ("gaussian", "spherical"): out.append((dict(cls="ok", vm=vm, style="points", win=True), PC))
    out.append((dict(cls="ok", vm="linear", style="grid", win=True, geo=True), PC))
    out.append((dict(cls="ok", vm="linear", style="masked", win=True), PC))
    out.append((dict(cls="ok", style="points"), PC)); out.append((dict(cls="ok", style="points", win=True), PC))
    out.append((dict(cls="ok3d", style="points", win=True), P)); out.append((dict(cls="ok3d", style="masked", win=True), P))
    D2 = [[("rl",)], [("pl", 2)], [("ext",)], [("spec", 2)], [("fun", 2)], [("rl",), ("pl", 1), ("ext",), ("spec", 1), ("fun", 1)], [("spec", 1), ("fun", 1)], [("pl", 1), ("ext",)]]
    D3 = [[("rl",)], [("spec", 2)], [("fun", 2)], [("rl",), ("spec", 1), ("fun", 1)]]
    for cls, D in (("uk", D2), ("uk3d", D3)):
        for k, d in enumerate(D):
            for u in (True, False):
                out.append((dict(cls=cls, drift=d, unb=u, style=("grid", "points", "masked")[(k + u) % 3]), P))
                if tier != "quick":
                    for st in ("grid", "points", "masked"): out.append((dict(cls=cls, drift=d, unb=u, style=st, tag="all styles"), P))
    out.append((dict(cls="uk", drift=[("pl", 1)], style="points", coin=True, tag="well", well=True), P))
    return out
def jobs(tier): return [(cfgname(c), job, (c, b)) for c, b in configs(tier)]
