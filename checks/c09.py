"""C09: output layout and masks."""
from scen import *
EXPLANATION = (HOW + "shape, element order and mask of the results are compared with the documented layout for every class, style and backend, including transposed masks; masked points may not make any guarded "
    "raise reachable, and grid results must equal masked results at unmasked points; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
def job(r, cfg):
    s = Sc(r, dict(cfg, wide=not cfg.get("outside") and not cfg.get("drift")))
    if cfg.get("mtr"):
        # only the transposed shape fits
        nx, ny = sym("nx", "I", lo=ONE), sym("ny", "I", lo=ONE)
        s.I.assume(not_(eq(nx, ny)))
        if s.dim == 3: s.I.assume(not_(eq(nx, sym("nz", "I", lo=ONE))))
    if cfg.get("outside"):       # the first grid column lies outside the drift grid; it is masked
        rinterp.ARR["XP"] = dict(gen=lambda val, key: mpf(9) if key[1] == 0 else val.real(*key))
        rinterp.ARR["MASK"] = dict(gen=lambda val, key: 1 if key[2] == 0 or h64(val.seed, "mask", *map(str, key)) % 2 else 0)
    s.construct()
    s.loc = exec_loc(s)
    over = {}
    if cfg.get("mtr"):
        s.points("masked")
        shape = tuple(s.pn)              # (nx, ny[, nz]) instead of ([nz,] ny, nx)
        m = s.I.newarr(shape, lambda ix: truth(sel("MASK", *reversed(ix))), "bool"); s.I.inputs[m.buf] = "mask"
        over["mask"] = m
    pend0 = s.I.pend; s.I.pend = []
    s.execute(**over)
    pend = s.I.pend; s.I.pend = pend0
    if s.res is None or any(x is None for x in s.res): return r.undecided("layout", cfgname(cfg), "result not resolved: %s" % s.I.unsup[-2:])
    facts = [not_(eq(s.pn[0], s.pn[1]))] if cfg.get("mtr") else []
    if cfg.get("mtr") and s.dim == 3: facts.append(not_(eq(s.pn[0], s.pn[2])))
    compare_out(r, s, "layout", facts=facts)
    name = cfgname(cfg)
    if s.style == "masked":
        ix, _ = s.pidx()
        for k, nm in enumerate(("estimate", "variance")):
            sn = s.res[k]
            if sn.m is None: r.bad("mask", "%s: %s is not a masked array" % (name, nm), s.loc); continue
            r.eq("mask", "%s: mask of the %s" % (name, nm), sn.mask_at(ix), s.masked(ix), facts, s.loc)
    else:
        for k, nm in enumerate(("estimate", "variance")):
            sn = s.res[k]
            if sn.m is not None:
                ix, _ = s.pidx()
                r.eq("mask", "%s: nothing masked in the %s" % (name, nm), sn.mask_at(ix), FALSE, facts, s.loc)
    raises_on_valid(r, s, "no error", name, pend=pend, facts=facts)
def jobs(tier):
    cf = []
    for cls in ("ok", "uk", "ok3d", "uk3d"):
        for st in ("grid", "points", "masked"):
            for be in ("vectorized", "loop"): cf.append(dict(cls=cls, style=st, backend=be))
        for be in ("vectorized", "loop"): cf.append(dict(cls=cls, style="masked", backend=be, mtr=True, tag="transposed mask"))
    for st in ("grid", "points", "masked"):
        cf.append(dict(cls="ok", vm="linear", style=st, backend="C"))
        if tier != "quick" or st == "masked": cf.append(dict(cls="ok", vm="linear", style=st, backend="C", win=True))
        cf.append(dict(cls="ok3d", style=st, backend="loop", win=True)); cf.append(dict(cls="ok", style=st, backend="loop", win=True, geo=True))
        for be in ("vectorized", "loop"):
            for u in (True, False):
                cf.append(dict(cls="uk", drift=[("spec", 1), ("ext",)], style=st, backend=be, unb=u)); cf.append(dict(cls="uk3d", drift=[("rl",), ("spec", 1)], style=st, backend=be, unb=u))
    for be in ("vectorized", "loop"): cf.append(dict(cls="uk", drift=[("ext",)], style="masked", backend=be, outside=True, tag="masked points outside the drift grid"))
    cf.append(dict(cls="ok", vm="linear", style="masked", backend="C", mtr=True, tag="transposed mask"))
    return [(cfgname(c), job, (c,)) for c in cf]
