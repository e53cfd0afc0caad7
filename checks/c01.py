"""C01: structure of the kriging matrix."""
from scen import *
EXPLANATION = (HOW + "the matrix handed to every linear solver is compared block by block (data, each drift row and column, unbiasedness row and column, corner) "
    "with the documented bordered matrix; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
def job(r, cfg):
    s = run_exec(r, cfg)
    if s is None: return
    evs = s.solves()
    if not evs: return r.undecided("matrix", cfgname(cfg), "no linear solve found")
    for n, e in enumerate(evs):
        mat, loc = e["mat"], e["loc"]
        name = cfgname(cfg) + (" solve %d" % n if n else "")
        if mat is None: r.undecided("matrix", name, "matrix not resolved"); continue
        size = s.size()
        if not r.shape(name + ": matrix size", mat, (size, size), loc): continue
        i, j = TM._index(s.N, "i"), TM._index(s.N, "j")
        set_facts(())
        with TM.assume(not_(eq(i, j))):
            r.eq("data block", name + ": minus the variogram of the data distances", mat.at((i, j)), s.A(("d", i), ("d", j)), [not_(eq(i, j))], loc, trials=12)
        r.eq("diagonal", name + ": zero diagonal", mat.at((i, i)), ZERO, (), loc)
        xs = s.extra(); nm = [d[0] for d in s.drifts()] + ["unbiasedness"]
        for k, x in enumerate(xs):
            p = add(s.N, num(k)); want = s.A(("d", i), x)
            r.eq("drift column", "%s: column of %s" % (name, nm[k]), mat.at((i, p)), want, (), loc, trials=12)
            r.eq("drift row", "%s: row of %s" % (name, nm[k]), mat.at((p, i)), want, (), loc, trials=12)
            for k2, x2 in enumerate(xs):
                r.eq("corner", "%s: zero where %s meets %s" % (name, nm[k], nm[k2]), mat.at((p, add(s.N, num(k2)))), ZERO, (), loc, trials=4)
def configs(tier):
    out = []
    D2 = [[], [("rl",)], [("pl", 1)], [("pl", 3)], [("ext",)], [("spec", 1)], [("spec", 3)], [("fun", 1)], [("fun", 3)],
          [("rl",), ("pl", 2)], [("spec", 2), ("fun", 2)], [("ext",), ("spec", 1)], [("pl", 1), ("ext",), ("fun", 1)], [("rl",), ("pl", 2), ("ext",), ("spec", 2), ("fun", 2)]]
    D3 = [[], [("rl",)], [("spec", 1)], [("spec", 3)], [("fun", 1)], [("fun", 3)], [("rl",), ("spec", 2)], [("rl",), ("spec", 2), ("fun", 2)]]
    for vm in ("custom", "linear", "spherical"):
        for be in ("vectorized", "loop") + (("C",) if vm != "custom" else ()):
            out.append(dict(cls="ok", vm=vm, backend=be))
            if vm == "custom" or be == "C": out.append(dict(cls="ok", vm=vm, backend=be, geo=True))
    for be in ("vectorized", "loop"): out.append(dict(cls="ok3d", backend=be))
    out.append(dict(cls="ok", pinv="pinv")); out.append(dict(cls="ok3d", vm="power", pinv="pinvh"))
    for d in D2:
        out.append(dict(cls="uk", drift=d))
        if d: out.append(dict(cls="uk", drift=d, unb=False, backend="loop"))
    for d in D3:
        out.append(dict(cls="uk3d", drift=d))
        if d: out.append(dict(cls="uk3d", drift=d, unb=False, backend="loop"))
    out.append(dict(cls="uk", drift=[("ext",)], tr=True))
    return out
def jobs(tier): return [(cfgname(c), job, (c,)) for c in configs(tier)]
