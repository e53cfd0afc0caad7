"""C02: the right-hand side."""
from scen import *
EXPLANATION = (HOW + "the estimate term is compared with the documented right-hand side (variogram of point-to-data distances, drift terms at the point, 1) propagated through "
    "the inverse of the code's own matrix, for every drift combination, style, backend and coordinate type; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
def job(r, cfg):
    s = run_exec(r, cfg)
    if s is None: return
    mat = code_matrix(s)
    if mat is None and s.K is None: return r.undecided("right-hand side", cfgname(cfg), "no linear solve found")
    heavy = s.nd() > 4
    compare_out(r, s, "right-hand side", (lambda p, q: mat.at((p, q))) if s.K is None else None, var=not heavy, trials=3 if heavy else 6)
def configs(tier):
    out = []
    for st in ("grid", "points", "masked"):
        for be in ("vectorized", "loop"):
            for g in (False, True): out.append(dict(cls="ok", style=st, backend=be, geo=g))
            out.append(dict(cls="ok3d", style=st, backend=be))
        out.append(dict(cls="ok", vm="power", style=st, backend="C")); out.append(dict(cls="ok", vm="gaussian", style=st, backend="C", geo=True))
    D2 = [[("rl",)], [("pl", 1)], [("pl", 2)], [("ext",)], [("spec", 1)], [("spec", 2)], [("fun", 1)], [("fun", 2)],
          [("rl",), ("pl", 2)], [("spec", 2), ("fun", 2)], [("ext",), ("spec", 1)], [("pl", 1), ("ext",), ("fun", 1)], [("rl",), ("pl", 1), ("ext",), ("spec", 1), ("fun", 1)]]
    D3 = [[("rl",)], [("spec", 1)], [("spec", 2)], [("fun", 1)], [("fun", 2)], [("rl",), ("spec", 1)], [("rl",), ("spec", 1), ("fun", 1)]]
    for cls, D in (("uk", D2), ("uk3d", D3)):
        for be in ("vectorized", "loop"):
            out.append(dict(cls=cls, backend=be))
            for k, d in enumerate(D):
                out.append(dict(cls=cls, backend=be, drift=d, style=("grid", "points", "masked")[k % 3]))
                if tier != "quick" or k % 2 == 0: out.append(dict(cls=cls, backend=be, drift=d, style=("grid", "points", "masked")[(k + 1) % 3], unb=False))
    out.append(dict(cls="ok", win=True, backend="loop")); out.append(dict(cls="ok", win=True, backend="loop", geo=True)); out.append(dict(cls="ok3d", win=True, backend="loop"))
    return out
def jobs(tier): return [(cfgname(c), job, (c,)) for c in configs(tier)]
