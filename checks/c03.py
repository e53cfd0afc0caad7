"""C03: estimate and variance are read out of the solution consistently."""
from scen import *
EXPLANATION = (HOW + "estimate and variance terms are compared with sum(x_i V_i) and -sum(x_i b_i), x the (pseudo-)inverse of the code's own matrix applied to the right-hand side, "
    "on every backend, window mode, solver choice and with and without the unbiasedness condition; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
def job(r, cfg):
    s = run_exec(r, cfg)
    if s is None: return
    mat = code_matrix(s)
    if mat is None: return r.undecided("read-out", cfgname(cfg), "no linear solve found")
    compare_out(r, s, "read-out", (lambda p, q: mat.at((p, q))) if s.K is None else None)
def configs(tier):
    out = []
    for cls in ("ok", "uk", "ok3d", "uk3d"):
        for be in ("vectorized", "loop"):
            for pinv in (None, "pinv"):
                out.append(dict(cls=cls, backend=be, style="points", pinv=pinv))
        for st in ("grid", "masked"): out.append(dict(cls=cls, style=st, backend="vectorized"))
    for cls in ("uk", "uk3d"):
        for be in ("vectorized", "loop"):
            out.append(dict(cls=cls, backend=be, drift=[("rl",), ("spec", 1)], style="grid"))
            out.append(dict(cls=cls, backend=be, drift=[("rl",), ("fun", 1)], style="points", unb=False))
    for pinv in (None, "pinv", "pinvh"):
        out.append(dict(cls="ok", vm="linear", backend="C", style="masked", pinv=pinv))
        out.append(dict(cls="ok", vm="linear", backend="C", style="points", win=True, pinv=pinv))
        for cls in ("ok", "ok3d"): out.append(dict(cls=cls, backend="loop", style="points", win=True, pinv=pinv))
    out.append(dict(cls="ok", backend="loop", style="grid", win=True, geo=True))
    return out
def jobs(tier): return [(cfgname(c), job, (c,)) for c in configs(tier)]
