"""C05: exact_values decides exactness at data locations on every backend."""
from scen import *
EXPLANATION = (HOW + "prediction points are data points displaced by 0, less than, or more than the 1e-10 cutoff (sampled displacements, symbolic data and variogram, duplicate data allowed in the "
    "window); results are compared with the documented right-hand side with entries zeroed exactly within the cutoff iff exact_values, and the solved matrix with its zero diagonal; " + DECIDE)
ASSUMPTIONS = BASE_ASSUME
OFF = ("0", "3e-11", "6e-11", "2e-10", "4e-10", "1e-9", "1e-8", "1e-6")
def gen(val, key): return mpf(OFF[h64(val.seed, "off") % len(OFF)])
def job(r, cfg):
    s = Sc(r, cfg)
    if cfg["near"]:
        s.off = sym("OFF", "R"); TM.SYMINFO.setdefault(s.off, {})["gen"] = gen
    s.construct(); s.execute(); s.loc = exec_loc(s)
    if s.res is None or any(x is None for x in s.res): return r.undecided("exactness", cfgname(cfg), "result not resolved")
    compare_out(r, s, "exactness", what=cfgname(cfg), trials=16)
    for e in s.solves():
        if e["mat"] is None or s.K is not None: continue
        i = TM._index(s.N, "i")
        set_facts(())
        r.eq("zero diagonal", cfgname(cfg), e["mat"].at((i, i)), ZERO, (), e["loc"])
def configs(tier):
    out = []
    for ex in (True, False):
        for near in (False, True):
            t = "near" if near else "at"
            for cls in ("ok", "uk", "ok3d", "uk3d"):
                for be in ("vectorized", "loop"): out.append(dict(cls=cls, backend=be, exact=ex, near=near, tag=t))
            for be in ("vectorized", "loop"):
                out.append(dict(cls="uk", backend=be, exact=ex, near=near, tag=t, drift=[("rl",)], unb=False))
            out.append(dict(cls="ok", vm="linear", backend="C", exact=ex, near=near, tag=t))
            out.append(dict(cls="ok", vm="linear", backend="C", exact=ex, near=near, tag=t, win=True))
            for cls in ("ok", "ok3d"): out.append(dict(cls=cls, backend="loop", exact=ex, near=near, tag=t, win=True))
            if not near:
                out.append(dict(cls="ok", backend="loop", exact=ex, near=near, tag=t, geo=True))
                out.append(dict(cls="ok", backend="vectorized", exact=ex, near=near, tag=t, geo=True))
                out.append(dict(cls="ok", vm="linear", backend="C", exact=ex, near=near, tag=t, geo=True))
    for c in out: c.update(style="points", coin=True)
    return out
def jobs(tier): return [(cfgname(c), job, (c,)) for c in configs(tier)]
