"""Obligations: what a check decides, how results are recorded, how they are run."""
import os, sys, json, time, traceback, resource, pickle, signal, select, gc
gc.set_threshold(400000, 20, 1000)
sys.setrecursionlimit(30000)
from interp import *
import terms as TM, rinterp
from rinterp import compare

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

class AnchorMissing(Exception): pass

class R:
    """recorder of one job: every decided obligation, with the construct it is about"""
    def __init__(s, job):
        s.job = job; s.ok_n = 0; s.viol = []; s.und = []; s.rules = {}; s.samples = []; s.nf = 0; s.ri = 0
        s.functions = set(); s.callsites = 0; s.stmts = 0; s.loss = []; s.missing = []
    def note(s, rule, what):
        s.rules[rule] = s.rules.get(rule, 0) + 1
        if len(s.samples) < 2: s.samples.append("%s: %s" % (rule, what))
    def ok(s, rule, what=""):
        s.ok_n += 1; s.note(rule, what)
    def bad(s, rule, what, loc=None, detail=None):
        s.note(rule, what)
        s.viol.append(dict(rule=rule, what=what, loc=fmtloc(loc), detail=detail, job=s.job))
    def undecided(s, rule, what, why):
        s.note(rule, what)
        s.und.append(dict(rule=rule, what=what, why=str(why)[:300], job=s.job))
    def check(s, cond, rule, what, loc=None, detail=None):
        (s.ok(rule, what) if cond else s.bad(rule, what, loc, detail)); return cond
    def eq(s, rule, what, got, want, facts=(), loc=None, trials=8, ints=None, detail=None, seed=0):
        if got.sort == "B" or want.sort == "B": pass
        r = compare(got, want, facts, trials=trials, seed=SEED * 1000 + seed, ints=ints)
        if r.verdict == "EQUAL":
            if r.how == "normal form": s.nf += 1
            else: s.ri += 1
            s.ok(rule, what); return True
        if r.verdict == "DIFFERENT":
            s.bad(rule, what, loc, dict(detail or {}, witness=r.witness, computed=show(got)[:400], expected=show(want)[:400])); return False
        s.undecided(rule, what, r.how)
        return None
    def shape(s, what, sn, shape, loc=None):
        """sn has exactly this shape; False if not (or unknown)"""
        if sn is None: s.undecided("shape", what, "value not resolved"); return False
        if sn.ndim != len(shape): s.bad("shape", what, loc, dict(dimensions=sn.ndim, expected=len(shape))); return False
        v = [dim_eq(a, b) for a, b in zip(sn.shape, shape)]
        if all(v): s.ok("shape", what); return True
        for a, b, q in zip(sn.shape, shape, v):
            if q: continue
            if isinstance(a, FDim): a = a.count()
            if isinstance(b, FDim): b = b.count()
            if not s.eq("shape", what, a, b, loc=loc): return False
        return True
    def absorb(s, I):
        s.functions |= I.functions; s.callsites += I.callsites; s.stmts += I.steps; s.loss += I.unsup[:20]

def fmtloc(l):
    if l is None: return "?"
    if isinstance(l, str): return l
    f = l.get("file", "?")
    if f.startswith(REPO): f = os.path.relpath(f, REPO)
    return "%s:%s (%s)" % (f, l.get("line"), l.get("func"))

def stats_summary(I, f, args, kw):
    """fit statistics (decided by C19 and by the effect checks): here three fresh arrays, no effects"""
    args = [I.resolve(a) for a in args] + [I.resolve(a) for a in kw.values()]
    if f.cls is not None or len(args) < 4 or not isinstance(args[0], Arr) or not isinstance(args[1], Arr): return NotImplemented
    n = sym("nstat", "I", lo=num(2))
    return tuple(I.newarr((n,), lambda ix, nm=nm: (fn("abs", sel(nm, *ix)) if nm == "stat_sigma" else sel(nm, *ix)), "float") for nm in ("stat_delta", "stat_sigma", "stat_epsilon"))
class World:
    """the program under analysis plus the symbolic data it is analysed on"""
    def __init__(s, r=None, missing=(), load="pykrige", facts=(), **flags):
        TM.Ctx.facts = (); TM.set_facts(())
        user = flags.get("lib_attr")
        def lib_attr(I, full):
            if user is not None:
                v = user(I, full)
                if v is not None: return v
            if full == "gstools.__version__": return "1.7.0"
            return None
        flags["lib_attr"] = lib_attr
        if not flags.pop("stats", False): flags.setdefault("summarise", {"_find_statistics": stats_summary})
        s.I = Interp(SRC, missing=missing, flags=flags)
        s.I.stack = [("<public API>", None, None)]
        s.r = r
        if load: s.I.load(load)
        if facts: s.I.assume(*facts)
        if r is not None: r._worlds = getattr(r, "_worlds", []) + [s]
    def cls(s, mod, name):
        m = s.I.load(mod)
        v = s.I.modget(m, name) if m is not None else UNDEF
        v = s.I.resolve(v)
        if isinstance(v, _Undef_): raise AnchorMissing("%s.%s" % (mod, name))
        return v
    get = cls
    def vec(s, name, n, dtype="float", inp=True):
        a = s.I.newarr((n,), lambda ix: sel(name, *ix), dtype)
        if inp: s.I.inputs[a.buf] = name
        return a
    def mat(s, name, *shape, dtype="float", sort="R"):
        a = s.I.newarr(tuple(shape), lambda ix: sel(name, *ix, sort=sort), dtype)
        s.I.inputs[a.buf] = name
        return a
    def boolmat(s, name, *shape):
        a = s.I.newarr(tuple(shape), lambda ix: truth(sel(name, *ix)), "bool")
        s.I.inputs[a.buf] = name
        return a
    def lst(s, items, name=None, kind="list"):
        l = s.I.newlist(list(items), kind)
        if name: s.I.inputs[l.oid] = name
        return l
    def call(s, f, *args, **kw): return s.I.call(f, list(args), kw, None)
    def meth(s, o, name, *args, **kw):
        try: f = s.I.getattr(o, name)
        except Dead: raise AnchorMissing("method " + name)
        return s.I.call(f, list(args), kw, None)
    def attempt(s, f, *args, **kw):
        """-> (value | None if every path raises, abrupt outcomes)"""
        I = s.I
        pend0 = I.pend; I.pend = []
        base = I.S.facts; env = I.S.env; v = None; dead = False
        try:
            try: v = I.call(f, list(args), kw, None); dead = False
            except Dead: v = None; dead = True
            return v, dead, list(I.pend)
        finally:
            I.pend = pend0
            if dead:
                I.S = I.S.copy(); I.S.env = env; I.setfacts(base)
    def snap(s, a): return s.I.snap(s.I.resolve(a)) if isinstance(s.I.resolve(a), Arr) else s.I.np.snap(s.I.resolve(a))
    def attr(s, o, name): return s.I.resolve(s.I.getattr(o, name))
from values import _Undef as _Undef_

# ------------------------------------------------------------------ running jobs
def _child(job, fn, args, wfd, mem):
    try: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception: pass
    r = R(job)
    try:
        fn(r, *args)
    except AnchorMissing as e: r.missing.append(str(e))
    except Dead: 
        raised = []
        for w in getattr(r, "_worlds", []):
            a = w.I.pend[-1] if w.I.pend else None
            if a is not None and a.kind == "raise" and (any(e["kind"] == "raise" and e["exc"] is a.val for e in w.I.events[-1:]) or exc_names(a.val)[0] in ("IndexError", "KeyError", "ZeroDivisionError", "UnboundLocalError")) \
                    and not any("OpaqueError" in x for x in exc_names(a.val)):
                r.bad("completes", "%s: raises %s%s for every valid input of this configuration" % (job, exc_names(a.val)[0], tuple(str(x)[:60] for x in a.val.args)), a.loc)
            raised += ["%s %s at %s" % (getattr(a.val, "name", a.val), getattr(a.val, "args", ()), fmtloc(a.loc)) for a in w.I.pend[-2:]]
        r.undecided("analysable", job, "no normal completion: %s" % raised)
    except RecursionError: r.undecided("analysable", job, "recursion limit of the analysis")
    except MemoryError: r.undecided("analysable", job, "memory limit of the analysis")
    except Exception as e:
        r.undecided("analysable", job, "analysis error %r at %s" % (e, traceback.format_exc().strip().splitlines()[-3:-1]))
    for w in getattr(r, "_worlds", []): r.absorb(w.I)
    d = dict(job=job, ok=r.ok_n, viol=r.viol, und=r.und, rules=r.rules, samples=r.samples, nf=r.nf, ri=r.ri,
             functions=sorted(r.functions), callsites=r.callsites, stmts=r.stmts, loss=r.loss, missing=r.missing)
    b = json.dumps(d, default=str).encode()
    while b:
        n = os.write(wfd, b); b = b[n:]
    os.close(wfd)

def run_jobs(jobs, nproc=8, timeout=300, mem=6 << 30, deadline=None):
    """jobs: [(name, fn, args)] -> results in order; one forked process per job"""
    res = {}; running = {}; todo = list(enumerate(jobs))
    todo.reverse()
    while todo or running:
        while todo and len(running) < nproc:
            k, (name, fn, args) = todo.pop()
            rfd, wfd = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                for f in running.values(): os.close(f["fd"])
                try: _child(name, fn, args, wfd, mem)
                finally: os._exit(0)
            os.close(wfd)
            running[pid] = dict(k=k, fd=rfd, t0=time.time(), name=name, buf=b"")
        fds = {r["fd"]: p for p, r in running.items()}
        rd, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in rd:
            p = fds[fd]; d = os.read(fd, 1 << 16)
            if d: running[p]["buf"] += d
            else:
                os.close(fd); os.waitpid(p, 0)
                r = running.pop(p)
                try: out = json.loads(r["buf"])
                except Exception: out = empty(r["name"], "analysis process died")
                out["wall"] = round(time.time() - r["t0"], 2)
                res[r["k"]] = out
        now = time.time()
        for p, r in list(running.items()):
            if now - r["t0"] > timeout or (deadline and now > deadline):
                os.kill(p, signal.SIGKILL); os.waitpid(p, 0); os.close(r["fd"])
                running.pop(p); o = empty(r["name"], "analysis time limit"); o["wall"] = round(now - r["t0"], 1)
                res[r["k"]] = o
    return [res[k] for k in range(len(jobs))]
def empty(name, why):
    return dict(job=name, ok=0, viol=[], und=[dict(rule="analysable", what=name, why=why, job=name)], rules={}, samples=[], nf=0, ri=0,
                functions=[], callsites=0, stmts=0, loss=[], missing=[], wall=0)
