"""Random interpretation of value-graph terms (Gulwani & Necula): decides (dis)equality of two terms.

Terms are evaluated over random assignments to their free symbols; uninterpreted functions become random but
consistent functions.  Equality is reported as probabilistic, a difference comes with a witness assignment.
No repository code is executed: only terms built by the abstract interpreter are evaluated.
"""
import hashlib, math, random
import mpmath
from mpmath import mp, mpf
from terms import *
import terms as TM
mp.dps = 40
TOL = mpf(10) ** -25

DIRECT = True
class Resample(Exception): pass
class Unknown(Exception): pass

_fbv = {}
def fbv(t):
    r = _fbv.get(t)
    if r is None:
        if t.op == "bv": r = frozenset((t.a[0],))
        else:
            r = frozenset()
            for x in TM._subs(t.a): r |= fbv(x)
            if t.op in TM.BIND: r = r - {t.h}
        _fbv[t] = r
    return r

ARR = {}        # array symbol name -> dict(kind=...)
UF = {}         # interpreted ufn name -> callable(val, args)

def h64(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")
def canon(v):
    if isinstance(v, bool): return v
    if isinstance(v, int): return v
    if isinstance(v, mpf):
        if mpmath.isnan(v) or mpmath.isinf(v): return str(v)
        r = mpmath.nint(v * mpf(10) ** 18)
        return int(r) if abs(v - mpmath.nint(v)) > mpf(10) ** -18 else int(mpmath.nint(v)) * 10 ** 18
    if isinstance(v, (tuple, list)): return tuple(canon(x) for x in v)
    return v
def canonv(v):
    # ints and equal reals hash alike
    if isinstance(v, int) and not isinstance(v, bool): return v * 10 ** 18
    if isinstance(v, (tuple, list)): return tuple(canonv(x) for x in v)
    return canon(v)

class Val:
    def __init__(self, seed, ints=None, grid=None, over=None):
        self.over = over or {}; self.touch = None; self.atoms = None
        self.seed = seed; self.rng = random.Random(seed)
        self.ints = dict(ints or {})       # T sym -> int
        self.grid = self.rng.random() < 0.6 if grid is None else grid
        self.cache = {}; self.memo = {}; self.invcache = {}; self.bvs = {}
        self.steps = 0
    def real(self, *key, lo=-3, hi=3):
        h = h64(self.seed, "r", *key)
        if self.grid and h % 5:
            return mpf((h >> 8) % (hi - lo + 1) + lo)
        return mpf(lo) + mpf((h >> 8) % 10007) / mpf(10007) * (hi - lo)
    def pos(self, *key):
        h = h64(self.seed, "p", *key)
        if self.grid and h % 3: return mpf((h >> 8) % 3 + 1)
        return mpf("0.3") + mpf((h >> 8) % 10007) / mpf(10007) * 3
    def boolean(self, *key): return bool(h64(self.seed, "b", *key) >> 7 & 1)
    def integer(self, lo, hi, *key):
        if hi < lo: raise Resample("empty range")
        return lo + h64(self.seed, "i", *key) % (hi - lo + 1)

    def sym(self, t):
        if t in self.ints: return self.ints[t]
        if self.touch is not None: self.touch[t] = t
        v = self.cache.get(t)
        if v is not None: return v
        info = TM.SYMINFO.get(t, {})
        saved = self.bvs
        if t in self.over:
            v = self.over[t]
            lo, hi = TM.RANGE.get(t, (None, None)) if t.sort == "I" else (None, None)
            if lo is not None and v < int(self.ev(lo)) or hi is not None and v > int(self.ev(hi)): raise Resample("range")
            self.bvs = saved; self.cache[t] = v
            return v
        if t is TM.PI: v = mp.pi
        elif t.sort == "I":
            lo, hi = TM.RANGE.get(t, (None, None))
            lo = int(self.ev(lo)) if lo is not None else -2
            hi = int(self.ev(hi)) if hi is not None else max(lo, 0) + 3
            hi = min(hi, lo + info.get("span", 3)) if TM.RANGE.get(t, (None, None))[1] is None else hi
            g = info.get("gen")
            v = g(self, (t.a[0],)) if g else self.integer(lo, hi, t.a[0])
            if g and t in TM.RANGE and not lo <= v <= hi: raise Resample("range")
        elif t.sort == "B": v = self.boolean(t.a[0])
        elif t.sort == "O": v = ("obj", t.a[0])
        else:
            g = info.get("gen")
            v = g(self, (t.a[0],)) if g else (self.pos(t.a[0]) if info.get("nonneg") else self.real(t.a[0]))
        self.bvs = saved
        self.cache[t] = v
        return v
    def array(self, t, idx):
        name = t.a[0]
        k = (name, canonv(idx))
        if self.touch is not None: self.touch[k] = t
        v = self.cache.get(k)
        if v is None and k in self.over: v = self.cache[k] = self.over[k]
        if v is None:
            spec = ARR.get(name, {})
            g = spec.get("gen")
            if g: v = g(self, (name,) + tuple(int(i) for i in idx))
            elif t.sort == "B": v = self.boolean(*map(str, k))
            elif t.sort == "I":
                b = TM.SELRANGE.get(name)
                lo, hi = -2, 3
                v = self.integer(lo, hi, *map(str, k))
            elif t.sort == "O": v = ("obj", k)
            else: v = self.real(*map(str, k))
            self.cache[k] = v
        return v

    def ev(self, t, bvs=()):
        saved = self.bvs
        self.bvs = {}
        try: return self._ev(t)
        finally: self.bvs = saved
    def _ev(self, t):
        f = fbv(t)
        key = (t.id, tuple((h, self.bvs[h]) for h in sorted(f))) if f else t.id
        m = self.memo
        if key in m: return m[key]
        self.steps += 1
        if self.steps > 3000000: raise Unknown("evaluation budget")
        v = self._e(t)
        m[key] = v
        return v
    def _e(self, t):
        o, a = t.op, t.a
        ev = self._ev
        if o == "num":
            v = a[0]
            return int(v) if v.denominator == 1 else mpf(v.numerator) / mpf(v.denominator)
        if o == "b": return a[0]
        if o == "sym": return self._sub(lambda: self.sym(t))
        if o == "bv": return self.bvs[a[0]]
        if o == "inf": return mpf("inf") * a[0]
        if o == "nan": return mpf("nan")
        if o == "unk": raise Unknown(a[0])
        if o == "poly":
            s = 0
            for m, c in a:
                p = int(c) if c.denominator == 1 else mpf(c.numerator) / mpf(c.denominator)
                for x, e in m:
                    p = p * self.pw(ev(x), e)
                s = s + p
            return s
        if o == "sel": return self.array(t, [ev(x) for x in a[1:]])
        if o == "cmp":
            r = self.cmp(a[0], ev(a[1]))
            if self.atoms is not None:
                e = self.atoms.get(t.id)
                if e is None: e = self.atoms[t.id] = (t, {False: [], True: []})
                l = e[1][r]
                if len(l) < 2 and not any(s_ == self.seed for s_, _ in l): l.append((self.seed, {h: self.bvs[h] for h in fbv(t)}))
            return r
        if o == "not": return not ev(a[0])
        if o in ("and", "or"):         # an operand outside its domain does not matter if another one decides
            late = None; stop = o == "or"; b = self.bvs
            for x in a:
                try:
                    if bool(ev(x)) == stop: return stop
                except (Resample, Unknown, IndexError) as e: late = late or e; self.bvs = b
            if late is not None: raise late
            return not stop
        if o == "ite": return ev(a[1]) if ev(a[0]) else ev(a[2])
        if o == "oeq": return ev(a[0]) == ev(a[1])
        if o == "isinf":
            v = ev(a[0]); return bool(mpmath.isinf(v)) and (v > 0) == (a[1] > 0)
        if o in TM.BIND: return self.binder(t)
        if o == "fn": return self.fn(a[0], [ev(x) for x in a[1:]])
        if o == "ufn":
            g = UF.get(a[0].split(":")[0])
            if g: return g(self, t, a)
            vals = [ev(x) if isinstance(x, T) else x for x in a[1:]]
            key = ("ufn", a[0], canonv(vals))
            v = self.cache.get(key)
            if v is None:
                if t.sort == "B": v = self.boolean(*map(str, key))
                elif t.sort == "O": v = ("obj", key)
                elif t.sort == "I": v = self.integer(0, 3, *map(str, key))
                else:
                    v = mpf(h64(self.seed, "u", key) % 1000003) / mpf(1000003) * 3 + mpf("0.1")
                self.cache[key] = v
            return v
        raise Unknown("op " + o)
    def _sub(self, f):
        b = self.bvs
        r = f()
        self.bvs = b
        return r
    def cmp(self, op, v):
        if isinstance(v, (tuple, str)): raise Unknown("cmp object")
        if isinstance(v, mpf):
            if mpmath.isnan(v): return False
            if abs(v) < TOL: v = 0
        return v < 0 if op == "lt" else v <= 0 if op == "le" else v == 0
    def pw(self, x, e):
        if isinstance(x, bool): x = int(x)
        if e.denominator == 1:
            e = int(e)
            if e >= 0: return x ** e
            if x == 0 or (isinstance(x, mpf) and abs(x) < TOL): raise Resample("division by zero")
            return mpf(x) ** e
        x = mpf(x)
        if abs(x) < TOL: 
            if e < 0: raise Resample("division by zero")
            return mpf(0)
        if x < 0: raise Resample("negative base")
        if e.denominator == 2: return mpmath.sqrt(x) ** int(e.numerator)
        return x ** (mpf(e.numerator) / e.denominator)
    def binder(self, t):
        o = t.op
        n = self._ev(t.a[0])
        n = int(n)
        if n > 400: raise Unknown("range too large")
        h = t.h
        old = self.bvs
        def body(k, j=1):
            self.bvs = dict(old); self.bvs[h] = k
            r = self._ev(t.a[j])
            self.bvs = old
            return r
        try:
            if o == "sum":
                s = 0
                for k in range(n): s = s + body(k)
                return s
            if o == "any": return any(body(k) for k in range(n))
            if o in ("amax", "amin"):
                vs = [body(k) for k in range(n)]
                if not vs: raise Resample("empty reduction")
                return (max if o == "amax" else min)(vs)
            if o in ("argmax", "argmin"):
                vs = [body(k) for k in range(n)]
                if not vs: raise Resample("empty reduction")
                best = 0
                for k in range(1, n):
                    d = vs[k] - vs[best]
                    if (d > TOL if o == "argmax" else d < -TOL): best = k
                return best
            if o == "first":
                for k in range(n):
                    if body(k): return k
                raise Resample("no such index")
            if o == "last":
                for k in reversed(range(n)):
                    if body(k): return k
                raise Resample("no such index")
            if o == "lam": return tuple(body(k) for k in range(n))
            if o == "nz":     # position of the r-th true
                self.bvs = old
                r = int(self._ev(t.a[2]))
                for k in range(n):
                    if body(k):
                        if r == 0: return k
                        r -= 1
                raise Resample("nz")
            if o == "rank":
                self.bvs = old
                p = int(self._ev(t.a[2]))
                return sum(1 for k in range(min(n, p)) if body(k))
        finally:
            self.bvs = old
        raise Unknown(o)
    def fn(self, name, v):
        if any(isinstance(x, tuple) for x in v): raise Unknown("fn on object")
        f = lambda x: mpf(int(x)) if isinstance(x, (bool, int)) else x
        if name == "abs": return abs(v[0])
        if name == "max2": return v[0] if v[0] >= v[1] else v[1]
        if name == "min2": return v[0] if v[0] <= v[1] else v[1]
        if name == "mod":
            if v[1] == 0: raise Resample("mod 0")
            return v[0] % v[1]
        if name == "floordiv":
            if v[1] == 0: raise Resample("div 0")
            r = v[0] / mpf(v[1]) if not all(isinstance(x, int) for x in v) else v[0] // v[1]
            return r if isinstance(r, int) else int(mpmath.floor(r + TOL))
        if name in ("floor", "trunc"): 
            return int(mpmath.floor(v[0] + TOL)) if name == "floor" or v[0] >= 0 else -int(mpmath.floor(-v[0] + TOL))
        if name in ("single", "half"):
            x = f(v[0])
            if not mpmath.isfinite(x) or x == 0: return x
            e = int(mpmath.floor(mpmath.log(abs(x), 2))); q = mpf(2) ** (e - (23 if name == "single" else 10))
            return mpmath.nint(x / q) * q
        if name == "ceil": return int(mpmath.ceil(v[0] - TOL))
        if name == "rint": return int(mpmath.nint(v[0]))
        x = [f(y) for y in v]
        if name == "exp":
            if x[0] > 2000: raise Resample("overflow")
            return mpmath.exp(x[0])
        if name == "log":
            if abs(x[0]) < TOL: return mpf("-inf")
            if x[0] < 0: raise Resample("log of negative")
            return mpmath.log(x[0])
        if name in ("sin", "cos", "tan", "sinh", "cosh", "tanh"):
            r = getattr(mpmath, name)(x[0])
            return r
        if name == "arctan": return mpmath.atan(x[0])
        if name in ("arccos", "arcsin"):
            y = x[0]
            if abs(y) > 1:
                if abs(y) > 1 + TOL: raise Resample("domain")
                y = mpf(1) if y > 0 else mpf(-1)
            return mpmath.acos(y) if name == "arccos" else mpmath.asin(y)
        if name == "arctan2":
            if abs(x[0]) < TOL and abs(x[1]) < TOL: return mpf(0)
            y = mpf(0) if abs(x[0]) < TOL else x[0]
            return mpmath.atan2(y, x[1])
        if name == "pow":
            if abs(x[0]) < TOL:
                if x[1] > 0: return mpf(0)
                if abs(x[1]) < TOL: return mpf(1)
                raise Resample("0**neg")
            if x[0] < 0 and abs(x[1] - mpmath.nint(x[1])) > TOL: raise Resample("neg**frac")
            return mpmath.power(x[0], x[1])
        if name == "divzero": raise Resample("divzero")
        if name == "sign": return (x[0] > TOL) - (x[0] < -TOL)
        if name == "isnan": return bool(mpmath.isnan(x[0]))
        raise Unknown("fn " + name)

def _mat(val, m):
    key = ("mat", canonv(m))
    r = val.invcache.get(key)
    if r is None:
        M = mpmath.matrix([[x if not isinstance(x, bool) else int(x) for x in row] for row in m])
        if M.rows != M.cols: raise Unknown("non-square")
        if M.rows > 110: raise Unknown("large system")
        try:
            r = M ** -1
            if any(mpmath.isnan(x) or mpmath.isinf(x) or abs(x) > mpf(10) ** 12 for x in r): raise Resample("ill-conditioned")
        except (ZeroDivisionError, ValueError):
            raise Resample("singular")
        val.invcache[key] = r
    return r
def _inv(val, t, a):
    kind = a[0]
    m = val._ev(a[1]); i = int(val._ev(a[2])); j = int(val._ev(a[3]))
    k = 1
    if ":" in kind:       # pseudo-inverses: distinguishable scaled stand-ins
        k = mpf(h64("pinv", kind) % 97 + 2) / 7
    r = _mat(val, m)
    if not (0 <= i < r.rows and 0 <= j < r.cols): raise Unknown("index out of matrix")
    return k * r[i, j]
UF["inv"] = _inv
def _knn(val, t, a):
    data = val._ev(a[1]); pt = val._ev(a[2]); k = int(val._ev(a[3]))
    d = []
    for i, row in enumerate(data):
        s = mpf(0)
        for u, v in zip(row, pt): s += (u - v) ** 2
        d.append((canon(s), i))
    d.sort()
    if k < 0: raise Unknown("negative neighbour rank")
    return d[k][1] if k < len(d) else len(d)
UF["knn"] = _knn
def _argsort(val, t, a):
    v = val._ev(a[1]); k = int(val._ev(a[2]))
    o = sorted(range(len(v)), key=lambda i: (canon(v[i]), i))
    return o[k]
UF["argsort"] = _argsort
def _prior(val, t, a): raise Unknown("loop-carried array")
UF["prior"] = _prior

class Result:
    __slots__ = ("verdict", "how", "witness", "trials")
    def __init__(s, verdict, how, witness=None, trials=0):
        s.verdict, s.how, s.witness, s.trials = verdict, how, witness, trials
    def __repr__(s): return "%s(%s,%s)" % (s.verdict, s.how, s.witness)

def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple): 
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] != ("obj",) and len(a) == len(b):
            return all(same(x, y) for x, y in zip(a, b))
        return a == b
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    a = mpf(int(a)) if isinstance(a, (bool, int)) else a
    b = mpf(int(b)) if isinstance(b, (bool, int)) else b
    if mpmath.isnan(a) and mpmath.isnan(b): return True
    if mpmath.isinf(a) or mpmath.isinf(b): return a == b
    return abs(a - b) <= mpf(10) ** -12 * (1 + abs(a) + abs(b))

def facts_hold(v, facts):
    for f in facts:
        if not v.ev(f): return False
    return True

# ---------------------------------------------------------------- condition-directed sampling
EVERR = (ValueError, TypeError, ZeroDivisionError, OverflowError, IndexError, KeyError)
def candidates(v, key, t, cur, others):
    """values a free leaf may take: special values, other leaves' values, and other magnitudes"""
    if t.sort == "I":
        if t.op != "sym": return []
        return [x for x in dict.fromkeys([cur - 1, cur + 1, cur + 3, cur + 7, 12]) if abs(x) <= 16 and x != cur]
    if t.sort != "R": return []
    spec = ARR.get(t.a[0], {}) if t.op == "sel" else TM.SYMINFO.get(t, {})
    if spec.get("gen"):
        if not spec.get("redraw"): return []
        idx = (t.a[0],) + (tuple(k // 10 ** 18 for k in key[1]) if t.op == "sel" else ())
        return [spec["gen"](Val(h64(v.seed, "redraw", k)), idx) for k in range(6)]
    c = [mpf(0), -cur, cur * 100, cur * 1000000, -cur * 1000, cur / 1000, cur / 1000000]
    for o in others: c += [o, o + mpf(1) / 8192]
    if t.op == "sym" and (spec.get("nonneg") or spec.get("lo") is not None): c = [x for x in c if x >= 0]
    return c
def directed(t, want, seed, bvs, over, ints=None, budget=None):
    """change leaves one at a time until the comparison t takes the outcome want; None if not found"""
    op = t.a[0]
    def value(ov):
        v = Val(seed, ints=ints, over=ov); v.touch = {}; v.bvs = dict(bvs)
        p = v._ev(t.a[1])
        budget[0] -= v.steps
        if budget[0] < 0: raise Unknown("budget")
        if isinstance(p, (tuple, str, bool)): raise Unknown("object")
        return p, v
    def score(p):
        p = mpf(p)
        if mpmath.isnan(p): return mpf("inf")
        return (abs(p) if op == "eq" else p) if want else (-abs(p) if op == "eq" else -p)
    p, v = value(over)
    if v.cmp(op, p) == want: return over
    best = score(p)
    for sweep in range(2):
        progress = False
        leaves = [(k, l) for k, l in v.touch.items() if l is not TM.PI][:14]
        for key, leaf in leaves:
            if key not in v.cache: continue
            cur = v.cache[key]
            others = [v.cache[k] for k, l in leaves if k != key and k in v.cache and l.sort == leaf.sort][:5]
            cs = candidates(v, key, leaf, cur, others)
            if cs and leaf.sort == "R" and not isinstance(cur, str) and not ARR.get(leaf.a[0], {}).get("gen"):
                try:           # secant step towards the boundary
                    q, _ = value(over | {key: cur + 1})
                    if q != p:
                        z = cur - p / (mpf(q) - p)
                        cs = [z, z + mpf(1) / 8192, z - mpf(1) / 8192] + cs
                except (Resample,) + EVERR: pass
            elif cs and leaf.sort == "I":
                try:
                    q, _ = value(over | {key: cur + 1})
                    if q != p:
                        z = int(mpmath.nint(cur - mpf(p) / (mpf(q) - p)))
                        if abs(z) <= 260: cs = [z - 1, z, z + 1] + cs
                except (Resample,) + EVERR: pass
            if leaf.op == "sym" and TM.SYMINFO.get(leaf, {}).get("nonneg"): cs = [x for x in cs if x >= 0]
            pick = None
            for c in cs:
                try: q, w = value(over | {key: c})
                except (Resample,) + EVERR: continue
                if w.cmp(op, q) == want: return over | {key: c}
                sc = score(q)
                if sc < best: best, pick = sc, (c, q, w)
            if pick:
                over = over | {key: pick[0]}; p, v = pick[1], pick[2]; progress = True
        if not progress: return None
    return None

def compare(t1, t2, facts=(), trials=10, seed=1, ints=None, maxtry=80, need=2):
    """EQUAL / DIFFERENT / UNDECIDED"""
    if t1 is t2 and not t1.unk: return Result("EQUAL", "normal form")
    good = 0; reason = None; bad = None; nbad = 0; atoms = {}; steps = 0
    for k in range(maxtry):
        v = Val(h64(seed, k), ints=ints); v.atoms = atoms
        try:
            if not facts_hold(v, facts): continue
            a = v.ev(t1); b = v.ev(t2)
        except Resample as e:
            reason = "resample: %s" % e
            continue
        except Unknown as e:
            return Result("UNDECIDED", str(e))
        except RecursionError:
            return Result("UNDECIDED", "recursion")
        except EVERR as e:
            return Result("UNDECIDED", "evaluation: %r" % (e,))
        good += 1; steps += v.steps
        if not same(a, b):
            w = dict((s.a[0], str(v.cache.get(s, v.ints.get(s)))[:24]) for s in list(v.cache) if isinstance(s, T))
            return Result("DIFFERENT", "witness", dict(left=str(a)[:40], right=str(b)[:40], at=dict(list(w.items())[:14])), good)
        if good >= trials: break
    if good < need: return Result("UNDECIDED", "no admissible assignment (%s)" % reason)
    if not DIRECT: return Result("EQUAL", "random interpretation, %d assignments" % good, trials=good)
    # steer assignments to the outcomes not seen, and across the conditions only one of the terms has
    ids = [{x.id for x in TM.subterms(t)} for t in (t1, t2)]
    todo = []
    for t, inst in atoms.values():
        asym = (t.id in ids[0]) != (t.id in ids[1])
        for want in (True, False):
            if not inst[want] or asym: todo += [(not asym, k, t.id, t, want, sd, bvs) for k, (sd, bvs) in enumerate(inst[not want][:2])]
    todo.sort(key=lambda e: e[:3])
    budget = [max(20000, steps // 2)]; nflip = 0; done = {}
    for asym, k, _, t, want, sd, bvs in todo[:80]:
        if asym and done.get((t.id, want)): continue
        if budget[0] < 0: break
        try:
            ov = directed(t, want, sd, bvs, {}, ints, budget)
            if ov is None: continue
            v = Val(sd, ints=ints, over=ov)
            if not facts_hold(v, facts): continue
            a = v.ev(t1); b = v.ev(t2); budget[0] -= v.steps
        except Unknown: continue
        except (Resample, RecursionError) + EVERR: continue
        nflip += 1; done[t.id, want] = True
        if not same(a, b):
            w = dict((s.a[0], str(v.cache.get(s, v.ints.get(s)))[:24]) for s in list(v.cache) if isinstance(s, T))
            w.update(("%s%s" % (k[0], [i // 10 ** 18 if isinstance(i, int) else i for i in k[1]]) if isinstance(k, tuple) else k.a[0], str(x)[:24]) for k, x in ov.items())
            return Result("DIFFERENT", "witness", dict(left=str(a)[:40], right=str(b)[:40], at=dict(list(w.items())[-14:])), good)
    return Result("EQUAL", "random interpretation, %d assignments, %d steered" % (good, nflip), trials=good)
