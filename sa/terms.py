"""Hash-consed value-graph terms, their normal form, and the affine decision procedure.

Scalars are Laurent polynomials over atoms.  Binders (sum, any, amax, firstidx, lam) are canonical up to
renaming: a bound variable is numbered by the binder height of its body.  Nothing here runs repository code.
"""
from fractions import Fraction as F
import itertools, math

class T:
    __slots__ = ("op", "a", "id", "sort", "h", "_fs", "unk")
    def __repr__(self):
        return show(self)
    def __bool__(self):
        raise TypeError("symbolic term used as a Python bool: " + show(self))
    __hash__ = object.__hash__
    def __eq__(self, o):
        return self is o

_tab = {}
_cnt = itertools.count()
def _key(x):
    if isinstance(x, T): return ("t", x.id)
    if isinstance(x, tuple): return tuple(_key(y) for y in x)
    return (type(x).__name__, x)

def mk(op, a, sort):
    k = (op, _key(a), sort)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.sort = sort; t.id = next(_cnt)
        h = 0; unk = op == "unk"; fs = None
        for x in _subs(a):
            if x.h > h: h = x.h
            unk = unk or x.unk
        if op == "bv": h = 0
        elif op in BIND: h = h + 1
        t.h = h; t.unk = unk; t._fs = None
        _tab[k] = t
    return t

def _subs(a):
    for x in a:
        if isinstance(x, T): yield x
        elif isinstance(x, tuple): yield from _subs(x)

def subterms(t):
    """every distinct subterm"""
    seen = {t.id}; st = [t]
    while st:
        x = st.pop(); yield x
        for y in _subs(x.a):
            if y.id not in seen: seen.add(y.id); st.append(y)

NUMOPS = {"num", "poly", "sym", "bv", "sel"}
BIND = {"sum", "any", "amax", "amin", "first", "last", "lam", "rank", "nz", "argmax", "argmin"}

def num(v):
    if isinstance(v, bool): return TRUE if v else FALSE
    if isinstance(v, float):
        if math.isinf(v): return mk("inf", (1 if v > 0 else -1,), "R")
        if math.isnan(v): return NAN
        v = F(repr(v))
    return mk("num", (F(v),), "I" if F(v).denominator == 1 else "R")
TRUE = mk("b", (True,), "B"); FALSE = mk("b", (False,), "B")
NAN = mk("nan", (), "R")
ZERO = num(0); ONE = num(1)
INF = num(math.inf)
PI = mk("sym", ("pi",), "R")

_fresh = itertools.count()
RANGE = {}        # int symbol -> (lo, hi) inclusive terms (permanent: the symbols are unique)
SYMINFO = {}
def sym(name, sort="R", lo=None, hi=None, **info):
    t = mk("sym", (name,), sort)
    if lo is not None or hi is not None:
        RANGE[t] = (None if lo is None else tt(lo), None if hi is None else tt(hi))
    if info: SYMINFO[t] = info
    return t
def fresh(prefix="i", sort="I", lo=None, hi=None):
    return sym("%s!%d" % (prefix, next(_fresh)), sort, lo, hi)
def unk(reason):
    return mk("unk", (reason, next(_fresh)), "R")
def tt(v):
    if isinstance(v, T): return v
    if isinstance(v, (bool, int, float, F)): return num(v)
    raise TypeError("not a scalar: %r" % (v,))
def is_num(t): return t.op == "num"
def numval(t): return t.a[0]

# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == "poly": return dict(t.a)
    if t.op == "num": return {(): t.a[0]} if t.a[0] else {}
    return {((t, F(1)),): F(1)}

def _mono_key(m): return tuple((x.id, e) for x, e in m)
def mk_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p: return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == (): return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    srt = "I" if all(c.denominator == 1 and all(x.sort == "I" and e > 0 and e.denominator == 1 for x, e in m) for m, c in p.items()) else "R"
    return mk("poly", tuple(sorted(p.items(), key=lambda mc: _mono_key(mc[0]))), srt)

def mono_mul(m1, m2):
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: xe[0].id))

def special(*ts): return any(t.op in ("nan",) for t in ts)
def is_inf(t): return t.op == "inf"
def add(*ts):
    r = {}
    infs = [t for t in ts if is_inf(t)]
    if any(t is NAN for t in ts): return NAN
    if infs:
        s = {t.a[0] for t in infs}
        return NAN if len(s) > 1 else infs[0]
    for t in ts:
        for m, c in to_poly(num_of_bool(t)).items():
            r[m] = r.get(m, 0) + c
    return mk_poly(r)
def num_of_bool(t):
    if t.sort == "B":
        if t is TRUE: return ONE
        if t is FALSE: return ZERO
        return mk("ite", (t, ONE, ZERO), "I")
    return t
def neg(t): return scale(t, -1)
def scale(t, k):
    t = num_of_bool(t)
    if t is NAN: return NAN
    if is_inf(t): return mk("inf", (t.a[0] * (1 if k > 0 else -1),), "R") if k else NAN
    return mk_poly({m: c * F(k) for m, c in to_poly(t).items()})
def sub(a, b): return add(a, neg(b))
EXPAND = 24
def mul(a, b):
    a, b = num_of_bool(a), num_of_bool(b)
    if a is NAN or b is NAN: return NAN
    for x, y in ((a, b), (b, a)):
        if is_inf(x):
            if is_num(y):
                return mk("inf", (x.a[0] * (1 if numval(y) > 0 else -1),), "R") if numval(y) else NAN
            return mk("fn", ("mulinf", x, y), "R")
    if is_num(a): return scale(b, numval(a))
    if is_num(b): return scale(a, numval(b))
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > EXPAND and not (a.sort == "I" and b.sort == "I"):
        # keep factored: sums become atoms (with their content pulled out)
        ca, a1 = content(a) if len(pa) > 1 else (None, None)
        cb, b1 = content(b) if len(pb) > 1 else (None, None)
        ma = {((a1, F(1)),): ca} if ca is not None else pa
        mb = {((b1, F(1)),): cb} if cb is not None else pb
        pa, pb = ma, mb
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mono_mul(m1, m2)
            # collapse poly atoms raised to 1 only if alone
            r[m] = r.get(m, 0) + c1 * c2
    return norm_atoms(r)
def norm_atoms(r):
    """numeric atoms/perfect powers that fell back to exponent one over a poly atom"""
    out = {}
    for m, c in r.items():
        if len(m) == 1 and m[0][0].op == "poly" and m[0][1] == 1:
            for m2, c2 in to_poly(m[0][0]).items():
                out[m2] = out.get(m2, 0) + c * c2
        else:
            out[m] = out.get(m, 0) + c
    return mk_poly(out)
def content(t):
    """poly = c * primitive, leading coefficient positive; returns (c, primitive)."""
    p = to_poly(t)
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    c = items[0][1]
    return c, mk_poly({m: k / c for m, k in p.items()})
def power(t, e):
    """t**e with e Fraction"""
    t = num_of_bool(t)
    e = F(e)
    if t is NAN: return NAN
    if e == 0: return ONE
    if e == 1: return t
    if is_inf(t):
        return ZERO if e < 0 else mk("fn", ("pow", t, num(e)), "R")
    if is_num(t):
        v = numval(t)
        if e.denominator == 1:
            if v == 0 and e < 0: return mk("fn", ("divzero",), "R")
            return num(v ** int(e))
        if v >= 0:
            if v == 0: return ZERO if e > 0 else mk("fn", ("divzero",), "R")
            n, d = v.numerator, v.denominator
            if e.denominator == 2:
                rn, rd = math.isqrt(n), math.isqrt(d)
                if rn * rn == n and rd * rd == d:
                    return num(F(rn, rd) ** int(e.numerator)) if e.numerator > 0 else num(1 / F(rn, rd) ** int(-e.numerator))
        return mk_poly({((t, e),): F(1)}) if v > 0 else mk("fn", ("pow", t, num(e)), "R")
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            m2 = tuple((x, k * e) for x, k in m)
            return norm_atoms({m2: c ** int(e) if e > 0 else 1 / c ** int(-e)})
        if c > 0 and len(m) == 1 and m[0][1].denominator == 1 and m[0][1] % 2 == 1 or (c > 0 and len(m) == 1 and m[0][1].denominator == 2):
            x, k = m[0]
            return mul(power(num(c), e), mk_poly({((x, k * e),): F(1)})) if not (k.denominator == 1 and k != 1) else mk("fn", ("pow", t, num(e)), "R")
        return mk_poly({((t, e),): F(1)})
    if e.denominator == 1 and e > 0 and t.sort == "I" and e <= 3:
        r = t
        for _ in range(int(e) - 1): r = mul(r, t)
        return r
    if e.denominator == 1:
        c, pr = content(t)
        return norm_atoms({((pr, e),): c ** int(e) if e > 0 else 1 / c ** int(-e)})
    return mk_poly({((t, e),): F(1)})
def div(a, b):
    b = num_of_bool(b)
    if is_inf(b): return ZERO
    if b is NAN: return NAN
    return mul(a, power(b, -1))
def sqrt(t): return power(t, F(1, 2))

# ---------------------------------------------------------------- functions
def fn(name, *a, sort="R"):
    a = tuple(num_of_bool(x) for x in a)
    if any(x is NAN for x in a): return NAN
    if name == "abs":
        x, = a
        if is_num(x): return num(abs(numval(x)))
        if is_inf(x): return INF
        if x.op == "fn" and x.a[0] == "abs": return x
        if x.op == "poly":
            c, p = content(x)
            s = sign_ge0(x)
            if s: return x
            s = sign_ge0(neg(x))
            if s: return neg(x)
            if len(to_poly(p)) == 1 and all(e.denominator == 2 or (e.denominator == 1 and e % 2 == 0) for _, e in list(to_poly(p))[0]):
                return scale(p, abs(c))
            if c != 1: return scale(fn("abs", p), abs(c))
        else:
            if sign_ge0(x): return x
        sort = x.sort
    elif name == "exp":
        if a[0] is ZERO: return ONE
    elif name == "log":
        if a[0] is ONE: return ZERO
        if a[0] is ZERO: return mk("inf", (-1,), "R")
    elif name in ("sin", "tan", "arctan", "sinh", "tanh", "arcsin"):
        if a[0] is ZERO: return ZERO
        if a[0].op == "poly" and content(a[0])[0] < 0: return neg(fn(name, neg(a[0])))
    elif name == "cos":
        if a[0] is ZERO: return ONE
        if a[0].op == "poly" and content(a[0])[0] < 0: return fn(name, neg(a[0]))
    elif name == "floordiv":
        x, y = a
        if x.sort == "I" and y.sort == "I":
            if y is ONE: return x
            if is_num(x) and is_num(y) and numval(y): return num(numval(x) // numval(y))
            qr = divmod_poly(x, y)
            if qr: return qr[0]
            sort = "I"
    elif name == "mod":
        x, y = a
        if x.sort == "I" and y.sort == "I":
            if y is ONE: return ZERO
            if is_num(x) and is_num(y) and numval(y): return num(numval(x) % numval(y))
            qr = divmod_poly(x, y)
            if qr: return qr[1]
            sort = "I"
    elif name in ("single", "half"):
        if is_num(a[0]) and numval(a[0]) in (-math.inf, math.inf) or is_num(a[0]) and numval(a[0]) == int(numval(a[0])) and abs(numval(a[0])) <= 2048: return a[0]
        if a[0].op == "fn" and a[0].a[0] in (name, "half"): return a[0]
    elif name in ("floor", "ceil", "trunc", "rint"):
        if a[0].sort == "I": return a[0]
        if is_num(a[0]):
            return num({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round}[name](numval(a[0])))
        sort = "I"
    elif name in ("max2", "min2"):
        x, y = a
        if x is y: return x
        if is_num(x) and is_num(y): return num((max if name == "max2" else min)(numval(x), numval(y)))
        r = decide_ge0(sub(x, y)) if x.sort == "I" and y.sort == "I" else None
        if r is True: return x if name == "max2" else y
        if r is False: return y if name == "max2" else x
        a = tuple(sorted(a, key=lambda t: t.id))
        sort = "I" if x.sort == y.sort == "I" else "R"
    return mk("fn", (name,) + a, sort)

def divmod_poly(x, y):
    """x = q*y + r with 0 <= r < y provable; q, r integer polynomials."""
    # try: pick monomials divisible by leading monomial(s) of y
    px, py = to_poly(x), to_poly(y)
    if not py: return None
    cands = []
    # candidate quotient construction by polynomial division in each symbol of y
    for m in sorted(py, key=lambda m: (-len(m), _mono_key(m))):
        if m == () and len(py) > 1: continue
        q = {}; rem = dict(px); ok = True
        for _ in range(40):
            hit = None
            for mm, c in rem.items():
                d = mono_div(mm, m)
                if d is not None and (c / py[m]).denominator == 1:
                    hit = (mm, d, c / py[m]); break
            if hit is None: break
            mm, d, c = hit
            if m == () :
                # constant divisor
                q[d] = q.get(d, 0) + c
                rem = add_poly(rem, mul_poly({d: c}, py), -1)
                continue
            q[d] = q.get(d, 0) + c
            rem = add_poly(rem, mul_poly({d: c}, py), -1)
        else: ok = False
        if ok: cands.append((mk_poly(q), mk_poly(rem)))
    for q, r in cands:
        for dq in (0, -1, 1):
            q2 = add(q, num(dq)); r2 = sub(r, scale(y, dq)) if dq else r
            if decide_ge0(r2) is True and decide_ge0(sub(sub(y, ONE), r2)) is True:
                return q2, r2
    return None
def mono_div(m, d):
    e = dict(m)
    for x, k in d:
        e[x] = e.get(x, 0) - k
        if e[x] < 0: return None
    return tuple(sorted(((x, k) for x, k in e.items() if k), key=lambda xe: xe[0].id))
def mul_poly(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2); r[m] = r.get(m, 0) + c1 * c2
    return r
def add_poly(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]: del r[m]
    return r

def ufn(name, *a, sort="R"):
    return mk("ufn", (name,) + tuple(a), sort)
def sel(arr, *idx, sort="R"):
    return mk("sel", (arr,) + tuple(idx), sort)

# ---------------------------------------------------------------- booleans
class Ctx:
    """current assumptions: facts is a tuple of boolean terms known true"""
    facts = ()
    fset = frozenset()
    _cache = {}
_ctx_ids = {}
def set_facts(facts):
    if facts is Ctx.facts: return
    Ctx.facts = facts
    Ctx.fset = frozenset(facts)
class assume:
    def __init__(self, *conds):
        self.c = conds
    def __enter__(self):
        self.old = Ctx.facts
        set_facts(add_facts(Ctx.facts, self.c))
    def __exit__(self, *a):
        set_facts(self.old)
def add_facts(facts, conds):
    for c in conds:
        if c.op == "and":
            facts = add_facts(facts, c.a)
        elif c is not TRUE and c not in facts:
            facts = facts + (c,)
    return facts

def lt(a, b): return cmp0("lt", sub(a, b))
def le(a, b): return cmp0("le", sub(a, b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b):
    if a is b: return TRUE
    if a.sort == "B" or b.sort == "B":
        if a.sort == b.sort == "B":
            if a is TRUE: return b
            if b is TRUE: return a
            if a is FALSE: return not_(b)
            if b is FALSE: return not_(a)
            return or_(and_(a, b), and_(not_(a), not_(b)))
    if is_inf(a) or is_inf(b):
        if is_inf(a) and is_inf(b): return num(a is b)
        if is_num(a) or is_num(b): return FALSE
        x, y = (a, b) if is_inf(b) else (b, a)
        return mk("isinf", (x, y.a[0]), "B")
    if a.sort == "O" or b.sort == "O":
        return mk("oeq", tuple(sorted((a, b), key=lambda t: t.id)), "B")
    return cmp0("eq", sub(a, b))
def cmp0(op, p):
    """p op 0"""
    if p is NAN: return FALSE
    if is_inf(p):
        return num((p.a[0] < 0) if op in ("lt", "le") else False)
    if is_num(p):
        v = numval(p)
        return num({"lt": v < 0, "le": v <= 0, "eq": v == 0}[op])
    if p.op == "ite" and (is_num(p.a[1]) or is_num(p.a[2])):
        return ite(p.a[0], cmp0(op, p.a[1]), cmp0(op, p.a[2]))
    c, q = content(p)
    if op == "eq": p = q
    else: p = scale(p, 1 / abs(c))
    if p.sort == "I" or int_like(p):
        if op == "lt": return cmp0("le", add(p, ONE)) if p.sort == "I" else _cmp("lt", p)
        r = decide_ge0(neg(p)) if op == "le" else decide_eq0(p)
        if r is not None: return num(r)
    else:
        if op == "lt":
            if sign_ge0(p): return FALSE
        if op == "le" and sign_ge0(neg(p)): return TRUE
    return _cmp(op, p)
def int_like(p): return False
def _cmp(op, p):
    t = mk("cmp", (op, p), "B")
    k = known(t)
    return t if k is None else num(k)
def known(t):
    fs = Ctx.fset
    if t in fs: return True
    n = _raw_not(t)
    if n in fs: return False
    if t.op == "cmp":
        op, p = t.a
        if op == "le":   # p<=0
            if mk("cmp", ("lt", p), "B") in fs: return True
            if mk("cmp", ("eq", content(p)[1]), "B") in fs: return True
        if op == "lt":
            if mk("cmp", ("eq", content(p)[1]), "B") in fs: return False
        if op == "eq":
            for q in (p, neg(p)):
                if mk("cmp", ("lt", scale(q, 1 / abs(content(q)[0]))), "B") in fs: return False
    return None
def _raw_not(t):
    if t.op == "b": return num(not t.a[0])
    if t.op == "not": return t.a[0]
    if t.op == "cmp":
        op, p = t.a
        if op == "le":
            q = neg(p)     # p>0  <=> -p<0
            if q.sort == "I":
                return mk("cmp", ("le", add(q, ONE)), "B")
            return mk("cmp", ("lt", q), "B")
        if op == "lt":
            return mk("cmp", ("le", neg(p)), "B")
    return mk("not", (t,), "B")
def not_(t):
    if t.op == "b": return num(not t.a[0])
    if t.op == "not": return t.a[0]
    if t.op == "and": return or_(*[not_(x) for x in t.a])
    if t.op == "or": return and_(*[not_(x) for x in t.a])
    if t.op == "ite" and t.sort == "B": return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    r = _raw_not(t)
    if r.op == "cmp":
        k = known(r)
        if k is not None: return num(k)
    return r
def and_(*ts):
    out = []
    for t in _flat("and", ts):
        if t is FALSE: return FALSE
        if t is TRUE or t in out: continue
        k = known(t)
        if k is True: continue
        if k is False: return FALSE
        out.append(t)
    for t in out:
        if _raw_not(t) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", tuple(sorted(out, key=lambda t: t.id)), "B")
def or_(*ts):
    out = []
    for t in _flat("or", ts):
        if t is TRUE: return TRUE
        if t is FALSE or t in out: continue
        k = known(t)
        if k is False: continue
        if k is True: return TRUE
        out.append(t)
    for t in out:
        if _raw_not(t) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk("or", tuple(sorted(out, key=lambda t: t.id)), "B")
def _flat(op, ts):
    for t in ts:
        if t.op == op: yield from _flat(op, t.a)
        else: yield t
def truth(t):
    """boolean of a scalar"""
    if t.sort == "B": return t
    if is_num(t): return num(numval(t) != 0)
    return not_(eq(t, ZERO))
def simp_bool(c):
    """re-simplify a boolean under the current assumptions"""
    if c.op == "b": return c
    k = known(c)
    if k is not None: return num(k)
    if c.op == "and": return and_(*[simp_bool(x) for x in c.a])
    if c.op == "or": return or_(*[simp_bool(x) for x in c.a])
    if c.op == "not": return not_(simp_bool(c.a[0]))
    if c.op == "cmp": return cmp0(*c.a)
    if c.op == "ite":
        x = simp_bool(c.a[0])
        if x.op == "b": return simp_bool(c.a[1] if x.a[0] else c.a[2])
        return ite(x, simp_bool(c.a[1]), simp_bool(c.a[2]))
    return c
def ite(c, a, b):
    if c.op == "b": return a if c.a[0] else b
    k = known(c)
    if k is not None: return a if k else b
    if a is b: return a
    if c.op == "not": return ite(c.a[0], b, a)
    if a.sort == "B" and b.sort == "B":
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if a is TRUE: return or_(c, b)
        if b is FALSE: return and_(c, a)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
    if a.sort != b.sort and "B" in (a.sort, b.sort): a, b = (num_of_bool(a) if a.sort == "B" else a), (num_of_bool(b) if b.sort == "B" else b)
    if a.op == "ite" and a.a[0] is c: a = a.a[1]
    if b.op == "ite" and b.a[0] is c: b = b.a[2]
    if a is b: return a
    # if(x == y, x, y) = y,  if(x != y, x, y) = x
    e, x, y = (c.a[0], a, b) if c.op == "not" else (c, b, a)
    if e.op == "cmp" and e.a[0] == "eq" and a.op in NUMOPS and b.op in NUMOPS:
        d = sub(a, b)
        if d.op != "num" and content(d)[1] is content(e.a[1])[1]: return b if c is e else a
    return mk("ite", (c, a, b), a.sort if a.sort == b.sort else ("O" if "O" in (a.sort, b.sort) else "R"))

# ---------------------------------------------------------------- affine decisions
def bounds(s):
    return RANGE.get(s, (None, None))
_dec_depth = 0
def _elim_order(p):
    """integer symbols of the polynomial, youngest (innermost) first"""
    syms = {x for m in to_poly(p) for x, e in m}
    return sorted(syms, key=lambda t: -t.id)
def decide_ge0(p):
    """True if p >= 0 provable, False if p < 0 provable, else None (p integer-valued)."""
    if is_num(p): return numval(p) >= 0
    key = (p.id, Ctx.facts)
    c = Ctx._cache
    if key in c: return c[key]
    c[key] = None
    r = None
    if _lower_ge0(p, 0): r = True
    elif _lower_ge0(sub(neg(p), ONE) if p.sort == "I" else neg(p), 0) and p.sort == "I": r = False
    c[key] = r
    return r
def decide_eq0(p):
    if is_num(p): return numval(p) == 0
    if _lower_ge0(sub(p, ONE), 0) or _lower_ge0(sub(neg(p), ONE), 0): return False
    t = mk("cmp", ("eq", content(p)[1]), "B")
    k = known(t)
    if k is not None: return k
    if _fact_ineqs() and _lower_ge0(p, 0) and _lower_ge0(neg(p), 0): return True
    return None
def _fact_ineqs():
    """list of integer polys known >= 0 from the current facts"""
    key = ("ineq", Ctx.facts)
    if key in Ctx._cache: return Ctx._cache[key]
    out = []
    def visit(f):
        if f.op == "cmp" and f.a[1].sort == "I":
            op, p = f.a
            if op == "le": out.append(neg(p))
            elif op == "lt": out.append(sub(neg(p), ONE))
            elif op == "eq": out.append(p); out.append(neg(p))
        elif f.op == "and":
            for x in f.a: visit(x)
    for f in Ctx.facts: visit(f)
    Ctx._cache[key] = out
    # p != 0 with p >= 0 is p >= 1
    for f in Ctx.facts:
        if f.op == "not" and f.a[0].op == "cmp" and f.a[0].a[0] == "eq" and f.a[0].a[1].sort == "I":
            p = f.a[0].a[1]
            if _lower_ge0(p, 3): out.append(sub(p, ONE))
            elif _lower_ge0(neg(p), 3): out.append(sub(neg(p), ONE))
    return out
def refine(t, memo=None):
    """re-simplify every gate of a term under the current assumptions"""
    if memo is None: memo = {}
    k = (t, Ctx.facts)
    r = memo.get(k)
    if r is not None: return r
    if t.op in ("num", "b", "sym", "unk", "bv", "inf", "nan"): r = t
    elif t.sort == "B" and t.op in ("cmp", "and", "or", "not"):
        r = simp_bool(t)
    elif t.op == "ite":
        c = simp_bool(t.a[0])
        if c is TRUE: r = refine(t.a[1], memo)
        elif c is FALSE: r = refine(t.a[2], memo)
        else:
            with assume(c): a = refine(t.a[1], memo)
            with assume(not_(c)): b = refine(t.a[2], memo)
            r = ite(c, a, b)
    elif t.op in BIND:
        i, body = open_body(t)
        with assume(lt(i, t.a[0])): b2 = refine(body, memo)
        r = t if b2 is body else build_bind(t.op, t.a[0], b2, i, t.sort, tuple(t.a[2:]))
    else:
        def go(a): return tuple(refine(x, memo) if isinstance(x, T) else go(x) if isinstance(x, tuple) else x for x in a)
        a2 = go(t.a)
        r = t if a2 == t.a else rebuild(t.op, a2, t.sort)
    memo[k] = r
    return r
def _lower_ge0(p, depth):
    """prove integer poly p >= 0 by replacing symbols with their bounds"""
    if is_num(p): return numval(p) >= 0
    if p.unk: return False
    if depth > 7: return False
    pp = to_poly(p)
    if any(x.sort != "I" or e < 0 or e.denominator != 1 for m in pp for x, e in m):
        return False
    # all-positive coefficients over nonnegative atoms
    if all(c >= 0 and all(_atom_nonneg(x) for x, e in m) for m, c in pp.items()): return True
    for s in _elim_order(p):
        # p = q*s + r, linear in s
        q, r = {}, {}
        lin = True
        for m, c in pp.items():
            d = dict(m)
            if s in d:
                if d[s] != 1: lin = False; break
                m2 = tuple(xe for xe in m if xe[0] is not s)
                q[m2] = c
            else: r[m] = c
        if not lin: continue
        qt, rt = mk_poly(q), mk_poly(r)
        lo, hi = atom_bounds(s)
        sg = 1 if _lower_ge0(qt, depth + 1) else (-1 if _lower_ge0(neg(qt), depth + 1) else 0)
        if sg == 1:
            for b in lo:
                if _lower_ge0(add(mul(qt, b), rt), depth + 1): return True
        elif sg == -1:
            for b in hi:
                if _lower_ge0(add(mul(qt, b), rt), depth + 1): return True
    # use facts
    if depth <= 2:
        for f in _fact_ineqs():
            for k in (1,):
                d = sub(p, f)
                if _len(d) < _len(p) or is_num(d):
                    if _lower_ge0(d, depth + 2): return True
    return False
def _len(p): return len(to_poly(p))
def _atom_nonneg(x):
    if x.op in ("sum",) : return False
    lo, hi = atom_bounds(x)
    for b in lo:
        if is_num(b) and numval(b) >= 0: return True
        if not is_num(b) and b is not x and _lower_ge0(b, 5): return True
    return False
def atom_bounds(s):
    lo, hi = [], []
    if s.op == "sym":
        l, h = bounds(s)
        if l is not None: lo.append(l)
        if h is not None: hi.append(h)
    elif s.op == "fn" and s.a[0] == "mod" and True:
        lo.append(ZERO); hi.append(sub(s.a[2], ONE))
    elif s.op == "fn" and s.a[0] == "floordiv":
        x, y = s.a[1], s.a[2]
        if decide_ge0(x) is True: lo.append(ZERO)
        # x <= q*y - 1  =>  x//y <= q-1
        xb = None
        if x.op == "sym":
            h = bounds(x)[1]
            if h is not None:
                qr = divmod_poly(h, y)
                if qr: hi.append(qr[0])
    elif s.op in ("first", "last", "nz", "argmax", "argmin"):
        n = s.a[0]
        if isinstance(n, T):
            lo.append(ZERO); hi.append(sub(n, ONE))
    elif s.op == "sel" or s.op == "ufn":
        b = SELRANGE.get(s.a[0])
        if b:
            l, h = b(s)
            if l is not None: lo.append(l)
            if h is not None: hi.append(h)
    elif s.op == "fn" and s.a[0] == "max2":
        lo += [s.a[1], s.a[2]]
    elif s.op == "fn" and s.a[0] == "min2":
        hi += [s.a[1], s.a[2]]
    elif s.op == "ite":
        for br in s.a[1:]:
            pass
        l1, h1 = const_bounds(s.a[1]); l2, h2 = const_bounds(s.a[2])
        if l1 is not None and l2 is not None: lo.append(num(min(l1, l2)))
        if h1 is not None and h2 is not None: hi.append(num(max(h1, h2)))
    elif s.op == "sum":
        # count-like: sum of {0,1}-valued body
        b = s.a[1]
        if b.op == "ite" and all(is_num(x) and numval(x) in (0, 1) for x in b.a[1:]):
            lo.append(ZERO); hi.append(s.a[0])
    return lo, hi
SELRANGE = {}
def const_bounds(t):
    if is_num(t): return numval(t), numval(t)
    return None, None
def sign_ge0(p):
    """provably >= 0 for real terms (syntactic)"""
    if is_num(p): return numval(p) >= 0
    if is_inf(p): return p.a[0] > 0
    if p.sort == "I": return decide_ge0(p) is True
    pp = to_poly(p)
    for m, c in pp.items():
        if c < 0: return False
        for x, e in m:
            if e.denominator == 1 and e % 2 == 0: continue
            if e.denominator == 2: continue
            if x.op == "fn" and x.a[0] in ("abs", "exp"): continue
            if x is PI: continue
            if x.sort == "I" and _atom_nonneg(x): continue
            if x.op == "sum" and sign_ge0(x.a[1]): continue
            if SYMINFO.get(x, {}).get("nonneg"): continue
            if x.op == "ite" and sign_ge0(x.a[1]) and sign_ge0(x.a[2]): continue
            if x.op == "poly" and sign_ge0(x): continue
            return False
    return True

# ---------------------------------------------------------------- binders / substitution
def free_syms(t):
    if t._fs is None:
        if t.op == "sym": fs = frozenset((t,))
        else:
            fs = frozenset()
            for x in _subs(t.a): fs |= free_syms(x)
        t._fs = fs
    return t._fs
def rebuild(op, a, sort):
    """smart-constructor rebuild used by substitution"""
    if op == "poly":
        r = ZERO
        for m, c in a:
            p = num(c)
            for x, e in m: p = mul(p, power(x, e))
            r = add(r, p)
        return r
    if op == "fn":
        if a[0] == "pow": return powt(a[1], a[2])
        return fn(a[0], *a[1:], sort=sort)
    if op == "cmp": return cmp0(*a)
    if op == "not": return not_(a[0])
    if op == "and": return and_(*a)
    if op == "or": return or_(*a)
    if op == "ite": return ite(*a)
    if op == "oeq": return eq(*a)
    return mk(op, a, sort)
def powt(b, e):
    if is_num(e): return power(b, numval(e))
    if b.op == "ite": return ite(b.a[0], powt(b.a[1], e), powt(b.a[2], e))
    return mk("fn", ("pow", b, e), "R")
def subst(t, m):
    """replace symbols/bound variables by terms"""
    if not m: return t
    memo = {}
    keys = set(m)
    hasbv = any(k.op == "bv" for k in keys)
    def go(t):
        if t in m: return m[t]
        r = memo.get(t)
        if r is not None: return r
        if not hasbv and not (free_syms(t) & keys) and not any(k.op != "sym" for k in keys):
            memo[t] = t
            return t
        if t.op in ("num", "b", "sym", "unk", "bv", "inf", "nan"): r = t
        else:
            if t.op in BIND:
                i, body = open_body(t)
                n2 = go(t.a[0]); b2 = go(body); ex = tuple(go(x) for x in t.a[2:])
                if n2 is t.a[0] and b2 is body and ex == t.a[2:]: r = t
                else:
                    if i in RANGE: RANGE[i] = (ZERO, sub(n2, ONE))
                    r = build_bind(t.op, n2, b2, i, t.sort, ex)
            else:
                a2 = goa(t.a)
                r = t if a2 == t.a else rebuild(t.op, a2, t.sort)
        memo[t] = r
        return r
    def goa(a):
        return tuple(go(x) if isinstance(x, T) else goa(x) if isinstance(x, tuple) else x for x in a)
    return go(t)
def rename_fns(t, pred, new):
    """replace the uninterpreted functions / arrays whose name satisfies pred"""
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is None:
            a = goa(t.a)
            if t.op in ("ufn", "sel") and pred(str(a[0])): a = (new(a[0]),) + a[1:]
            r = memo[t] = t if a == t.a else mk(t.op, a, t.sort)
        return r
    def goa(a): return tuple(go(x) if isinstance(x, T) else goa(x) if isinstance(x, tuple) else x for x in a)
    return go(t)
def build_bind(op, n, body, i, sort, extra=()):
    if op == "sum":
        if is_num(n) and numval(n) <= SMALL: return add(ZERO, *[subst(body, {i: num(k)}) for k in range(int(numval(n)))])
        return sum_body(n, num_of_bool(body), i)
    if op == "any":
        if is_num(n) and numval(n) <= SMALL: return or_(*[subst(body, {i: num(k)}) for k in range(int(numval(n)))])
        if body is FALSE: return FALSE
        if i not in free_syms(body): return and_(gt(n, ZERO), body)
        t = mkbind("any", n, body, i, "B")
        k = known(t)
        return t if k is None else num(k)
    if op in ("amax", "amin") and i not in free_syms(body): return body
    return mkbind(op, n, body, i, sort, extra)
def bv(h, sort="I"): return mk("bv", (h,), sort)
def mkbind(op, n, body, i, sort, extra=()):
    h = max([body.h, n.h] + [x.h for x in extra]) + 1
    return mk(op, (n, _raw_subst(body, i, bv(h))) + tuple(extra), sort)
def open_body(t):
    """(fresh index, body) of a binder term"""
    i = _index(t.a[0])
    return i, _raw_subst2(t.a[1], bv(t.h), i)
def _raw_subst2(t, s, v):
    memo = {}
    def go(t):
        if t is s: return v
        r = memo.get(t)
        if r is None:
            if t.op in ("num", "b", "sym", "unk", "bv", "inf", "nan"): r = t
            else:
                a2 = goa(t.a)
                if a2 == t.a: r = t
                elif t.op == "poly":
                    d = {}
                    for m, c in a2:
                        m = tuple(sorted(m, key=lambda xe: xe[0].id))
                        d[m] = d.get(m, 0) + c
                    r = mk_poly(d)
                elif t.op in ("and", "or"): r = mk(t.op, tuple(sorted(a2, key=lambda x: x.id)), t.sort)
                else: r = mk(t.op, a2, t.sort)
            memo[t] = r
        return r
    def goa(a):
        return tuple(go(x) if isinstance(x, T) else goa(x) if isinstance(x, tuple) else x for x in a)
    return go(t)
def _raw_subst(t, s, v):
    memo = {}
    def go(t):
        if t is s: return v
        r = memo.get(t)
        if r is None:
            if s not in free_syms(t): r = t
            else:
                a2 = goa(t.a)
                if t.op == "poly":
                    d = {}
                    for m, c in a2:
                        m = tuple(sorted(m, key=lambda xe: xe[0].id))
                        d[m] = d.get(m, 0) + c
                    r = mk_poly(d)
                elif t.op in ("and", "or"):
                    r = mk(t.op, tuple(sorted(a2, key=lambda x: x.id)), t.sort)
                else: r = mk(t.op, a2, t.sort)
            memo[t] = r
        return r
    def goa(a):
        return tuple(go(x) if isinstance(x, T) else goa(x) if isinstance(x, tuple) else x for x in a)
    return go(t)
def open_(t, height, val):
    return subst(t, {bv(height): val})

def _index(n, name="k"):
    return fresh(name, "I", ZERO, sub(n, ONE))
def bind(op, n, f, sort="R", extra=()):
    """op over index in [0,n) of f(index)"""
    i = _index(n)
    return mkbind(op, n, f(i), i, sort, tuple(extra))
SMALL = 6
def summ(n, f):
    if is_num(n) and numval(n) <= SMALL:
        return add(ZERO, *[f(num(k)) for k in range(int(numval(n)))])
    i = _index(n)
    return sum_body(n, num_of_bool(f(i)), i)
def sum_body(n, body, i):
    if body is NAN: return NAN
    if i not in free_syms(body): return mul(n, body)
    pp = to_poly(body)
    out = (); c = F(1)
    if len(pp) == 1:      # pull index-free factors out
        (m, c), = pp.items()
        out = tuple(xe for xe in m if i not in free_syms(xe[0]))
        body = norm_atoms({tuple(xe for xe in m if i in free_syms(xe[0])): F(1)})
    s = mkbind("sum", n, body, i, "I" if body.sort in "IB" else "R")
    return mul(mk_poly({out: c}), s)
def any_(n, f):
    if is_num(n) and numval(n) <= SMALL:
        return or_(*[f(num(k)) for k in range(int(numval(n)))])
    i = _index(n)
    return build_bind("any", n, f(i), i, "B")
def all_(n, f): return not_(any_(n, lambda i: not_(f(i))))
def red(op, n, f):
    """amax/amin"""
    if is_num(n) and numval(n) <= SMALL and numval(n) >= 1:
        r = f(ZERO)
        for k in range(1, int(numval(n))): r = fn("max2" if op == "amax" else "min2", r, f(num(k)))
        return r
    i = _index(n)
    body = f(i)
    return build_bind(op, n, body, i, body.sort)
def find(op, n, f):
    """first/last index in [0,n) with f true"""
    i = _index(n)
    body = f(i)
    if body is TRUE: return ZERO if op == "first" else sub(n, ONE)
    return mkbind(op, n, body, i, "I")
def lam(shape, f):
    """canonical closed term of a tensor"""
    vs = [_index(n) for n in shape]
    t = f(*vs)
    for v, n in reversed(list(zip(vs, shape))):
        t = mkbind("lam", n, t, v, t.sort)
    return t

# ---------------------------------------------------------------- display
def show(t, d=0):
    if not isinstance(t, T): return str(t)
    if d > 12: return "..."
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == "num": return str(a[0])
    if o == "b": return str(a[0])
    if o == "sym": return a[0]
    if o == "bv": return "$%d" % a[0]
    if o == "inf": return "inf" if a[0] > 0 else "-inf"
    if o == "unk": return "?(%s)" % a[0]
    if o == "poly":
        parts = []
        for m, c in a[:12]:
            f = [s(x) if e == 1 else "%s^%s" % (s(x), e) for x, e in m]
            if c != 1 or not f: f = [str(c)] + f
            parts.append("*".join(f))
        return "(" + " + ".join(parts) + (" + ..." if len(a) > 12 else "") + ")"
    if o in ("fn", "ufn"): return "%s(%s)" % (a[0], ", ".join(map(s, a[1:])))
    if o == "sel": return "%s[%s]" % (a[0], ", ".join(map(s, a[1:])))
    if o == "cmp": return "(%s %s 0)" % (s(a[1]), {"lt": "<", "le": "<=", "eq": "=="}[a[0]])
    if o == "not": return "!" + s(a[0])
    if o in ("and", "or"): return "(" + (" & " if o == "and" else " | ").join(map(s, a)) + ")"
    if o == "ite": return "if(%s, %s, %s)" % tuple(map(s, a))
    if o in BIND: return "%s[$%d<%s](%s)" % (o, t.h, s(a[0]), ", ".join(s(x) for x in a[1:]))
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) if isinstance(x, T) else str(x) for x in a))
