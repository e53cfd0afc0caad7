"""Summaries of loops over symbolic ranges: recurrence solving instead of unrolling.

A loop body is analysed once for a symbolic iteration i.  Every modified scalar, attribute and array cell gets a
closed form 'state after m iterations' (last value, induction, sum, any/all, extremum, last write with the index
equation inverted).  What cannot be solved becomes an unknown, which makes dependent obligations undecided.
"""
import ast
from terms import *
import terms as TM
from values import *
from values import _Undef
from interp import Ab, Out, Dead, gate, and0, tb

class LoopL:
    """content of a list being appended to in a symbolic loop"""
    def __init__(s, base, added=()): s.base, s.added = base, tuple(added)

def modified_names(body):
    out = set()
    for n in ast.walk(ast.Module(body, [])):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
    return out

def flat(ix):
    out = []
    for x in ix: out += list(x) if isinstance(x, tuple) else [x]
    return out
def remap(q, idx):
    m = {}
    for a, b in zip(flat(q), flat(idx)): m[a] = b
    return m
def content_subst(c, m):
    """content with loop symbols replaced"""
    from interp import gate
    shape = tuple(subst(d, m) if isinstance(d, T) else FDim(tuple(subst(x, m) for x in d.src), (lambda d: lambda ix: term_sub(d.pred, d.src, ix, m))(d)) for d in c.shape)
    q = tuple(dfresh(d) for d in c.shape)
    cell = {}
    def f(ix):
        k = Ctx.facts
        t = cell.get(k)
        if t is None: t = cell[k] = c.at(q)
        return subst(t, {**m, **remap(q, ix)})
    mk_ = None
    if c.m is not None:
        def mk_(ix): return subst(c.m(q), {**m, **remap(q, ix)})
    return Content(shape, f, c.dtype, mk_, c.alias)
def term_sub(pred, src, ix, m):
    q = tuple(TM._index(n) for n in src)
    return subst(pred(q), {**m, **dict(zip(q, ix))})
def vsubst(I, v, m):
    if isinstance(v, T): return subst(v, m)
    if isinstance(v, tuple): return tuple(vsubst(I, x, m) for x in v)
    if isinstance(v, Arr):
        s = I.snap(v)
        c = Content(s.shape, s.at, s.dtype, s.m)
        c2 = content_subst(c, m)
        o = new_oid(); I.S.heap[o] = c2
        return Arr(o, c2.shape)
    if isinstance(v, Choice):
        return I.merge_val(subst(v.c, m), vsubst(I, v.a, m), vsubst(I, v.b, m))
    if isinstance(v, Lst):
        c = I.S.heap[v.oid]
        if isinstance(c, tuple) and c[:1] != ("?choice",): return I.newlist([vsubst(I, x, m) for x in c], v.kind)
    if isinstance(v, SStr):
        return SStr([p if isinstance(p, str) else (p[0], vsubst(I, p[1], m)) for p in v.parts])
    return v

def has_prior(t, priors):
    """does the term mention a loop-carried value"""
    if free_syms(t) & priors: return True
    return mentions(t, "prior:")
_men = {}
def mentions(t, pre):
    k = (t, pre)
    r = _men.get(k)
    if r is None:
        r = (t.op == "ufn" and t.a[0].startswith(pre)) or any(mentions(x, pre) for x in TM._subs(t.a))
        _men[k] = r
    return r
def leaves(t, path=()):
    """(path conditions, leaf) of an ite tree"""
    if t.op == "ite":
        c, a, b = t.a
        with TM.assume(c): yield from leaves(simp_term(a), path + (c,))
        nc = not_(c)
        with TM.assume(nc): yield from leaves(simp_term(b), path + (nc,))
    else: yield path, t
def simp_term(t):
    if t.op == "ite":
        c = simp_bool(t.a[0])
        if c is TRUE: return simp_term(t.a[1])
        if c is FALSE: return simp_term(t.a[2])
    return t
def dist_sub(v, p):
    """v - p pushed into gates"""
    if v.op == "ite": return ite(v.a[0], dist_sub(v.a[1], p), dist_sub(v.a[2], p))
    return sub(v, p)

def solve_index(conds, i, m):
    """conditions on i in [0,m): returns (cond without i, i*) or None if no unique/last solution is syntactic"""
    conds = [c for x in conds for c in (x.a if x.op == "and" else (x,))]
    for k, c in enumerate(conds):
        if c.op == "cmp" and c.a[0] == "eq" and c.a[1].sort == "I":
            p = to_poly(c.a[1])
            s = solve_lin(p, i)
            if s is not None:
                rest = [subst(x, {i: s}) for j, x in enumerate(conds) if j != k]
                return and_(ge(s, ZERO), lt(s, m), *rest), s, True
            s = solve_radix(p, i)
            if s is not None:
                sol, side = s
                rest = [subst(x, {i: sol}) for j, x in enumerate(conds) if j != k]
                return and_(ge(sol, ZERO), lt(sol, m), side, *rest), sol, True
    dep = [c for c in conds if i in free_syms(c)]
    if not dep: return and_(gt(m, ZERO), *conds), sub(m, ONE), False
    return None
def solve_lin(p, i):
    co = None; rest = {}
    for mo, c in p.items():
        if any(x is i for x, e in mo):
            if len(mo) == 1 and mo[0][1] == 1 and abs(c) == 1: co = c
            else: return None
        elif any(i in free_syms(x) for x, e in mo): return None
        else: rest[mo] = c
    if co is None: return None
    r = mk_poly(rest)
    return neg(r) if co == 1 else r
def solve_radix(p, i):
    """a*i + r == 0 with symbolic integer a: i = (-r)//a when divisible"""
    co = {}; rest = {}
    for mo, c in p.items():
        d = dict(mo)
        if i in d:
            if d[i] != 1: return None
            co[tuple(xe for xe in mo if xe[0] is not i)] = c
        elif any(i in free_syms(x) for x, e in mo): return None
        else: rest[mo] = c
    if not co: return None
    a, r = mk_poly(co), mk_poly(rest)
    if a.sort != "I": return None
    if decide_ge0(sub(a, ONE)) is not True:
        if decide_ge0(sub(neg(a), ONE)) is True: a, r = neg(a), neg(r)
        else: return None
    nr = neg(r)
    return fn("floordiv", nr, a), eq(fn("mod", nr, a), ZERO)

def last_write(ws, i, m, init):
    """value after iterations 0..m-1 given exclusive guarded writes ws=[(conds, V)]"""
    sol = []
    for conds, Vt in ws:
        r = solve_index(conds, i, m)
        if r is None:
            body = and0(conds)
            k = fresh("k", "I", ZERO, sub(m, ONE))
            b2 = subst(body, {i: k})
            c = TM.build_bind("any", m, b2, k, "B")
            if i not in free_syms(Vt): sol.append((c, None, Vt)); continue
            ist = mkbind("last", m, b2, k, "I")
            sol.append((c, ist, Vt))
        else: sol.append((r[0], r[1], Vt))
    def build(k):
        if k == len(sol): return init()
        c, ist, Vt = sol[k]
        for c2, i2, _ in sol[k + 1:]:
            if i2 is None or ist is None: continue
            if ist is i2: continue
            with TM.assume(c): ex = simp_bool(c2)
            if ex is FALSE: continue
            c = and_(c, not_(and_(c2, gt(i2, ist))))
        return gate(c, lambda: subst(Vt, {i: ist}) if ist is not None else Vt, lambda: build(k + 1))
    return build(0)

class Loop:
    def __init__(L, I, n, i, body, filt=None, before=None):
        L.I, L.n, L.i, L.body, L.filt, L.before = I, n, i, body, filt, before
        L.S0 = I.S
        L.slots = {}        # slot -> dict(prior=…, at=None or function(m))
        L.deadend = False
    # slots: ('env', name) ('heap', oid) ('attr', oid, key)
    def initial(L, s):
        if s[0] == "env": return L.S0.env.get(s[1], UNDEF)
        if s[0] == "heap": return L.S0.heap[s[1]]
        return L.S0.heap[s[1]].get(s[2], UNDEF)
    def add(L, s):
        if s in L.slots: return False
        init = L.initial(s)
        d = dict(prior=None, at=None, init=init)
        if isinstance(init, Content):
            name = "prior:%d" % s[1]
            d["prior"] = Content(init.shape, lambda ix: ufn(name, *flat(ix)), init.dtype, None, init.alias)
        elif isinstance(init, bool): d["prior"] = fresh("prior", "B")
        elif isinstance(init, T): d["prior"] = fresh("prior_" + str(s[-1]), init.sort)
        elif isinstance(init, _Undef): d["prior"] = UNDEF
        elif isinstance(init, tuple) and s[0] == "heap" and init[:1] != ("?choice",): d["prior"] = LoopL(init)
        elif isinstance(init, SymL): d["prior"] = LoopL(init)
        elif isinstance(init, Arr) and s[0] in ("env", "attr"): d["prior"] = Unk("loop-carried " + str(s[-1]))
        else: d["prior"] = Unk("loop-carried " + str(s[-1]))
        L.slots[s] = d
        return True
    def start(L, m):
        S = L.S0.copy()
        for s, d in L.slots.items():
            v = d["at"](m) if d["at"] is not None else d["prior"]
            if s[0] == "env":
                if isinstance(v, _Undef): S.env.pop(s[1], None)
                else: S.env[s[1]] = v
            elif s[0] == "heap": S.heap[s[1]] = v
            else:
                h = dict(S.heap[s[1]])
                if isinstance(v, _Undef): h.pop(s[2], None)
                else: h[s[2]] = v
                S.heap[s[1]] = h
        return S
    def run(L, S):
        """one symbolic iteration; returns (end state or None, abrupt outcomes)"""
        I = L.I
        I.enter(S)
        I.loops.append((L.i, L.n))
        base = I.S.facts
        try:
            def go():
                if L.before: 
                    pend0, I.pend = I.pend, []
                    try:
                        try: L.before()
                        except Dead: return Out(None, I.pend)
                        pre = I.pend
                    finally: I.pend = pend0
                else: pre = []
                o = I.block(L.body)
                o.ab = pre + o.ab
                return o
            if L.filt is not None:
                c = simp_bool(L.filt(L.i))
                if c is TRUE: out = go()
                elif c is FALSE: out = Out(I.S)
                else: out = I.branch(c, go, lambda: Out(I.S))
            else: out = go()
            n = out.normal; ab = []
            for a in out.ab:
                if a.kind == "continue":
                    n = I.merge_states(I.pathcond(a.S, base), a.S, n, base) if n is not None else a.S
                else: ab.append(a)
            if n is not None: I.enter(n)
            return n, ab
        finally: I.loops.pop()
    def discover(L, S, E):
        new = False
        for st in E:
            if st is None: continue
            for k, v in st.env.items():
                if k.startswith("__"): continue
                if S.env.get(k, UNDEF) is not v: new |= L.add(("env", k))
            for o, v in st.heap.items():
                if o not in L.S0.heap: continue
                b = S.heap.get(o)
                if b is v: continue
                if isinstance(v, dict) and isinstance(b, dict):
                    for k in set(v) | set(b):
                        if v.get(k, UNDEF) is not b.get(k, UNDEF): new |= L.add(("attr", o, k))
                else: new |= L.add(("heap", o))
        return new
    def value(L, E, s):
        if s[0] == "env": return E.env.get(s[1], UNDEF)
        if s[0] == "heap": return E.heap.get(s[1], UNDEF)
        return E.heap[s[1]].get(s[2], UNDEF)
    def solve(L, E):
        I = L.I
        priors = {d["prior"] for d in L.slots.values() if d["at"] is None and isinstance(d["prior"], T)}
        I.enter(E)
        return L.solve_pass(E, priors, True) or L.solve_pass(E, priors, False)
    def vague(L, v):
        """does the value contain an unknown (possibly only because other recurrences are not solved yet)"""
        if isinstance(v, T): return v.unk
        if isinstance(v, Content):
            return v.at(tuple(dfresh(x, "q") for x in v.shape)).unk
        return isinstance(v, Unk)
    def solve_pass(L, E, priors, strict):
        I = L.I
        prog = False
        for s, d in list(L.slots.items()):
            if d["at"] is not None: continue
            v = L.value(E, s)
            at = None
            if strict and L.vague(v): continue
            try:
                if isinstance(v, bool): v = num(v)
                if isinstance(v, T): at = L.scalar(d, v, priors)
                elif isinstance(v, Content): at = L.array(s, d, v, priors)
                elif isinstance(v, LoopL): at = L.list(d, v)
                else: at = L.other(d, v)
            except RecursionError: at = None
            if at is not None: d["at"] = at; prog = True
        return prog
    def scalar(L, d, v, priors):
        i, p, init = L.i, d["prior"], d["init"]
        if isinstance(init, bool): init = num(init)
        if not has_prior(v, priors):
            if isinstance(init, T):
                return lambda m: gate(gt(m, ZERO), lambda: subst(v, {i: sub(m, ONE)}), lambda: init)
            if isinstance(init, _Undef): return lambda m: subst(v, {i: sub(m, ONE)})
            return lambda m: L.I.merge_val(simp_bool(gt(m, ZERO)), subst(v, {i: sub(m, ONE)}), init)
        if not isinstance(p, T): return None
        if v.sort == "B" and p.sort == "B":
            if v.op in ("or", "and") and p in v.a:
                rest = [x for x in v.a if x is not p]
                if not any(has_prior(x, priors) for x in rest):
                    if v.op == "or": return lambda m: or_(init, any_(m, lambda k: or_(*[subst(x, {i: k}) for x in rest])))
                    return lambda m: and_(init, all_(m, lambda k: and_(*[subst(x, {i: k}) for x in rest])))
            if v is p: return lambda m: init
            return None
        if v is p: return lambda m: init
        dd = dist_sub(v, p)
        if not has_prior(dd, priors):
            if i not in free_syms(dd): return lambda m: add(init, mul(m, dd))
            return lambda m: add(init, summ(m, lambda k: subst(dd, {i: k})))
        if v.op == "fn" and v.a[0] in ("max2", "min2") and p in v.a[1:]:
            g = v.a[1] if v.a[2] is p else v.a[2]
            if not has_prior(g, priors):
                op = "amax" if v.a[0] == "max2" else "amin"
                return lambda m: gate(gt(m, ZERO), lambda: fn(v.a[0], init, red(op, m, lambda k: subst(g, {i: k}))), lambda: init)
        ls = list(leaves(v))
        w = [(pa, x) for pa, x in ls if x is not p]
        if not any(has_prior(x, priors) or any(has_prior(c, priors) for c in pa) for pa, x in w):
            return lambda m: last_write(w, i, m, lambda: init)
        if len(w) == 1:   # running extremum written as a comparison
            (pa, g), = w
            if len(pa) == 1 and not has_prior(g, priors):
                c = pa[0]
                for op, tests in (("amax", (gt(g, p), ge(g, p))), ("amin", (lt(g, p), le(g, p)))):
                    if c in tests:
                        f2 = "max2" if op == "amax" else "min2"
                        return lambda m: gate(gt(m, ZERO), lambda: fn(f2, init, red(op, m, lambda k: subst(g, {i: k}))), lambda: init)
        if init.sort in "RI" and not isinstance(init, _Undef):   # product accumulation
            q = div(v, p)
            if not has_prior(q, priors) and i not in free_syms(q):
                return lambda m: mul(init, power_sym(q, m))
        return None
    def array(L, s, d, v, priors):
        i, init = L.i, d["init"]
        if not isinstance(init, Content) or len(init.shape) != len(v.shape): return None
        q = tuple(dfresh(x, "q") for x in v.shape)
        name = "prior:%d" % s[1]
        t = v.at(q)
        if mentions(t, name): t = TM.refine(t)
        p = ufn(name, *flat(q))
        ls = [own_cell(pa, x, p, q, name) for pa, x in leaves(t)]
        w = [(pa, x) for pa, x in ls if x is not p]
        if not w: return lambda m: init
        hp = lambda x: has_prior(x, priors)
        if any(hp(c) for pa, x in w for c in pa):
            if not all(only_prior(c, p, priors) for pa, x in w for c in pa): return None
            # conditions on the cell's own previous value: solved only when each cell is written at most once
        if any(hp(x) or any(hp(c) for c in pa) for pa, x in w):
            if not all(only_prior(y, p, priors) for pa, x in w for y in pa + (x,)): return None
            uniq = all((solve_index([c for c in pa if not hp(c)], i, L.n) or (0, 0, False))[2] for pa, x in w)
            if uniq:
                # all writes of a cell happen in one iteration if the solved indices coincide
                sols = {solve_index([c for c in pa if not hp(c)], i, L.n)[1] for pa, x in w}
                if len(sols) == 1:
                    def at(m):
                        def f(ix):
                            mm = remap(q, ix)
                            i0 = init.at(ix)
                            w2 = [(tuple(subst(subst(c, {p: P0}), mm) for c in pa), subst(subst(x, {p: P0}), mm)) for pa, x in w]
                            r = last_write(w2, i, m, lambda: i0)
                            return subst(r, {P0: i0})
                        return Content(init.shape, f, init.dtype, init.m, init.alias)
                    P0 = fresh("old", "R")
                    return at
            # accumulation
            dd = [(pa, dist_sub(x, p)) for pa, x in w]
            if not any(hp(x) or any(hp(c) for c in pa) for pa, x in dd):
                def at(m):
                    def f(ix):
                        mm = remap(q, ix)
                        return add(init.at(ix), *[summ(m, (lambda pa, x: lambda k: gate(subst(and0(pa), {**mm, i: k}), lambda: subst(x, {**mm, i: k}), lambda: ZERO))(pa, x)) for pa, x in dd])
                    return Content(init.shape, f, init.dtype, init.m, init.alias)
                return at
            return None
        def at(m):
            def f(ix):
                mm = remap(q, ix)
                return last_write([(tuple(subst(c, mm) for c in pa), subst(x, mm)) for pa, x in w], i, m, lambda: init.at(ix))
            return Content(init.shape, f, init.dtype, v.m if v.m is init.m else None, init.alias)
        return at
    def list(L, d, v):
        I, i = L.I, L.i
        base, added = v.base, v.added
        if not added: return lambda m: base
        k = len(added)
        if isinstance(base, SymL): n0, f0 = base.n, base.f
        else: n0, f0 = num(len(base)), lambda x: pick(I, base, x)
        def at(m):
            def f(x):
                y = sub(x, n0)
                r = None
                if k == 1: new = vsubst(I, added[0], {i: y})
                else:
                    new = None
                    for j in reversed(range(k)):
                        vj = vsubst(I, added[j], {i: fn("floordiv", y, num(k))})
                        new = vj if new is None else I.merge_val(eq(fn("mod", y, num(k)), num(j)), vj, new)
                if n0 is ZERO: return new
                return I.merge_val(simp_bool(lt(x, n0)), f0(x), new)
            return SymL(add(n0, mul(num(k), m)), f)
        return at
    def other(L, d, v):
        I, i = L.I, L.i
        init = d["init"]
        if isinstance(v, Unk): return None
        def at(m):
            if m is i: return d["prior"] if not isinstance(d["prior"], T) else Unk("loop-carried")
            try: r = vsubst(I, v, {i: sub(m, ONE)})
            except Exception: return Unk("loop-local")
            if isinstance(init, _Undef): return r
            return I.merge_val(simp_bool(gt(m, ZERO)), r, init)
        return at
    def go(L):
        I = L.I
        I.mute += 1
        pend0 = I.pend; I.pend = []
        try:
            for rounds in range(8):
                S = L.start(L.i)
                St = S.copy()
                E, ab = L.run(S)
                if L.discover(St, [E] + [a.S for a in ab if a.kind == "break"]): continue
                if E is None: break
                if any(a.kind in ("break", "ret") for a in ab): L.deadend = True; break
                if all(d["at"] is not None for d in L.slots.values()): break
                if not L.solve(E): break
        finally:
            I.mute -= 1; I.pend = pend0
        I.enter(L.S0)
        if L.deadend: return None
        for s, d in L.slots.items():
            if d["at"] is None:
                if not (s[0] == "env" and isinstance(d["prior"], Unk)): I.unknown("unsolved recurrence of %s" % (s[-1],))
                d["at"] = L.give_up(s, d)
        return True
    def give_up(L, s, d):
        init = d["init"]
        if isinstance(init, Content): return lambda m: Content(init.shape, lambda ix: unk("unsolved recurrence"), init.dtype)
        if isinstance(init, T): return lambda m: unk("unsolved recurrence")
        if s[0] == "heap": return lambda m: SymL(unk("list"), lambda k: Unk("list"))
        return lambda m: Unk("unsolved recurrence")
    def finish(L):
        """final, recorded pass; then the state after the loop"""
        I = L.I
        S = L.start(L.i)
        pend0 = I.pend; I.pend = []
        E, ab = L.run(S)
        ab = I.pend + ab; I.pend = pend0
        I.enter(L.S0)
        S = L.start(L.n)
        if E is not None:
            for o, v in E.heap.items():      # objects allocated inside the body stay addressable
                if o not in S.heap: S.heap[o] = v
        for a in ab:
            a.S.env = dict(a.S.env)
            if a.kind == "raise" and not is_num(L.n): a.S.facts = add_facts(a.S.facts, [gt(L.n, ZERO)])   # the body runs at least once
        if E is None:
            # no iteration completes normally
            S.facts = add_facts(S.facts, [le(L.n, ZERO)])
        I.enter(S)
        return Out(I.S, ab)

def own_cell(pa, x, p, q, name):
    """prior(e) is the cell's own previous value wherever the path conditions force e = q"""
    occ = set()
    def walk(t, seen):
        if t in seen: return
        seen.add(t)
        if t.op == "ufn" and t.a[0] == name and t is not p: occ.add(t)
        for y in TM._subs(t.a): walk(y, seen)
    seen = set(); walk(x, seen)
    for c in pa: walk(c, seen)
    if not occ: return pa, x
    m = {}
    fq = flat(q)
    with TM.assume(*[c for c in pa if not mentions(c, name)]):
        for o in occ:
            if any(bound_in(y) for y in o.a[1:]): continue
            ok = True
            for e, qq in zip(o.a[1:], fq):
                d = sub(e, qq)
                if not (d is ZERO or decide_eq0(d) is True): ok = False; break
            if ok: m[o] = p
    if not m: return pa, x
    return tuple(subst(c, m) for c in pa), subst(x, m)
def bound_in(t):
    if t.op == "bv": return True
    return any(bound_in(y) for y in TM._subs(t.a))
P0_ = None
def only_prior(t, p, priors):
    """the only loop-carried value in t is the cell p itself"""
    if t is p: return True
    if t in priors: return False
    if t.op == "ufn" and isinstance(t.a[0], str) and t.a[0].startswith("prior:"): return False
    return all(only_prior(x, p, priors) for x in TM._subs(t.a))
def power_sym(q, m):
    if is_num(m): return power(q, numval(m))
    return mk("fn", ("pow", q, m), "R")
def pick(I, items, k):
    if is_num(k): return items[int(numval(k))]
    r = items[-1]
    for j in reversed(range(len(items) - 1)): r = I.merge_val(simp_bool(eq(k, num(j))), items[j], r)
    return r

def symbolic_for(I, st, n, val, filt):
    if decide_ge0(neg(n)) is True and not n.unk:
        return I.block(st.orelse) if st.orelse else Out(I.S)
    i = TM._index(n, "i")
    L = Loop(I, n, i, st.body, filt, lambda: I.assign(st.target, val(i)))
    if L.go() is None:
        I.unknown("break or return in a loop over a symbolic range")
        o = I.havoc_loop(st)
        return o
    out = L.finish()
    if st.orelse and out.normal is not None:
        o = I.block(st.orelse); return Out(o.normal, out.ab + o.ab)
    return out

def symbolic_while(I, st):
    """while v < e: ...; v += 1   as a counting loop"""
    S0 = I.S
    i = fresh("w", "I", ZERO, None)
    L = Loop(I, None, i, st.body)
    L.n = fresh("trip", "I", ZERO, None)
    I.mute += 1; pend0 = I.pend; I.pend = []
    n = None
    try:
        for r in range(4):
            S = L.start(i); St = S.copy(); I.enter(S)
            try: t = I.truth(I.ev(st.test))
            except Dead: break
            I.enter(S)
            E, ab = L.run(I.S)
            if L.discover(St, [E] + [a.S for a in ab]): continue
            if E is None or any(a.kind in ("break", "ret") for a in ab): break
            tests = [t] if isinstance(t, T) else []
            if isinstance(t, T) and t.op == "and": tests = list(t.a)
            for s, d in L.slots.items():
                p = d["prior"]; v = L.value(E, s)
                if not (isinstance(p, T) and isinstance(v, T) and isinstance(d["init"], T)): continue
                c = sub(v, p)
                if not (is_num(c) and abs(numval(c)) == 1): continue
                if len(tests) == 1 and tests[0].op == "cmp" and tests[0].a[0] == "le":
                    P = to_poly(tests[0].a[1])
                    k = P.get(((p, F1),), 0)
                    if k * numval(c) != 1: continue
                    R = mk_poly({m: x for m, x in P.items() if m != ((p, F1),)})
                    if p in free_syms(R): continue
                    pri = {dd["prior"] for ss, dd in L.slots.items() if isinstance(dd["prior"], T)}
                    if has_prior(R, pri): continue
                    n = add(neg(add(scale(d["init"], k), R)), ONE)
            break
    finally: I.mute -= 1; I.pend = pend0
    I.enter(S0)
    if n is None:
        I.unknown("while loop without a recognised counter")
        return I.havoc_loop(st)
    if decide_ge0(n) is not True: n = fn("max2", n, ZERO)
    i2 = TM._index(n, "i")
    L2 = Loop(I, n, i2, st.body)
    if L2.go() is None:
        I.unknown("break or return in while"); return I.havoc_loop(st)
    out = L2.finish()
    return out
from fractions import Fraction
F1 = Fraction(1)
