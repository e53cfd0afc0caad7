"""Gated abstract interpreter over Python syntax trees: builds value-graph terms for whole functions.

Both sides of every undecided branch are analysed and merged with gates (no path enumeration), loops over
symbolic ranges are summarised by solving their recurrences, calls are inlined through the resolved program.
Nothing of the analysed program is executed.
"""
import sys
import ast, os, itertools
from fractions import Fraction as F
from terms import *
import terms as TM
from values import *
from values import _Undef

class Dead(Exception):
    """the current statement cannot complete normally"""
class AnalysisError(Exception): pass
class Unsupported(Exception): pass

class Ab:
    """abrupt outcome"""
    __slots__ = ("kind", "val", "S", "loc")
    def __init__(s, kind, val, S, loc=None): s.kind, s.val, s.S, s.loc = kind, val, S, loc
class Out:
    __slots__ = ("normal", "ab")
    def __init__(s, normal=None, ab=()): s.normal, s.ab = normal, list(ab)

EXC_PARENT = {"IOError": "OSError", "OSError": "Exception", "ValueError": "Exception", "TypeError": "Exception",
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "StopIteration": "Exception", "AssertionError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError",
    "LinAlgError": "ValueError", "Exception": "BaseException", "KeyboardInterrupt": "BaseException",
    "UserWarning": "Warning", "RuntimeWarning": "Warning", "DeprecationWarning": "Warning", "FutureWarning": "Warning", "Warning": "Exception", "OpaqueError": "BaseException"}
EXC_ALIAS = {"IOError": "OSError", "EnvironmentError": "OSError"}
BUILTIN_EXC = set(EXC_PARENT) | {"BaseException"}
TYPES = {"list", "dict", "tuple", "bool", "float", "int", "str", "set", "object", "bytes", "complex", "frozenset", "slice"}

def exc_names(v):
    if isinstance(v, Exc):
        if v.cls is not None: return exc_chain_cls(v.cls)
        return exc_chain(v.name)
    return ["BaseException"]
def exc_chain(n):
    out = []
    while n:
        out.append(EXC_ALIAS.get(n, n)); n = EXC_PARENT.get(EXC_ALIAS.get(n, n))
    return out
def exc_chain_cls(c):
    out = [c.name]
    for b in c.bases:
        out += exc_chain_cls(b) if isinstance(b, Cls) else exc_chain(getattr(b, "name", "BaseException"))
    return out

NDATTR = frozenset("""T all any argmax argmin argpartition argsort as_integer_ratio astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data device diagonal
dot dtype dump dumps fill flags flat flatten fromhex getfield hex imag is_integer item itemset itemsize mT max mean min nbytes ndim nonzero partition prod ptp put ravel real repeat reshape resize
round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist tostring trace transpose var view newbyteorder""".split())
MAATTR = frozenset("anom baseclass compressed count fill_value filled get_fill_value harden_mask hardmask ids iscontiguous mask product recordmask set_fill_value sharedmask shrink_mask soften_mask toflex torecords unshare_mask".split())
def has_attribute(o, a):
    """the real object may have this attribute although the analysis has no model of it"""
    if a.startswith("__") and a.endswith("__"): return not isinstance(o, (Obj, Cls, Mod)) and a not in ("__len__", "__iter__", "__getitem__", "__call__", "__dict__")
    if isinstance(o, Arr): return a in NDATTR or a in MAATTR
    if isinstance(o, T): return a in NDATTR or o.sort == "O" or a in ("numerator", "denominator", "bit_length")
    if isinstance(o, (str, SStr)): return hasattr(str, a)
    if isinstance(o, bool): return a in NDATTR
    if isinstance(o, Lst): return hasattr(list, a) or o.kind != "list" and (hasattr(set, a) or hasattr(tuple, a))
    if isinstance(o, (Dct, ObjDict)): return hasattr(dict, a)
    if isinstance(o, tuple): return hasattr(tuple, a)
    if isinstance(o, (Exc, Func, Bound, TypeVal, Slice, SymRange)): return a in ("errno", "strerror", "with_traceback", "add_note") or isinstance(o, (TypeVal, Func, Bound))
    if isinstance(o, Model): return o.name in ("flat", "dtype", "file", "dictview", "reversed", "array-api")
    return False
class Interp:
    def __init__(self, root, package="pykrige", missing=(), read=None, flags=None):
        self.root, self.package = root, package
        self.missing = set(missing)         # importable names that are absent in this configuration
        self.mods = {}; self.asts = {}
        self.S = State({}, {}, ())
        self.events = []; self.mute = 0
        self.stack = []                     # call stack of (func name, module, call node)
        self.loops = []                     # enclosing symbolic loops (index, size)
        self.node = None
        self.pend = []                      # abrupt outcomes raised inside expressions
        self.inputs = {}                    # buffer/oid -> input name
        self.globals_ro = True
        self.flags = dict(flags or {})
        self.functions = set(); self.callsites = 0
        self.unsup = []                     # reasons precision was lost
        self.fresh_raise = 0
        self.steps = 0
        self.loop_depth_mod = []
        import nplib
        self.np = nplib.NP(self)

    # ---------------------------------------------------------------- locations, events
    def loc(self, node=None):
        node = node or self.node
        fr = self.stack[-1] if self.stack else None
        return dict(file=fr[1].path if fr and fr[1] else "?", func=fr[0] if fr else "<module>", line=getattr(node, "lineno", 0))
    def event(self, kind, **kw):
        if self.mute: return
        e = dict(kind=kind, loc=self.loc(), facts=self.S.facts, loops=tuple(self.loops), **kw)
        e["stack"] = [(f[0], getattr(f[2], "lineno", 0)) for f in self.stack]
        self.events.append(e)
    def unknown(self, why):
        if not self.mute:
            l = self.loc()
            self.unsup.append("%s at %s:%s (%s)" % (why, os.path.basename(l["file"]), l["line"], l["func"]))
        return Unk(why)

    # ---------------------------------------------------------------- modules
    def modpath(self, name):
        p = os.path.join(self.root, *name.split("."))
        for c in (p + ".py", os.path.join(p, "__init__.py"), p + ".pyx"):
            if os.path.isfile(c): return c
    def load(self, name):
        if name in self.mods: return self.mods[name]
        if name in self.missing: raise self.raise_(self.flags.get("missing_as", "ModuleNotFoundError"), name)
        path = self.modpath(name)
        if path is None: return None
        m = Mod(name, path); self.mods[name] = m
        if path.endswith(".pyx"):
            import pyx
            tree = pyx.load(path)
        else:
            with open(path, encoding="utf-8") as f: tree = ast.parse(f.read(), path)
        self.asts[name] = tree
        self.S.heap[m.oid] = {"__name__": name, "__file__": path}
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef): n._mod = m
        sv = (self.S.env, self.stack, self.S.facts, self.loops)
        env = ModEnv(self, m)
        self.S.env = {"__mod__": m}
        self.stack = self.stack + [("<module>", m, None)]
        self.loops = []
        try:
            out = self.block(tree.body, modlevel=m)
        finally:
            self.stack = sv[1]; self.loops = sv[3]
        if out.normal is None:
            self.mods.pop(name)
            a = out.ab[-1]
            self.S = a.S; self.S.env = sv[0]
            d = self.reraise(a.val)
            if a.loc: self.pend[-1].loc = a.loc
            raise d
        self.S = out.normal
        self.S.env = sv[0]; self.setfacts(sv[2])
        return m
    def modget(self, m, k):
        return self.S.heap[m.oid].get(k, UNDEF)

    # ---------------------------------------------------------------- state handling
    def setfacts(self, f):
        self.S.facts = f; set_facts(f)
    def assume(self, *conds):
        self.setfacts(add_facts(self.S.facts, conds))
    def enter(self, S):
        self.S = S; set_facts(S.facts)
    def pathcond(self, S, base):
        b = set(base)
        return and0([f for f in S.facts if f not in b])
    def merge_states(self, c, A, B, base):
        """A holds under c, B otherwise"""
        if A is None: return B
        if B is None: return A
        common = tuple(f for f in A.facts if f in B.facts)
        ea = [f for f in A.facts if f not in common and f is not c]
        eb = [f for f in B.facts if f not in common]
        nc = TM._raw_not(c) if c.op in ("cmp", "not", "b") else None
        S = State({}, {}, common)
        set_facts(common)
        ctx = MergeCtx(c, A, B)
        for k in set(A.env) | set(B.env):
            a, b = A.env.get(k, UNDEF), B.env.get(k, UNDEF)
            S.env[k] = a if a is b else self.merge_val(c, a, b, A, B, S)
        for o in set(A.heap) | set(B.heap):
            if o in A.heap and o in B.heap:
                a, b = A.heap[o], B.heap[o]
                S.heap[o] = a if a is b else self.merge_content(c, a, b, A, B, S)
            else: S.heap[o] = A.heap[o] if o in A.heap else B.heap[o]
        with nofacts():
            if ea: S.facts = add_facts(S.facts, [or_(not_(c), and0(ea))]) if len(ea) <= 4 else S.facts
            eb2 = [f for f in eb if f is not nc and f is not not_(c)]
            if eb2 and len(eb2) <= 4: S.facts = add_facts(S.facts, [or_(c, and0(eb2))])
        return S
    def merge_content(self, c, a, b, A, B, S):
        if isinstance(a, Content) and isinstance(b, Content):
            r = self.merge_arrays(c, a, b)
            return r if r is not None else Content(a.shape, lambda ix: unk("merged arrays of different shape"), a.dtype)
        if isinstance(a, dict) and isinstance(b, dict):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                x, y = a.get(k, UNDEF), b.get(k, UNDEF)
                out[k] = x if x is y else self.merge_val(c, x, y, A, B, S)
            return out
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b):
                return tuple(x if x is y else self.merge_val(c, x, y, A, B, S) for x, y in zip(a, b))
            return ("?choice", c, a, b)
        if isinstance(a, SymL) and isinstance(b, SymL):
            return SymL(ite(c, a.n, b.n), lambda k: self.merge_val(c, a.f(k), b.f(k), A, B, S))
        return ("?choice", c, a, b)
    def merge_arrays(self, c, a, b):
        if len(a.shape) != len(b.shape): return None
        shape = []
        for x, y in zip(a.shape, b.shape):
            if x is y: shape.append(x); continue
            if isinstance(x, FDim) or isinstance(y, FDim):
                if isinstance(x, FDim) and isinstance(y, FDim) and x.same(y): shape.append(x); continue
                return None
            shape.append(ite(c, x, y))
        def f(ix):
            return gate(c, lambda: a.at(ix), lambda: b.at(ix))
        m = None
        if a.m or b.m: m = lambda ix: gate(c, lambda: a.mask_at(ix), lambda: b.mask_at(ix))
        return Content(shape, f, a.dtype if a.dtype == b.dtype else "any" if "any" in (a.dtype, b.dtype) else "float", m, a.alias + b.alias)
    def merge_val(self, c, a, b, A=None, B=None, S=None):
        """value a under c, b otherwise"""
        if a is b: return a
        if c is TRUE: return a
        if c is FALSE: return b
        if same_const(a, b): return a
        if isinstance(a, bool) and isinstance(b, bool): return ite(c, num(a), num(b))
        if isinstance(a, bool) and isinstance(b, T) and b.sort == "B": a = num(a)
        if isinstance(b, bool) and isinstance(a, T) and a.sort == "B": b = num(b)
        if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
        if isinstance(a, Unk): return a
        if isinstance(b, Unk): return b
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            r = tuple(self.merge_val(c, x, y, A, B, S) for x, y in zip(a, b))
            return NTup(r, a.cls) if isinstance(a, NTup) and isinstance(b, NTup) and a.cls is b.cls else r
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
            if a.buf == b.buf and a.vmap == b.vmap and a.shape == b.shape: return a
            sa = self.snap(a, A or self.S); sb = self.snap(b, B or self.S)
            ca = Content(sa.shape, sa.at, sa.dtype, sa.m, (a.buf,) + (A or self.S).heap[a.buf].alias)
            cb = Content(sb.shape, sb.at, sb.dtype, sb.m, (b.buf,) + (B or self.S).heap[b.buf].alias)
            r = self.merge_arrays(c, ca, cb)
            if r is not None:
                o = new_oid(); (S or self.S).heap[o] = r
                return Arr(o, r.shape)
        if isinstance(a, Lst) and isinstance(b, Lst) and a.kind == b.kind and A is not None:
            x, y = A.heap.get(a.oid), B.heap.get(b.oid)
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x[:1] != ("?choice",) and a.kind != "set":
                n = Lst(a.kind); S.heap[n.oid] = tuple(self.merge_val(c, p, q, A, B, S) for p, q in zip(x, y))
                return n
        if isinstance(a, Bound) and isinstance(b, Bound) and a.f is b.f and a.self_ is b.self_: return a
        if isinstance(a, ast.AST): return a
        return Choice(c, a, b)

    def resolve(self, v):
        """drop gates decided by the current facts"""
        while isinstance(v, Choice):
            c = simp_bool(v.c)
            if c is TRUE: v = v.a
            elif c is FALSE: v = v.b
            elif isinstance(v.a, _Undef):
                v = v.b
            elif isinstance(v.b, _Undef):
                v = v.a
            else: return v
        return v
    def under(self, c, f, g):
        """value of f() where c holds and g() where not, merging effects"""
        c = simp_bool(c)
        if c is TRUE: return f()
        if c is FALSE: return g()
        S0 = self.S
        SA, SB = S0.copy(), S0.copy()
        base = S0.facts
        ra = rb = None; da = db = False
        self.enter(SA); self.assume(c)
        try: ra = f()
        except Dead: da = True
        SA = self.S
        self.enter(SB); self.assume(not_(c))
        try: rb = g()
        except Dead: db = True
        SB = self.S
        if da and db: raise Dead()
        if da: self.enter(SB); return rb
        if db: self.enter(SA); return ra
        S = self.merge_states(c, SA, SB, base)
        self.enter(S)
        return self.merge_val(c, ra, rb, SA, SB, S)
    def dist(self, v, f):
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.under(v.c, lambda: self.dist(v.a, f), lambda: self.dist(v.b, f))
        return f(v)

    # ---------------------------------------------------------------- raising
    def raise_(self, name, *args):
        return self.reraise(Exc(name, args))
    def reraise(self, exc):
        self.pend.append(Ab("raise", exc, self.S.copy(), self.loc()))
        return Dead()
    def may_raise(self, name, cond, *args):
        """raise under cond, continue under its negation"""
        cond = simp_bool(cond)
        if cond is FALSE: return
        if cond is TRUE: raise self.raise_(name, *args)
        S = self.S.copy()
        S.facts = add_facts(S.facts, [cond])
        self.pend.append(Ab("raise", Exc(name, args), S, self.loc()))
        self.assume(not_(cond))
    def opaque(self, what):
        """an external call that may raise (only modelled when asked for)"""
        if self.flags.get("implicit_raise") and not self.loops:
            self.fresh_raise += 1
            c = sym("raises:%s#%d" % (what, self.fresh_raise), "B")
            self.may_raise("OpaqueError", c, what)

    # ---------------------------------------------------------------- statements
    def block(self, stmts, modlevel=None):
        ab = []
        for k, st in enumerate(stmts):
            out = self.stmt(st)
            ab += out.ab
            if out.normal is None: return Out(None, ab)
            self.enter(out.normal)
        return Out(self.S, ab)
    def stmt(self, st):
        self.steps += 1
        self.node = st
        meth = getattr(self, "st_" + type(st).__name__, None)
        pend0 = self.pend; self.pend = []
        try:
            if meth is None:
                self.unknown("statement " + type(st).__name__)
                r = Out(self.S)
            else:
                try:
                    r = meth(st)
                    if r is None: r = Out(self.S)
                except Dead:
                    r = Out(None)
            r.ab = self.pend + r.ab
            return r
        finally:
            self.pend = pend0

    def st_Expr(self, st): self.ev(st.value)
    def st_Pass(self, st): pass
    def st_Global(self, st): self.S.env["__globals__"] = self.S.env.get("__globals__", ()) + tuple(st.names)
    def st_Nonlocal(self, st): self.S.env["__nonlocals__"] = self.S.env.get("__nonlocals__", ()) + tuple(st.names)
    def st_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets: self.assign(t, v)
    def st_AnnAssign(self, st):
        if st.value is not None: self.assign(st.target, self.ev(st.value))
    def st_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            v = self.ev(st.value)
            self.assign(t, self.inplace(st.op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value)
            self.setattr(o, t.attr, self.inplace(st.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value); ix = self.ev(t.slice)
            cur = self.getitem(o, ix)
            v = self.ev(st.value)
            self.setitem(o, ix, self.binop(st.op, cur, v))
    def inplace(self, op, cur, v):
        cur = self.resolve(cur)
        if isinstance(cur, Choice):
            return self.under(cur.c, lambda: self.inplace(op, cur.a, v), lambda: self.inplace(op, cur.b, v))
        if isinstance(cur, Lst) and cur.kind == "list" and isinstance(op, ast.Add):
            self.list_extend(cur, v); return cur
        r = self.binop(op, cur, v)
        if isinstance(cur, Arr):
            self.np.store_all(cur, r)
            return cur
        return r
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.S.env.get("__globals__", ()):
                self.event("global-write", name=t.id)
                self.modset(self.S.env["__mod__"], t.id, v)
            else: self.setlocal(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value); ix = self.ev(t.slice)
            self.setitem(o, ix, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.items(v)
                if items is None: 
                    for e in t.elts: self.assign(e.value if isinstance(e, ast.Starred) else e, self.unknown("starred unpack"))
                    return
                k = star[0]; after = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], items[:k]): self.assign(e, x)
                self.assign(t.elts[k].value, self.newlist(items[k:len(items) - after]))
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]): self.assign(e, x)
                return
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items): self.assign(e, x)
        elif isinstance(t, ast.Starred): self.assign(t.value, v)
    def setlocal(self, k, v):
        env = self.S.env
        if self.cur_is_module():
            self.modset(env["__mod__"], k, v)
        env[k] = v
    def cur_is_module(self):
        return bool(self.stack) and self.stack[-1][0] == "<module>"
    def modset(self, m, k, v):
        d = dict(self.S.heap[m.oid]); d[k] = v; self.S.heap[m.oid] = d
    def unpack(self, v, n):
        v = self.resolve(v)
        if isinstance(v, Choice):
            a = b = None
            r = self.under(v.c, lambda: tuple(self.unpack(v.a, n)), lambda: tuple(self.unpack(v.b, n)))
            return r if isinstance(r, tuple) else [self.getitem(r, num(k)) for k in range(n)]
        if isinstance(v, Arr):
            if v.ndim == 0: raise self.raise_("TypeError", "cannot unpack")
            d = dsize(v.shape[0])
            if is_num(d) and numval(d) != n: raise self.raise_("ValueError", "unpack count")
            return [self.getitem(v, num(k)) for k in range(n)]
        items = self.items(v)
        if items is None: return [self.unknown("unpack of %r" % (v,)) for _ in range(n)]
        if len(items) != n: raise self.raise_("ValueError", "unpack count")
        return items
    def st_Return(self, st):
        v = self.ev(st.value) if st.value is not None else None
        return Out(None, [Ab("ret", v, self.S.copy(), self.loc())])
    def st_Raise(self, st):
        if st.exc is None:
            exc = self.S.env.get("__exc__", Exc("RuntimeError"))
        else:
            v = self.resolve(self.ev(st.exc))
            if isinstance(v, Choice): v = v.a
            exc = v if isinstance(v, Exc) else self.make_exc(v)
        self.event("raise", exc=exc)
        return Out(None, [Ab("raise", exc, self.S.copy(), self.loc())])
    def make_exc(self, v):
        if isinstance(v, TypeVal): return Exc(v.name)
        if isinstance(v, Cls): return Exc(v.name, (), v)
        if isinstance(v, Lib): return Exc(v.name.split(".")[-1])
        return Exc("Exception")
    def st_Assert(self, st):
        c = self.truth(self.ev(st.test))
        self.may_raise("AssertionError", not_(tb(c)))
    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name): self.S.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.resolve(self.ev(t.value))
                if isinstance(o, Obj):
                    d = dict(self.S.heap[o.oid]); d.pop(t.attr, None); self.S.heap[o.oid] = d
            elif isinstance(t, ast.Subscript):
                o = self.resolve(self.ev(t.value)); k = self.resolve(self.ev(t.slice))
                if isinstance(o, Dct) and is_key(k):
                    d = dict(self.S.heap[o.oid]); d.pop(key(k), None); self.S.heap[o.oid] = d
                else: self.unknown("del item")
    def st_If(self, st):
        c = self.truth(self.ev(st.test))
        if c is True: return self.block(st.body)
        if c is False: return self.block(st.orelse)
        return self.branch(c, lambda: self.block(st.body), lambda: self.block(st.orelse))
    def st_Match(self, st):
        v = self.resolve(self.ev(st.subject))
        return self.match_cases(v, st.cases)
    def match_cases(self, v, cases):
        if not cases: return Out(self.S)
        if isinstance(v, Choice): return self.branch(simp_bool(v.c), lambda: self.match_cases(self.resolve(v.a), cases), lambda: self.match_cases(self.resolve(v.b), cases))
        cs = cases[0]; caps = []
        c = self.match_pat(cs.pattern, v, caps)
        if c is False: return self.match_cases(v, cases[1:])
        def body():
            for k, x in caps: self.setlocal(k, x)
            if cs.guard is not None:
                g = self.truth(self.ev(cs.guard))
                if g is True: return self.block(cs.body)
                if g is False: return self.match_cases(v, cases[1:])
                return self.branch(g, lambda: self.block(cs.body), lambda: self.match_cases(v, cases[1:]))
            return self.block(cs.body)
        if c is True: return body()
        return self.branch(c, body, lambda: self.match_cases(v, cases[1:]))
    def match_pat(self, p, v, caps):
        """True, False or a term: does v match the pattern (captures are appended)"""
        if isinstance(p, ast.MatchValue): return self.truth(self.compare(ast.Eq(), v, self.ev(p.value)))
        if isinstance(p, ast.MatchSingleton): return v is None if p.value is None else self.truth(self.compare(ast.Eq(), v, p.value))
        if isinstance(p, ast.MatchAs):
            c = True if p.pattern is None else self.match_pat(p.pattern, v, caps)
            if p.name is not None: caps.append((p.name, v))
            return c
        conj = None
        if isinstance(p, ast.MatchOr): conj = False; parts = [(q, v) for q in p.patterns]
        elif isinstance(p, ast.MatchSequence):
            if isinstance(v, (str, SStr, T, Dct)) or v is None or isinstance(v, Lst) and v.kind != "list": return False
            it = self.items(v)
            if it is None or any(isinstance(q, ast.MatchStar) for q in p.patterns): return tb(unkb("sequence pattern"))
            if len(it) != len(p.patterns): return False
            conj = True; parts = list(zip(p.patterns, it))
        if conj is None:
            self.unknown("pattern " + type(p).__name__); return tb(unkb("pattern"))
        cs = [self.match_pat(q, x, caps) for q, x in parts]
        if any(c is (not conj) for c in cs): return not conj
        cs = [c for c in cs if c is not conj]
        if not cs: return conj
        return simp_bool(and_(*cs) if conj else or_(*cs))
    def branch(self, c, f, g):
        S0 = self.S; base = S0.facts
        SA, SB = S0.copy(), S0.copy()
        self.enter(SA); self.assume(c); oa = f()
        self.enter(SB); self.assume(not_(c)); ob = g()
        n = self.merge_states(c, oa.normal, ob.normal, base)
        if n is not None: self.enter(n)
        return Out(n, oa.ab + ob.ab)
    def st_With(self, st):
        vs = []
        try:
            for it in st.items:
                v = self.ev(it.context_expr)
                r = self.np.with_enter(v)
                vs.append(v)
                if it.optional_vars is not None: self.assign(it.optional_vars, r)
        except Dead:
            self.np.with_exit(Out(None, self.pend), vs)
            raise
        out = self.block(st.body)
        if out.normal is not None: self.enter(out.normal)
        self.np.with_exit(out, vs)
        return out
    def st_Try(self, st):
        base = self.S.facts
        out = self.block(st.body)
        res = []; normals = []
        if out.normal is not None:
            self.enter(out.normal)
            o2 = self.block(st.orelse) if st.orelse else Out(self.S)
            res += o2.ab
            if o2.normal is not None: normals.append((None, o2.normal))
        for a in out.ab:
            if a.kind != "raise": res.append(a); continue
            chain = exc_names(a.val)
            done = False
            for h in st.handlers:
                self.enter(a.S.copy())
                if h.type is None: hit = True
                else:
                    hv = self.resolve(self.ev(h.type))
                    hs = self.items(hv) if isinstance(hv, tuple) else [hv]
                    names = [EXC_ALIAS.get(getattr(x, "name", "?").split(".")[-1], getattr(x, "name", "?").split(".")[-1]) for x in hs]
                    hit = any(n in chain for n in names)
                if hit:
                    old = self.S.env.get("__exc__")
                    self.S.env["__exc__"] = a.val
                    if h.name: self.S.env[h.name] = a.val
                    oh = self.block(h.body)
                    for x in oh.ab:
                        res.append(x)
                    if oh.normal is not None:
                        normals.append((self.pathcond(a.S, base), oh.normal))
                    done = True
                    break
            if not done: res.append(a)
        n = None
        if normals:
            n = normals[0][1] if normals[0][0] is None else None
            start = 1 if normals[0][0] is None else 0
            for c, S in normals[start:]:
                if n is None: n = S
                else: n = self.merge_states(c, S, n, base)
        if st.finalbody:
            ab2 = []
            for a in res:
                self.enter(a.S.copy())
                of = self.block(st.finalbody)
                ab2 += of.ab
                if of.normal is not None: ab2.append(Ab(a.kind, a.val, of.normal, a.loc))
            res = ab2
            if n is not None:
                self.enter(n)
                of = self.block(st.finalbody)
                res += of.ab; n = of.normal
        if n is not None: self.enter(n)
        return Out(n, res)
    def st_FunctionDef(self, st):
        f = self.mkfunc(st, st.name, st.args)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.ev(d)
            v = self.call(dv, [v], {}, d)
        self.setlocal(st.name, v)
    def mkfunc(self, node, name, args, lang="py"):
        defaults = [self.ev(d) for d in args.defaults]
        kwd = {a.arg: self.ev(d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None}
        m = self.S.env.get("__mod__")
        cells = None if self.cur_is_module() else self.S.env
        return Func(node, m, name, cells, defaults, kwd, lang=getattr(node, "_lang", lang))
    def st_ClassDef(self, st):
        bases = [self.resolve(self.ev(b)) for b in st.bases]
        S = self.S; old = S.env
        S.env = dict(old); S.env["__class_body__"] = True
        self.stack = self.stack + [("<class %s>" % st.name, self.stack[-1][1] if self.stack else None, st)]
        keep = set(S.env)
        out = self.block(st.body)
        self.stack = self.stack[:-1]
        self.enter(out.normal)
        attrs = {k: v for k, v in self.S.env.items() if k not in old or old.get(k) is not v}
        attrs.pop("__class_body__", None)
        self.S.env = old
        c = Cls(st.name, self.S.env.get("__mod__"), attrs, bases, st)
        for v in attrs.values():
            if isinstance(v, Func): v.cls = c
        ann = [x.target.id for x in st.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        if any(isinstance(b, Lib) and b.name == "typing.NamedTuple" for b in bases):
            c.bases = [b for b in bases if not isinstance(b, Lib)]
            attrs["__nt_fields__"] = tuple(ann)
            attrs["__nt_defaults__"] = {k: attrs.pop(k) for k in ann if k in attrs}
        r = c
        for d in reversed(st.decorator_list):
            dv = self.resolve(self.ev(d))
            if isinstance(dv, Lib) and dv.name == "dataclasses.dataclass" or isinstance(dv, Model) and dv.name == "dataclass":
                old = [f for b in bases if isinstance(b, Cls) for f in (b.lookup("__dc_fields__") or ())]
                new = [(k, attrs.get(k, UNDEF)) for k in ann]
                attrs["__dc_fields__"] = tuple(f for f in old if f[0] not in ann) + tuple(new)
                for k in ann:
                    v = attrs.get(k)
                    if isinstance(v, Model) and v.name == "field": attrs.pop(k)
            elif isinstance(dv, Lib) and dv.name == "functools.total_ordering": pass
            else: r = self.call(dv, [r], {}, d)
        self.setlocal(st.name, r)
    def st_Import(self, st):
        for a in st.names:
            m = self.do_import(a.name, 0)
            if a.asname: self.setlocal(a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.setlocal(top, self.do_import(top, 0))
    def st_ImportFrom(self, st):
        base = st.module or ""
        if st.level:
            m = self.S.env.get("__mod__")
            pk = m.name.split(".")
            if not m.path.endswith("__init__.py"): pk = pk[:-1]
            pk = pk[:len(pk) - (st.level - 1)] if st.level > 1 else pk
            base = ".".join(pk + ([base] if base else []))
        mod = self.do_import(base, 0)
        for a in st.names:
            if a.name == "*":
                if isinstance(mod, Mod):
                    for k, v in self.S.heap[mod.oid].items():
                        if not k.startswith("_"): self.setlocal(k, v)
                continue
            self.setlocal(a.asname or a.name, self.import_attr(mod, base, a.name))
    def import_attr(self, mod, base, name):
        if isinstance(mod, Mod):
            v = self.modget(mod, name)
            if not isinstance(v, _Undef): return v
            sub = self.load(base + "." + name)
            if sub is not None: return sub
            raise self.raise_("ImportError", base + "." + name)
        return self.np.lib_attr(mod, name)
    def do_import(self, name, _):
        top = name.split(".")[0]
        if top == self.package:
            parts = name.split(".")
            for k in range(1, len(parts) + 1):
                n = ".".join(parts[:k])
                self.event("import", name=n)
                m = self.load(n)
                if m is None: raise self.raise_("ImportError", n)
            return m
        self.event("import", name=name)
        only = self.flags.get("only")
        if name in self.missing or top in self.missing or only is not None and top not in only and top not in sys.stdlib_module_names:
            raise self.raise_(self.flags.get("missing_as", "ModuleNotFoundError"), name)
        return Lib(self.np.canon(name))

    # ---------------------------------------------------------------- loops
    def st_For(self, st):
        it = self.ev(st.iter)
        return self.for_over(st, it)
    def for_over(self, st, it):
        it = self.resolve(it)
        if isinstance(it, Choice):
            return self.branch(simp_bool(it.c), lambda: self.for_over(st, it.a), lambda: self.for_over(st, it.b))
        items = self.items(it)
        if isinstance(it, Lst) and it.kind == "iter" and items is not None: self.S.heap[it.oid] = ()
        if items is not None and len(items) <= 400: return self.unroll(st, items)
        seq = self.symseq(it)
        if seq is None:
            self.unknown("loop over %r" % (it,))
            return self.havoc_loop(st)
        n, val, filt = seq
        from loops import symbolic_for
        return symbolic_for(self, st, n, val, filt)
    def symseq(self, it):
        """(n, value at k, filter or None) of an iterable of symbolic length"""
        it = self.resolve(it)
        if isinstance(it, SymRange):
            lo, hi, stp = it.lo, it.hi, it.step
            if stp == 1: return sub(hi, lo), (lambda k: add(lo, k)), None
            if stp == -1: return sub(lo, hi), (lambda k: sub(lo, k)), None
            return None
        if isinstance(it, Lst):
            c = self.S.heap[it.oid]
            if isinstance(c, SymL): return c.n, c.f, None
            return None
        if isinstance(it, Arr) and it.ndim >= 1:
            d = it.shape[0]
            if isinstance(d, FDim):
                if len(d.src) != 1: return None
                s = self.snap(it)
                if it.ndim == 1: return d.src[0], (lambda k: s.at(((k,),))), (lambda k: d.pred((k,)))
                return None
            return d, (lambda k: self.getitem(it, k)), None
        if isinstance(it, Model) and it.name == "enumerate":
            s = self.symseq(it.info["it"])
            if s is None: return None
            n, f, filt = s
            if filt is not None: return None
            return n, (lambda k: (add(it.info["start"], k), f(k))), None
        if isinstance(it, Model) and it.name == "zip":
            ss = [self.symseq(x) for x in it.info["its"]]
            if any(s is None or s[2] is not None for s in ss): return None
            n = ss[0][0]
            for s in ss[1:]:
                if s[0] is not n and dim_eq(s[0], n) is not True:
                    if decide_ge0(sub(n, s[0])) is True: n = s[0]
                    elif decide_ge0(sub(s[0], n)) is not True: return None
            return n, (lambda k: tuple(s[1](k) for s in ss)), None
        if isinstance(it, Model) and it.name == "reversed":
            s = self.symseq(it.info["it"])
            if s is None or s[2] is not None: return None
            n, f, _ = s
            return n, (lambda k: f(sub(sub(n, ONE), k))), None
        return None
    def unroll(self, st, items):
        ab = []; exits = []
        base = self.S.facts
        alive = True
        for v in items:
            self.assign(st.target, v)
            out = self.block(st.body)
            conts = []
            for a in out.ab:
                if a.kind == "continue": conts.append(a)
                elif a.kind == "break": exits.append(a)
                else: ab.append(a)
            n = out.normal
            for a in conts:
                n = self.merge_states(self.pathcond(a.S, base), a.S, n, base) if n is not None else a.S
            if n is None: alive = False; break
            self.enter(n)
        n = None
        if alive:
            o = self.block(st.orelse) if st.orelse else Out(self.S)
            ab += o.ab; n = o.normal
        for a in exits:
            n = self.merge_states(self.pathcond(a.S, base), a.S, n, base) if n is not None else a.S
        if n is not None: self.enter(n)
        return Out(n, ab)
    def st_Break(self, st): return Out(None, [Ab("break", None, self.S.copy())])
    def st_Continue(self, st): return Out(None, [Ab("continue", None, self.S.copy())])
    def st_While(self, st):
        # unroll while the test is decided; otherwise look for a counting loop
        ab = []
        for it in range(200):
            c = self.truth(self.ev(st.test))
            if c is False:
                o = self.block(st.orelse) if st.orelse else Out(self.S)
                return Out(o.normal, ab + o.ab)
            if c is not True:
                from loops import symbolic_while
                o = symbolic_while(self, st)
                return Out(o.normal, ab + o.ab)
            if it > 60: break
            out = self.block(st.body)
            ab += [a for a in out.ab if a.kind in ("ret", "raise")]
            if any(a.kind in ("break", "continue") for a in out.ab) or out.normal is None:
                if all(a.kind == "break" for a in out.ab if a.kind in ("break", "continue")) and out.normal is None and any(a.kind == "break" for a in out.ab):
                    bs = [a for a in out.ab if a.kind == "break"]
                    n = bs[-1].S
                    for a in bs[:-1]: n = self.merge_states(self.pathcond(a.S, self.S.facts), a.S, n, ())
                    self.enter(n)
                    return Out(n, ab)
                if out.normal is None and not any(a.kind in ("break", "continue") for a in out.ab): return Out(None, ab)
                self.unknown("while loop with break")
                o = self.havoc_loop(st)
                return Out(o.normal, ab + o.ab)
            self.enter(out.normal)
        self.unknown("while loop")
        o = self.havoc_loop(st)
        return Out(o.normal, ab + o.ab)
    def havoc_loop(self, st):
        from loops import modified_names
        S = self.S
        self.mute += 1
        try:
            S2 = S.copy(); self.enter(S2)
            if isinstance(st, ast.For): 
                try: self.assign(st.target, Unk("loop"))
                except Dead: pass
            o = self.block(st.body)
        finally: self.mute -= 1
        self.enter(S)
        for e in [o.normal] + [a.S for a in o.ab]:
            if e is None: continue
            for k, v in e.env.items():
                if S.env.get(k, UNDEF) is not v: S.env[k] = Unk("loop")
            for k, v in e.heap.items():
                if k in S.heap and S.heap[k] is not v:
                    if isinstance(v, Content): S.heap[k] = Content(v.shape, lambda ix: unk("loop"), v.dtype)
                    elif isinstance(v, dict): S.heap[k] = {a: (S.heap[k].get(a, UNDEF) if S.heap[k].get(a, UNDEF) is b else Unk("loop")) for a, b in v.items()} if isinstance(S.heap[k], dict) else v
                    else: S.heap[k] = SymL(unk("loop"), lambda k: Unk("loop"))
        return Out(S, [a for a in o.ab if a.kind in ("raise",)])

    # ---------------------------------------------------------------- values
    def snap(self, a, S=None):
        S = S or self.S
        c = S.heap[a.buf]
        vm = a.vmap
        if vm is None: return Snap(a.shape, c.at, c.dtype, c.m, (a.buf,) + c.alias)
        m = None
        if c.m is not None: m = lambda ix: c.m(v2b(vm, ix))
        return Snap(a.shape, lambda ix: c.at(v2b(vm, ix)), c.dtype, m, (a.buf,) + c.alias)
    def newarr(self, shape, f, dtype="float", m=None, tag=None):
        o = new_oid()
        self.S.heap[o] = Content(shape, f, dtype, m)
        return Arr(o, shape, None, tag)
    def newlist(self, items, kind="list"):
        l = Lst(kind); self.S.heap[l.oid] = tuple(items); return l
    def newdict(self, d):
        x = Dct(); self.S.heap[x.oid] = dict(d); return x
    def items(self, v):
        """concrete list of items or None"""
        v = self.resolve(v)
        if isinstance(v, tuple): return list(v)
        if isinstance(v, str): return list(v)
        if isinstance(v, Lst):
            c = self.S.heap[v.oid]
            if isinstance(c, tuple) and c[:1] != ("?choice",):
                return list(c)[::-1] if v.kind == "set" and self.flags.get("set_order") == "reversed" else list(c)
            return None
        if isinstance(v, Dct): return [unkey(k) for k in self.S.heap[v.oid]]
        if isinstance(v, SymRange):
            n = sub(v.hi, v.lo) if v.step > 0 else sub(v.lo, v.hi)
            if is_num(n):
                k = int(numval(n)); st = abs(v.step)
                cnt = max(0, -(-k // st))
                return [add(v.lo, num(j * v.step)) for j in range(cnt)]
            return None
        if isinstance(v, Arr) and v.ndim >= 1:
            d = v.shape[0]
            if not isinstance(d, FDim) and is_num(d): return [self.getitem(v, num(k)) for k in range(int(numval(d)))]
            return None
        if isinstance(v, Model) and v.name == "file": return v.info["items"](self)
        if isinstance(v, Model) and v.name == "enumerate":
            i = self.items(v.info["it"])
            return None if i is None else [(add(v.info["start"], num(k)), x) for k, x in enumerate(i)]
        if isinstance(v, Model) and v.name == "zip":
            ii = [self.items(x) for x in v.info["its"]]
            return None if any(i is None for i in ii) else list(zip(*ii))
        if isinstance(v, Model) and v.name == "reversed":
            i = self.items(v.info["it"]); return None if i is None else i[::-1]
        if isinstance(v, Model) and v.name == "dictview":
            return v.info["items"]()
        return None
    def list_extend(self, l, v):
        it = self.items(v); c = self.S.heap[l.oid]
        if it is not None and isinstance(c, tuple) and c[:1] != ("?choice",):
            self.mutated(l)
            self.S.heap[l.oid] = c + tuple(it)
        else:
            self.unknown("list extend"); self.S.heap[l.oid] = SymL(unk("extend"), lambda k: Unk("extend"))
    def mutated(self, o, what="store"):
        """record an in-place change of an object the caller handed in"""
        ids = (o.buf,) + self.S.heap[o.buf].alias if isinstance(o, Arr) else (o.oid,)
        for i in ids:
            self.event("mutate", oid=i, what=what, input=self.inputs.get(i))

    def truth(self, v):
        """True/False or boolean term"""
        v = self.resolve(v)
        if v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, str): return bool(v)
        if isinstance(v, tuple): return bool(v)
        if isinstance(v, T):
            c = simp_bool(TM.truth(v))
            return c.a[0] if c.op == "b" else c
        if isinstance(v, Lst):
            c = self.S.heap[v.oid]
            if isinstance(c, SymL): return tbool(gt(c.n, ZERO))
            if c[:1] == ("?choice",): return tbool(unkb("list"))
            return bool(c)
        if isinstance(v, Dct): return bool(self.S.heap[v.oid])
        if isinstance(v, Choice):
            a, b = self.truth(v.a), self.truth(v.b)
            return tbool(simp_bool(ite(v.c, tb(a), tb(b))))
        if isinstance(v, Arr):
            s = self.snap(v)
            if all(not isinstance(d, FDim) and d is ONE for d in v.shape):
                return self.truth(s.at(tuple(ZERO for _ in v.shape)))
            if any(is_num(d) and numval(d) > 1 for d in v.shape if isinstance(d, T)): raise self.raise_("ValueError", "ambiguous truth value")
            self.unknown("truth of array")
            return tbool(unkb("truth of array"))
        if isinstance(v, Unk): return unkb(v.why)
        if isinstance(v, SStr): return True
        return True

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None: return self.unknown("expression " + type(e).__name__)
        old = self.node
        if hasattr(e, "lineno"): self.node = e
        try: return m(e)
        finally: self.node = old
    def ex_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)): return v
        if isinstance(v, (int, float)): return num(v)
        if v is Ellipsis: return ELL
        return self.unknown("constant")
    def ex_Name(self, e):
        return self.lookup(e.id)
    def lookup(self, k):
        env = self.S.env
        if k in env:
            v = self.resolve(env[k])
            if isinstance(v, _Undef): raise self.raise_("UnboundLocalError", k)
            if isinstance(v, Choice) and (isinstance(v.a, _Undef) or isinstance(v.b, _Undef)):
                return v.b if isinstance(v.a, _Undef) else v.a
            return v
        f = env.get("__func__")
        cells = env.get("__cells__")
        while cells is not None:
            if k in cells: return self.resolve(cells[k])
            cells = cells.get("__cells__")
        m = env.get("__mod__")
        if m is not None:
            v = self.modget(m, k)
            if not isinstance(v, _Undef): 
                self.note_global(m, k, v)
                return self.resolve(v)
        return self.builtin(k)
    def note_global(self, m, k, v): pass
    def builtin(self, k):
        if k in TYPES: return TypeVal(k)
        if k in BUILTIN_EXC or k.endswith("Warning") or k == "EnvironmentError": return TypeVal(k)
        if k in ("True", "False", "None"): return {"True": True, "False": False, "None": None}[k]
        if k == "__name__": return "pykrige"
        return Lib("builtins." + k)
    def ex_Yield(self, e):
        """generators are run to completion where they are called, their values collected in order"""
        g = self.S.env.get("__gen__")
        v = self.ev(e.value) if e.value is not None else None
        if not isinstance(g, Lst): return self.unknown("yield")
        self.call(self.getattr(g, "append"), [v], {}, e)
        return None
    def ex_YieldFrom(self, e):
        g = self.S.env.get("__gen__")
        it = self.items(self.ev(e.value))
        if not isinstance(g, Lst) or it is None: return self.unknown("yield from")
        for v in it: self.call(self.getattr(g, "append"), [v], {}, e)
        return None
    def ex_NamedExpr(self, e):
        v = self.ev(e.value); self.assign(e.target, v); return v
    def ex_Tuple(self, e): return tuple(self.evs(e.elts))
    def evs(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value); it = self.items(v)
                if it is None: out.append(self.unknown("starred")); continue
                out += it
            else: out.append(self.ev(x))
        return out
    def ex_List(self, e): return self.newlist(self.evs(e.elts))
    def ex_Set(self, e): return self.newlist(self.evs(e.elts), "set")
    def ex_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.resolve(self.ev(v))
                if isinstance(x, Dct): d.update(self.S.heap[x.oid])
                else: self.unknown("dict unpack")
                continue
            kk = self.resolve(self.ev(k)); vv = self.ev(v)
            if is_key(kk): d[key(kk)] = vv
            else: self.unknown("dict key")
        return self.newdict(d)
    def ex_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        if c is True: return self.ev(e.body)
        if c is False: return self.ev(e.orelse)
        return self.under(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))
    def ex_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        def go(k):
            v = self.ev(e.values[k])
            if k == len(e.values) - 1: return v
            c = self.truth(v)
            if c is True: return go(k + 1) if isand else v
            if c is False: return v if isand else go(k + 1)
            vv = self.resolve(v)
            boolish = isinstance(vv, (T, bool)) and (not isinstance(vv, T) or vv.sort == "B")
            if isand: return self.under(c, lambda: go(k + 1), lambda: False if boolish else v)
            return self.under(c, lambda: True if boolish else v, lambda: go(k + 1))
        return go(0)
    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        return self.unop(e.op, v)
    def unop(self, op, v):
        def f(v):
            if isinstance(op, ast.Not):
                c = self.truth(v)
                return (not c) if isinstance(c, bool) else not_(c)
            if isinstance(v, bool): v = num(int(v)) if not isinstance(op, ast.Invert) else v
            if isinstance(v, T):
                if isinstance(op, ast.USub): return neg(v)
                if isinstance(op, ast.UAdd): return v
                if isinstance(op, ast.Invert): return not_(v) if v.sort == "B" else sub(neg(v), ONE)
            if isinstance(v, Arr):
                if isinstance(op, ast.USub): return self.np.emap(lambda x: neg(x), v)
                if isinstance(op, ast.UAdd): return v
                if isinstance(op, ast.Invert): return self.np.emap(lambda x: not_(x) if x.sort == "B" else sub(neg(x), ONE), v)
            if isinstance(v, Unk): return v
            return self.unknown("unary op")
        return self.dist(v, f)
    def ex_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))
    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Choice): return self.under(a.c, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, Choice): return self.under(b.c, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        if isinstance(a, Unk): return a
        if isinstance(b, Unk): return b
        return self.np.binop(op, a, b)
    def ex_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            v = self.compare(op, left, right)
            res = v if res is None else self.np.logical_and(res, v)
            left = right
        return res
    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Choice): return self.under(a.c, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if isinstance(b, Choice): return self.under(b.c, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            if isinstance(op, ast.IsNot): r = (not r) if isinstance(r, bool) else not_(r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn): r = (not r) if isinstance(r, bool) else not_(r)
            return r
        if isinstance(a, Unk) or isinstance(b, Unk):
            return unkb("comparison")
        return self.np.compare(op, a, b)
    def identical(self, a, b):
        if a is None or b is None: 
            if isinstance(a, Unk) or isinstance(b, Unk): return unkb("is None")
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool): return a == b
            x = a if isinstance(b, bool) else b; k = b if isinstance(b, bool) else a
            if isinstance(x, T) and x.sort == "B": return tbool(simp_bool(x if k else not_(x)))
            return False
        if a is b: return True
        if isinstance(a, (TypeVal, Lib)): return a == b
        if isinstance(a, Arr) and isinstance(b, Arr): return a.buf == b.buf and a.vmap == b.vmap
        if isinstance(a, Bound) and isinstance(b, Bound): return a.f is b.f and a.self_ is b.self_
        if isinstance(a, (Lst, Dct, Obj)): return isinstance(b, type(a)) and a.oid == b.oid
        if isinstance(a, str) and isinstance(b, str): return a == b
        if isinstance(a, T) and isinstance(b, T): return tbool(eq(a, b))
        return False
    def equal(self, a, b):
        """== as bool/term for container membership"""
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, (Func, Model, Cls, Obj, Bound, Mod)) or isinstance(b, (Func, Model, Cls, Obj, Bound, Mod)):
            return self.identical(a, b)
        r = self.compare(ast.Eq(), a, b)
        return self.truth(r)
    def contains(self, cont, x):
        cont = self.resolve(cont); x = self.resolve(x)
        if isinstance(x, Choice): return self.truth(Choice(x.c, self.contains(cont, x.a), self.contains(cont, x.b)))
        if isinstance(cont, Dct):
            if is_key(x):
                v = self.S.heap[cont.oid].get(key(x), UNDEF)
                v = self.resolve(v)
                if isinstance(v, _Undef): return False
                if isinstance(v, Choice) and (isinstance(v.a, _Undef) or isinstance(v.b, _Undef)):
                    return tbool(simp_bool(v.c if isinstance(v.b, _Undef) else not_(v.c)))
                return True
            items = [unkey(k) for k in self.S.heap[cont.oid]]
        elif isinstance(cont, str) and isinstance(x, str): return x in cont
        elif isinstance(cont, SStr) and isinstance(x, str):
            import textio
            q = textio.pieces(self, cont)
            r = textio.contains(q, x) if q is not None else NotImplemented
            if r is NotImplemented: self.unknown("membership"); return unkb("membership")
            return r
        elif isinstance(cont, ObjDict): return is_key(x) and key(x) in self.S.heap[cont.obj.oid]
        else: items = self.items(cont)
        if items is None:
            self.unknown("membership")
            return unkb("membership")
        res = FALSE
        for i in items:
            r = self.equal(i, x)
            if r is True: return True
            res = or_(res, tb(r))
        return tbool(res)
    def ex_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                x = self.ev(v.value)
                spec = "".join(p.value for p in v.format_spec.values if isinstance(p, ast.Constant)) if v.format_spec else ""
                if v.conversion == 114: spec = "!r" + spec
                parts.append(self.np.format_value(x, spec))
        return self.np.sjoin(parts)
    def ex_Lambda(self, e):
        node = ast.FunctionDef("<lambda>", e.args, [ast.copy_location(ast.Return(e.body), e)], [])
        ast.copy_location(node, e)
        return self.mkfunc(node, "<lambda>", e.args)
    def ex_Starred(self, e): return self.ev(e.value)
    def ex_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)
    def ex_Subscript(self, e):
        return self.getitem(self.ev(e.value), self.ev(e.slice))
    def ex_Slice(self, e):
        return Slice(*[self.ev(x) if x is not None else None for x in (e.lower, e.upper, e.step)])
    def ex_ListComp(self, e): return self.comp(e, "list")
    def ex_GeneratorExp(self, e):
        r = self.comp(e, "list")
        if isinstance(r, Lst) and isinstance(self.S.heap.get(r.oid), tuple): r.kind = "iter"
        return r
    def ex_SetComp(self, e): return self.comp(e, "set")
    def ex_DictComp(self, e): return self.comp(e, "dict")
    def comp(self, e, kind):
        out = []; symb = []
        env = self.S.env
        saved = dict(env)
        def rec(k):
            if k == len(e.generators):
                if kind == "dict":
                    kk = self.resolve(self.ev(e.key)); out.append((kk, self.ev(e.value)))
                else: out.append(self.ev(e.elt))
                return True
            g = e.generators[k]
            it = self.ev(g.iter)
            items = self.items(it)
            if items is None:
                if len(e.generators) == 1 and kind == "list" and not g.ifs:
                    s = self.symseq(it)
                    if s is not None and s[2] is None:
                        n, val, _ = s
                        def elem(i):
                            old = self.S.env
                            self.S.env = dict(saved_ref)
                            try:
                                self.assign(g.target, val(i)); return self.ev(e.elt)
                            finally: self.S.env = old
                        i = TM._index(n, "c")
                        saved_ref = dict(self.S.env)
                        self.loops.append((i, n))
                        try: v = elem(i)
                        finally: self.loops.pop()
                        from loops import vsubst
                        symb.append(SymL(n, lambda k: vsubst(self, v, {i: k})))
                        return True
                return False
            for x in items:
                self.assign(g.target, x)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c))
                    if t is False: ok = False; break
                    if t is not True: return False
                if ok and rec(k + 1) is False: return False
            return True
        r = rec(0)
        env = self.S.env
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    if n.id in saved: env[n.id] = saved[n.id]
                    else: env.pop(n.id, None)
        if r is False: return self.unknown("comprehension")
        if symb:
            l = Lst("list"); self.S.heap[l.oid] = symb[0]; return l
        if kind == "dict":
            d = {}
            for k, v in out:
                if not is_key(k): return self.unknown("dict comprehension key")
                d[key(k)] = v
            return self.newdict(d)
        return self.newlist(out, kind)

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, a):
        o = self.resolve(o)
        if isinstance(o, Choice): return self.under(o.c, lambda: self.getattr(o.a, a), lambda: self.getattr(o.b, a))
        r = self.getattr0(o, a)
        if isinstance(r, _Undef) and has_attribute(o, a): return self.unknown("attribute %s of %s is not modelled" % (a, type(o).__name__))
        if isinstance(r, _Undef): raise self.raise_("AttributeError", a)
        return self.resolve(r)
    def getattr0(self, o, a):
        if isinstance(o, Unk): return o
        if isinstance(o, NTup):
            if a in o.fields: return o[o.fields.index(a)]
            if a == "_fields": return o.fields
            if a == "_asdict": return Model("_asdict", lambda it, args, kw, n: it.newdict({key(k): v for k, v in zip(o.fields, o)}))
            if a == "_replace": return Model("_replace", lambda it, args, kw, n: NTup([kw.get(k, v) for k, v in zip(o.fields, o)], o.cls))
            v = o.cls.lookup(a)
            if v is not None and not a.startswith("__"):
                if isinstance(v, Model) and v.name == "staticmethod": return v.info["f"]
                if isinstance(v, Model) and v.name == "property": return self.call(v.info["f"], [o], {}, self.node)
                return Bound(v, o) if isinstance(v, Func) else v
        if isinstance(o, Obj):
            d = self.S.heap[o.oid]
            if a == "__dict__": return ObjDict(o)
            if a == "__class__": return o.cls
            if a in d:
                v = self.resolve(d[a])
                return v
            c = o.cls
            if isinstance(c, Cls):
                v = c.lookup(a)
                if v is None and any(isinstance(b, Lib) for b in c.bases): return Model("method:" + a, lambda it, args, kw, n: it.unknown("inherited " + a))
                if v is None: return UNDEF
                if isinstance(v, Model) and v.name == "staticmethod": return v.info["f"]
                if isinstance(v, Model) and v.name == "classmethod": return Bound(v.info["f"], c)
                if isinstance(v, Model) and v.name == "property": return self.call(v.info["f"], [o], {}, self.node)
                return Bound(v, o) if isinstance(v, (Func,)) or (isinstance(v, Model) and v.info.get("method")) else v
            if isinstance(c, dict):       # modelled object
                v = c.get(a, UNDEF)
                return v
            return UNDEF
        if isinstance(o, Cls):
            if a == "__name__": return o.name
            v = o.lookup(a)
            if isinstance(v, Model) and v.name == "staticmethod": return v.info["f"]
            return UNDEF if v is None else v
        if isinstance(o, Mod):
            v = self.modget(o, a)
            if isinstance(v, _Undef):
                sub = self.mods.get(o.name + "." + a)
                return sub if sub is not None else UNDEF
            return v
        if isinstance(o, Model) and o.name == "super":
            slf = o.info["obj"]; c0 = o.info.get("cls") or slf.cls
            for b in (c0.bases if isinstance(c0, Cls) else ()):
                v = b.lookup(a) if isinstance(b, Cls) else None
                if v is not None:
                    if isinstance(v, Model) and v.name == "property": return self.call(v.info["f"], [slf], {}, self.node)
                    if isinstance(v, Model) and v.name == "staticmethod": return v.info["f"]
                    return Bound(v, slf) if isinstance(v, Func) else v
            if a == "__init__": return Model("object.__init__", lambda it, args, kw, n: None)
            return self.unknown("super().%s" % a)
        if isinstance(o, (Func, Model)):
            if a == "__name__": return o.info.get("__name__", o.name) if isinstance(o, Model) else o.name
            if a in getattr(o, "attrs", {}): return o.attrs[a]
            if isinstance(o, Model) and a in o.info: return o.info[a]
            return UNDEF
        if isinstance(o, Bound) and a == "__name__": return o.f.name
        if isinstance(o, Bound) and a == "__func__": return o.f
        return self.np.getattr(o, a)
    def setattr(self, o, a, v):
        o = self.resolve(o)
        if isinstance(o, Choice):
            self.under(o.c, lambda: self.setattr(o.a, a, v), lambda: self.setattr(o.b, a, v)); return
        if isinstance(o, Obj):
            d = dict(self.S.heap[o.oid]); d[a] = v; self.S.heap[o.oid] = d
            self.event("setattr", oid=o.oid, attr=a, input=self.inputs.get(o.oid))
        elif isinstance(o, Cls):
            self.event("global-write", name=o.name + "." + a); o.attrs[a] = v
        elif isinstance(o, Mod):
            self.event("global-write", name=o.name + "." + a); self.modset(o, a, v)
        elif isinstance(o, Arr): self.np.array_setattr(o, a, v)
        elif isinstance(o, Func): self.event("global-write", name=o.name + "." + a); o.attrs[a] = v
        elif isinstance(o, Unk): pass
        else: self.unknown("setattr on %r" % (o,))
    def getitem(self, o, ix):
        o = self.resolve(o); ix = self.resolve(ix)
        if isinstance(o, Choice): return self.under(o.c, lambda: self.getitem(o.a, ix), lambda: self.getitem(o.b, ix))
        if isinstance(ix, Choice): return self.under(ix.c, lambda: self.getitem(o, ix.a), lambda: self.getitem(o, ix.b))
        if isinstance(o, Unk): return o
        return self.np.getitem(o, ix)
    def setitem(self, o, ix, v):
        o = self.resolve(o); ix = self.resolve(ix); v = self.resolve(v)
        if isinstance(o, Choice):
            self.under(o.c, lambda: self.setitem(o.a, ix, v), lambda: self.setitem(o.b, ix, v)); return
        if isinstance(ix, Choice):
            self.under(ix.c, lambda: self.setitem(o, ix.a, v), lambda: self.setitem(o, ix.b, v)); return
        if isinstance(v, Choice) and isinstance(o, Arr):
            self.under(v.c, lambda: self.setitem(o, ix, v.a), lambda: self.setitem(o, ix, v.b)); return
        if isinstance(o, Unk): return
        self.np.setitem(o, ix, v)

    # ---------------------------------------------------------------- calls
    def ex_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.S.env.get("__func__")
            slf = self.S.env.get(fr.node.args.args[0].arg if isinstance(fr, Func) and fr.node.args.args else "self")
            return Model("super", None, obj=self.resolve(slf), cls=getattr(fr, "cls", None))
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value); it = self.items(v)
                if it is None:
                    v = self.resolve(v)
                    args.append(Model("starred", None, value=v))
                else: args += it
            else: args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.ev(k.value))
                if isinstance(d, Dct):
                    for kk, vv in self.S.heap[d.oid].items():
                        kw[unkey(kk)] = self.resolve(vv)
                else: self.unknown("** of %r" % (d,))
            else: kw[k.arg] = self.ev(k.value)
        self.node = e
        return self.call(f, args, kw, e)
    def call(self, f, args, kw, node=None):
        f = self.resolve(f)
        if node is not None: self.node = node
        if isinstance(f, Choice):
            return self.under(f.c, lambda: self.call(f.a, args, kw, node), lambda: self.call(f.b, args, kw, node))
        if isinstance(f, Bound): return self.call(f.f, [f.self_] + list(args), kw, node)
        if isinstance(f, Func): return self.call_func(f, args, kw, node)
        if isinstance(f, Model): return f.fn(self, args, kw, node)
        if isinstance(f, Cls): return self.instantiate(f, args, kw, node)
        if isinstance(f, Unk):
            self.event("unknown-call", what=f.why)
            return f
        if isinstance(f, Obj):
            m = self.getattr0(f, "__call__")
            if not isinstance(m, _Undef): return self.call(m, args, kw, node)
        return self.np.call(f, args, kw, node)
    def instantiate(self, c, args, kw, node):
        if "Exception" in c.mro_names() or "BaseException" in c.mro_names() or any(n in BUILTIN_EXC for n in c.mro_names()):
            return Exc(c.name, tuple(args), c)
        nt = c.lookup("__nt_fields__")
        if nt is not None:
            vals = dict(c.lookup("__nt_defaults__") or {})
            if len(args) > len(nt): raise self.raise_("TypeError", "too many arguments for " + c.name)
            for k, v in zip(nt, args): vals[k] = v
            for k, v in kw.items():
                if k not in nt or k in nt[:len(args)]: raise self.raise_("TypeError", "unexpected keyword argument %s of %s" % (k, c.name))
                vals[k] = v
            for k in nt:
                if k not in vals: raise self.raise_("TypeError", "missing argument %s of %s" % (k, c.name))
            return NTup([vals[k] for k in nt], c)
        o = Obj(c); self.S.heap[o.oid] = {}
        init = c.lookup("__init__")
        dc = c.lookup("__dc_fields__")
        if init is None and dc is not None:
            names = [k for k, _ in dc]; vals = dict(zip(names, args))
            if len(args) > len(names): raise self.raise_("TypeError", "too many arguments for " + c.name)
            for k, v in kw.items():
                if k not in names or k in vals: raise self.raise_("TypeError", "unexpected keyword argument %s of %s" % (k, c.name))
                vals[k] = v
            for k, dv in dc:
                if k not in vals:
                    if isinstance(dv, _Undef): raise self.raise_("TypeError", "missing argument %s of %s" % (k, c.name))
                    if isinstance(dv, Model) and dv.name == "field":
                        if dv.info["factory"] is not None: vals[k] = self.call(dv.info["factory"], [], {}, node)
                        elif isinstance(dv.info["default"], _Undef): raise self.raise_("TypeError", "missing argument %s of %s" % (k, c.name))
                        else: vals[k] = dv.info["default"]
                    else: vals[k] = dv
            self.S.heap[o.oid] = {k: vals[k] for k in names}
            post = c.lookup("__post_init__")
            if post is not None: self.call(post, [o], {}, node)
            return o
        if init is not None: self.call(init, [o] + list(args), kw, node)
        return o
    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args); kw = dict(kw)
        for n in names:
            if args: env[n] = args.pop(0)
            elif n in kw: env[n] = kw.pop(n)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in env: env[n] = d
        missing = [n for n in names if n not in env]
        if missing: raise self.raise_("TypeError", "missing argument %s of %s" % (missing[0], f.name))
        for x in a.kwonlyargs:
            if x.arg in kw: env[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults: env[x.arg] = f.kwdefaults[x.arg]
            else: raise self.raise_("TypeError", "missing keyword argument")
        if a.vararg: env[a.vararg.arg] = tuple(args)
        elif args: raise self.raise_("TypeError", "too many arguments for " + f.name)
        if a.kwarg: env[a.kwarg.arg] = self.newdict({key(k): v for k, v in kw.items()})
        elif kw: raise self.raise_("TypeError", "unexpected keyword argument %s of %s" % (sorted(kw)[0], f.name))
        return env
    def call_func(self, f, args, kw, node):
        if len(self.stack) > 40: return self.unknown("recursion")
        self.functions.add((f.mod.path if f.mod else "?", (f.cls.name + "." if f.cls else "") + f.name)); self.callsites += 1
        hook = self.flags.get("call_hook")
        if f.name in self.flags.get("summarise", ()):
            v = self.flags["summarise"][f.name](self, f, args, kw)
            if v is not NotImplemented: return v
        env = self.bind(f, args, kw)
        if hook: hook(self, f, env)
        S = self.S
        caller = S.env; base = S.facts
        env["__mod__"] = f.mod; env["__cells__"] = f.cells; env["__func__"] = f
        gen = is_gen(f.node)
        if gen: env["__gen__"] = g = self.newlist([], "iter")
        S.env = env
        self.stack = self.stack + [(((f.cls.name + ".") if f.cls else "") + f.name, f.mod, node)]
        pend0 = self.pend; self.pend = []
        out = self.block(f.node.body)
        self.stack = self.stack[:-1]
        self.pend = pend0
        rets = []
        for a in out.ab:
            if a.kind == "ret": rets.append((a.val, a.S))
            elif a.kind == "raise":
                a.S.env = caller
                self.pend.append(a)
        if out.normal is not None: rets.append((None, out.normal))
        if not rets:
            raise Dead()
        # fold in program order: conditions of earlier returns gate later ones
        v, R = rets[-1]
        R.env = caller
        for val, Sx in reversed(rets[:-1]):
            Sx.env = caller
            c = self.pathcond(Sx, base)
            n = self.merge_states(c, Sx, R, base)
            set_facts(n.facts)
            v = self.merge_val(c, val, v, Sx, R, n)
            R = n
        R.env = caller
        self.enter(R)
        return g if gen else v

def is_gen(node):
    """does the function's own body (not a nested one) yield?"""
    r = getattr(node, "_isgen", None)
    if r is None:
        todo = list(node.body) if isinstance(node.body, list) else [node.body]; r = False
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)): r = True; break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)): continue
            todo.extend(ast.iter_child_nodes(n))
        try: node._isgen = r
        except AttributeError: pass
    return r

class ModEnv:
    def __init__(self, it, m): pass
class MergeCtx:
    def __init__(self, *a): pass

def and0(fs):
    fs = list(fs)
    if not fs: return TRUE
    with nofacts(): return and_(*fs)
def gate(c, f, g):
    """gated term: each side built under its own assumption"""
    c = simp_bool(c)
    if c is TRUE: return f()
    if c is FALSE: return g()
    with TM.assume(c): a = f()
    with TM.assume(not_(c)): b = g()
    return ite(c, a, b)
def tb(c): return num(c) if isinstance(c, bool) else c
def tbool(c): return c.a[0] if isinstance(c, T) and c.op == "b" else c
_ub = itertools.count()
def unkb(why): return mk("unk", (why, "b%d" % next(_ub)), "B")
def same_const(a, b):
    return (a is None and b is None) or (type(a) is type(b) and isinstance(a, (str, bool, bytes, TypeVal, Lib)) and a == b)
def is_key(k):
    return k is None or isinstance(k, (str, bool, TypeVal, Lib, Func, Cls)) or (isinstance(k, T) and is_num(k)) or (isinstance(k, tuple) and all(is_key(x) for x in k))
def key(k):
    if isinstance(k, T): return ("#", numval(k))
    if isinstance(k, tuple): return ("t",) + tuple(key(x) for x in k)
    return k
def unkey(k):
    if isinstance(k, tuple) and k[:1] == ("#",): return num(k[1])
    if isinstance(k, tuple) and k[:1] == ("t",): return tuple(unkey(x) for x in k[1:])
    return k
