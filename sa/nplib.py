"""Analysis-side models of numpy, scipy and the Python builtins, as term transformers.

Arrays are closures from index terms to element terms; shapes are terms, so every model is valid for every size.
A filtered dimension (boolean compression) is indexed by the index of its source element (values.FDim).
"""
import ast
from fractions import Fraction as F
from terms import *
import terms as TM
from values import *
from values import _Undef
import interp as IP
from interp import gate, tb, tbool, is_key, key, unkey, Dead, and0, unkb, Out, Ab

FLOATT = {"float", "float64", "double", "longdouble", "float_", "float128"}
NARROW = {"float32": "single", "single": "single", "f4": "single", "f": "single", "<f4": "single", "float16": "half", "half": "half", "f2": "half", "e": "half"}      # a value stored so is rounded
INTT = {"int", "int8", "int16", "int32", "int64", "long", "intp", "uint8", "uint32", "uint64", "uint16", "int_", "uint", "longlong", "intc", "i4", "i8", "l"}
BOOLT = {"bool", "bool_", "bool8"}
ALIAS = {"numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs",
    "numpy.arctan2": "numpy.arctan2", "numpy.atan2": "numpy.arctan2", "numpy.acos": "numpy.arccos", "numpy.asin": "numpy.arcsin", "numpy.atan": "numpy.arctan",
    "numpy.radians": "numpy.deg2rad", "numpy.degrees": "numpy.rad2deg", "numpy.concat": "numpy.concatenate",
    "numpy.ma.masked_array": "numpy.ma.array", "numpy.ma.MaskedArray": "numpy.ma.array", "numpy.alltrue": "numpy.all",
    "scipy.spatial.KDTree": "scipy.spatial.cKDTree", "numpy.bitwise_and": "numpy.logical_and", "numpy.bitwise_or": "numpy.logical_or",
    "numpy.invert": "numpy.logical_not", "numpy.bitwise_not": "numpy.logical_not", "numpy.true_divide": "numpy.divide",
    "numpy.float_power": "numpy.power", "math.pow": "numpy.power", "numpy.pow": "numpy.power", "numpy.around": "numpy.round",
    "numpy.permute_dims": "numpy.transpose", "numpy.linalg.linalg.inv": "numpy.linalg.inv", "numpy.asanyarray": "numpy.asarray",
    "numpy.ma.asarray": "numpy.asarray", "numpy.ascontiguousarray": "numpy.asarray", "numpy.matrix_transpose": "numpy.transpose"}
UF1 = {"exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "arcsin", "arccos", "arctan", "floor", "ceil", "trunc", "rint", "sign"}
LIBCONST = {"numpy.pi": PI, "math.pi": PI, "numpy.inf": INF, "math.inf": INF, "numpy.Inf": INF, "numpy.nan": NAN, "math.nan": NAN, "numpy.NaN": NAN,
    "numpy.newaxis": None, "scipy.pi": PI, "numpy.e": fn("exp", ONE)}

def literal(t): return isinstance(t, T) and is_num(t)
def isone(d): return isinstance(d, T) and d is ONE
def isnan_t(t):
    """isnan distributed over gates; elements of input data are taken to be numbers"""
    if t is NAN: return TRUE
    if t.op == "ite": return ite(t.a[0], isnan_t(t.a[1]), isnan_t(t.a[2]))
    if t.unk: return mk("fn", ("isnan", t), "B")
    if t.op == "sel" and TM.SYMINFO.get(t.a[0] if isinstance(t.a[0], T) else None, {}).get("nan"): return mk("fn", ("isnan", t), "B")
    if t.op == "sel" and t.a[0] in MAYNAN: return mk("fn", ("isnan", t), "B")
    return FALSE
MAYNAN = set()
def isinf_t(t):
    if is_inf(t): return TRUE
    if t.op == "ite": return ite(t.a[0], isinf_t(t.a[1]), isinf_t(t.a[2]))
    if t.op == "fn" and t.a[0] == "log": return eq(t.a[1], ZERO)
    if t.op == "fn" and t.a[0] == "mulinf": return not_(eq(t.a[2], ZERO))
    if t.op == "poly":
        r = FALSE
        for m, c in t.a:
            for x, e in m:
                if e > 0: r = or_(r, isinf_t(x))
        return r
    return FALSE

class NP:
    def __init__(s, I):
        s.I = I
        s.fcount = {}
    # ------------------------------------------------------------ conversions
    def canon(s, name):
        if name == "np": name = "numpy"
        return ALIAS.get(name, name)
    def lib_attr(s, mod, name):
        mod = s.I.resolve(mod)
        if not isinstance(mod, Lib):
            return s.I.getattr(mod, name)
        full = s.canon(mod.name + "." + name)
        if full in LIBCONST: return LIBCONST[full]
        if any(full == x or full.startswith(x + ".") for x in s.I.missing): raise s.I.raise_("ImportError", full)
        if mod.name == "numpy":
            if name in FLOATT: return TypeVal("float")
            if name in NARROW: return TypeVal(NARROW[name])
            if name in INTT: return TypeVal("int")
            if name in BOOLT: return TypeVal("bool")
            if name == "ndarray": return TypeVal("ndarray")
            if name in ("object_", "str_"): return TypeVal({"object_": "object", "str_": "str"}[name])
        if mod.name == "math" and "numpy." + name in LIBCONST: return LIBCONST["numpy." + name]
        hook = s.I.flags.get("lib_attr")
        if hook:
            r = hook(s.I, full)
            if r is not None: return r
        if mod.name in ("numpy.c_", "numpy.r_"): pass
        return Lib(full)
    def dtype(s, v):
        if v is None: return None
        if isinstance(v, TypeVal):
            if v.name in ("float", "int", "bool", "single", "half"): return v.name
            if v.name == "object" : return "any"
            return None
        if isinstance(v, str):
            if v in FLOATT or v in ("f8", "d", "<f8"): return "float"
            if v in NARROW: return NARROW[v]
            if v in INTT: return "int"
            if v in BOOLT or v == "?": return "bool"
            return None
        if isinstance(v, Model) and v.name == "dtype": return v.info["kind"]
        if isinstance(v, Lib): return s.dtype(v.name.split(".")[-1])
        return None
    def dim(s, d):
        if isinstance(d, FDim): return d
        return s.fcount.get(d, d)
    def expose(s, d):
        if isinstance(d, FDim):
            c = d.count()
            with nofacts(): full = d.pred(tuple(TM._index(n) for n in d.src)) is TRUE
            if not full: s.fcount[c] = d
            return c
        return d
    def isarr(s, v): return isinstance(v, (Arr, Lst, tuple, SymRange)) or (isinstance(v, Model) and v.name in ("dictview", "zip", "enumerate"))
    def snap(s, v):
        """Snap of anything array-like; None if not convertible"""
        I = s.I
        v = I.resolve(v)
        if isinstance(v, Snap): return v
        if isinstance(v, bool): return Snap((), lambda ix: num(v), "bool")
        if isinstance(v, T): return Snap((), lambda ix: v, "bool" if v.sort == "B" else "int" if v.sort == "I" else "float")
        if isinstance(v, Arr): return I.snap(v)
        if isinstance(v, SymRange):
            st = v.step
            n = sub(v.hi, v.lo) if st > 0 else sub(v.lo, v.hi)
            if abs(st) != 1: n = fn("floordiv", add(n, num(abs(st) - 1)), num(abs(st)))
            return Snap((n,), lambda ix: add(v.lo, scale(ix[0], st)), "int")
        if isinstance(v, str):
            o = sym("str:" + v, "O"); return Snap((), lambda ix: o, "any")
        if isinstance(v, Lst) and isinstance(I.S.heap[v.oid], SymL):
            c = I.S.heap[v.oid]
            probe = TM._index(c.n, "p")
            e = s.snap(c.f(probe))
            if e is None: return None
            from loops import content_subst
            def f(ix, memo={}):
                x = s.snap(c.f(ix[0]))
                return x.at(ix[1:])
            return Snap((c.n,) + e.shape, f, e.dtype)
        if isinstance(v, Choice):
            a, b = s.snap(v.a), s.snap(v.b)
            if a is None or b is None: return None
            r = I.merge_arrays(v.c, Content(a.shape, a.at, a.dtype, a.m), Content(b.shape, b.at, b.dtype, b.m))
            return None if r is None else Snap(r.shape, r.at, r.dtype, r.m)
        items = I.items(v) if not isinstance(v, str) else None
        if items is None: return None
        if isinstance(v, Dct): return None
        sn = [s.snap(x) for x in items]
        if any(x is None for x in sn): return None
        if not sn: return Snap((ZERO,), lambda ix: NAN, "float")
        return s.stack(sn, 0)
    def join_dtype(s, ds):
        ds = set(ds)
        if ds & {"single", "half"}: ds = ds - {"single", "half"} | {"float"}
        if "any" in ds: return "float" if "float" in ds else "any"
        if "float" in ds: return "float"
        if "int" in ds: return "int"
        return "bool" if ds else "float"
    def pickk(s, k, opts):
        """value of opts[k]() for index term k in [0,len)"""
        if literal(k):
            j = int(numval(k))
            return opts[j]() if 0 <= j < len(opts) else unk("index out of range")
        def go(j):
            if j == len(opts) - 1: return opts[j]()
            return gate(eq(k, num(j)), opts[j], lambda: go(j + 1))
        return go(0)
    def stack(s, sn, axis):
        nd = max(x.ndim for x in sn)
        if any(x.ndim != nd for x in sn): return None
        shape = list(sn[0].shape)
        for x in sn[1:]:
            for d, (p, q) in enumerate(zip(shape, x.shape)): s.need_dim(p, q)
        if axis < 0: axis += nd + 1
        m = None
        if any(x.m is not None for x in sn):
            m = lambda ix: s.pickk(ix[axis], [(lambda x=x: x.mask_at(ix[:axis] + ix[axis + 1:])) for x in sn])
        f = lambda ix: s.pickk(ix[axis], [(lambda x=x: x.at(ix[:axis] + ix[axis + 1:])) for x in sn])
        return Snap(shape[:axis] + [num(len(sn))] + shape[axis:], f, s.join_dtype(x.dtype for x in sn), m)
    def need_dim(s, p, q):
        r = dim_eq(p, q)
        if r is True: return
        if r is False: raise s.I.raise_("ValueError", "shape mismatch %r %r" % (p, q))
        if isinstance(p, T) and isinstance(q, T):
            s.I.may_raise("ValueError", not_(eq(p, q)), "shape mismatch")
        else: s.I.unknown("comparing filtered dimensions")
    def concat(s, sn, axis):
        nd = sn[0].ndim
        if any(x.ndim != nd for x in sn): raise s.I.raise_("ValueError", "concatenate dimensions")
        if axis < 0: axis += nd
        for x in sn[1:]:
            for d in range(nd):
                if d != axis: s.need_dim(sn[0].shape[d], x.shape[d])
        if len(sn) == 1: return sn[0]
        if any(isinstance(x.shape[axis], FDim) for x in sn):
            s.I.unknown("concatenate filtered"); 
            return Snap(tuple(x if k != axis else unk("concat") for k, x in enumerate(sn[0].shape)), lambda ix: unk("concat filtered"), "float")
        sizes = [x.shape[axis] for x in sn]
        offs = [ZERO]
        for z in sizes: offs.append(add(offs[-1], z))
        def f(ix, mask=False):
            def go(j):
                x = sn[j]
                loc = ix[:axis] + (sub(ix[axis], offs[j]),) + ix[axis + 1:]
                val = (lambda: x.mask_at(loc)) if mask else (lambda: x.at(loc))
                if j == len(sn) - 1: return val()
                return gate(lt(ix[axis], offs[j + 1]), val, lambda: go(j + 1))
            return go(0)
        m = (lambda ix: f(ix, True)) if any(x.m is not None for x in sn) else None
        shape = sn[0].shape[:axis] + (offs[-1],) + sn[0].shape[axis + 1:]
        return Snap(shape, f, s.join_dtype(x.dtype for x in sn), m)
    def mkarr(s, sn, force=False):
        """Arr (new buffer) of a snap; scalars stay terms"""
        if sn.ndim == 0 and not force and sn.m is None: return sn.at(())
        return s.I.newarr(sn.shape, sn.at, sn.dtype, sn.m)
    def need(s, v, what):
        sn = s.snap(v)
        if sn is None:
            s.I.unknown("%s of %r" % (what, v))
        return sn
    def unkarr(s, why, ndim=None):
        return s.I.unknown(why)

    # ------------------------------------------------------------ broadcasting
    def bshape(s, shapes):
        nd = max((len(x) for x in shapes), default=0)
        out = []
        for d in range(nd):
            cur = None
            for sh in shapes:
                k = d - (nd - len(sh))
                if k < 0: continue
                x = sh[k]
                if cur is None or isone(cur): cur = x if cur is None or not isone(x) else cur
                elif isone(x): pass
                else:
                    r = dim_eq(cur, x)
                    if r is True: 
                        continue
                    if r is False: raise s.I.raise_("ValueError", "broadcast %r %r" % (cur, x))
                    if isinstance(cur, T) and isinstance(x, T):
                        s.I.may_raise("ValueError", not_(eq(cur, x)), "broadcast")
                    elif isinstance(cur, FDim) and isinstance(x, T) and x is cur.count(): pass
                    elif isinstance(x, FDim) and isinstance(cur, T) and cur is x.count(): cur = x
                    else: s.I.unknown("broadcast of filtered dimensions"); 
            out.append(cur)
        return tuple(out)
    def bidx(s, sh, nd, ix):
        """index into an operand of shape sh from a broadcast index"""
        k = len(ix) - len(sh)
        return tuple(ZERO if isone(d) else i for d, i in zip(sh, ix[k:]))
    def emap(s, f, *vs, dtype=None):
        """elementwise function over broadcast operands"""
        sn = [s.snap(v) for v in vs]
        if any(x is None for x in sn): return s.I.unknown("elementwise on %r" % (vs,))
        shape = s.bshape([x.shape for x in sn])
        nd = len(shape)
        if nd == 0 and all(x.m is None for x in sn):
            return f(*[x.at(()) for x in sn])
        g = lambda ix: f(*[x.at(s.bidx(x.shape, nd, ix)) for x in sn])
        m = None
        ms = [x for x in sn if x.m is not None]
        if ms: m = lambda ix: or_(*[x.mask_at(s.bidx(x.shape, nd, ix)) for x in ms])
        if dtype is None: dtype = s.join_dtype(x.dtype for x in sn)
        return s.I.newarr(shape, g, dtype, m)
    def bto(s, v, shape):
        """element accessor of v broadcast to shape"""
        sn = s.snap(v)
        if sn is None: 
            s.I.unknown("store of %r" % (v,)); return (lambda ix: unk("stored value")), "float", None
        sh = sn.shape
        while len(sh) > len(shape) and isone(sh[0]):
            old = sn; sn = Snap(old.shape[1:], (lambda o: lambda ix: o.at((ZERO,) + ix))(old), old.dtype); sh = sn.shape
        bs = s.bshape([sh, shape])
        return (lambda ix: sn.at(s.bidx(sh, len(shape), ix))), sn.dtype, (None if sn.m is None else lambda ix: sn.mask_at(s.bidx(sh, len(shape), ix)))

    # ------------------------------------------------------------ operators
    def binop(s, op, a, b):
        I = s.I
        if isinstance(a, bool): a = num(int(a)) if not isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) else num(a)
        if isinstance(b, bool): b = num(int(b)) if not isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) else num(b)
        o = type(op).__name__
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            if o == "Add" and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)): return s.sjoin([a, b])
            if o == "Mod" and isinstance(a, str): return s.percent(a, b)
            if o == "Mult":
                x, k = (a, b) if isinstance(a, (str, SStr)) else (b, a)
                if literal(k) and isinstance(x, str): return x * int(numval(k))
                if literal(k): return s.sjoin([x] * int(numval(k)))
                if x == " " and isinstance(k, T): return SStr([("ws", k)])
            if o == "Add": raise I.raise_("TypeError", "str + other")
            return I.unknown("string operator")
        if isinstance(a, tuple) and isinstance(b, tuple) and o == "Add": return a + b
        if isinstance(a, tuple) and literal(b) and o == "Mult": return a * int(numval(b))
        if isinstance(a, Lst) and a.kind == "list" or isinstance(b, Lst) and b.kind == "list":
            if o == "Add" and isinstance(a, Lst) and isinstance(b, Lst):
                x, y = I.items(a), I.items(b)
                if x is not None and y is not None: return I.newlist(x + y)
                return I.unknown("list concatenation")
            if o == "Mult":
                l, k = (a, b) if isinstance(a, Lst) else (b, a)
                x = I.items(l)
                if x is not None and literal(k): return I.newlist(x * int(numval(k)))
                if x is not None and len(x) == 1 and isinstance(k, T):
                    r = Lst("list"); I.S.heap[r.oid] = SymL(k, lambda j: x[0]); return r
        if a is None or b is None: raise I.raise_("TypeError", "operand None")
        if isinstance(a, (Dct, Obj, Func, TypeVal)) or isinstance(b, (Dct, Obj, Func, TypeVal)):
            if isinstance(a, Obj):
                nm = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__"}.get(o)
                m = I.getattr0(a, nm) if nm else UNDEF
                if not isinstance(m, _Undef): return I.call(m, [b], {}, I.node)
            return I.unknown("operator on object")
        if o == "MatMult": return s.dot(a, b)
        f = s.scalar_op(o, a, b)
        if f is None: return I.unknown("operator " + o)
        dt = None
        if o == "Div": dt = "float"
        return s.emap(f, a, b, dtype=dt)
    def scalar_op(s, o, a=None, b=None):
        if o == "Add": return lambda x, y: or_(x, y) if x.sort == y.sort == "B" and (isinstance(a, Arr) or isinstance(b, Arr)) else add(x, y)
        if o == "Sub": return sub
        if o == "Mult": return lambda x, y: and_(x, y) if x.sort == y.sort == "B" and (isinstance(a, Arr) or isinstance(b, Arr)) else mul(x, y)
        if o == "Div": return s.divide
        if o == "Pow": return s.pow
        if o == "FloorDiv": return lambda x, y: fn("floordiv", x, y)
        if o == "Mod": return lambda x, y: fn("mod", x, y)
        if o == "BitAnd": return lambda x, y: and_(x, y) if x.sort == y.sort == "B" else mk("fn", ("bitand", x, y), "I")
        if o == "BitOr": return lambda x, y: or_(x, y) if x.sort == y.sort == "B" else mk("fn", ("bitor", x, y), "I")
        if o == "BitXor": return lambda x, y: not_(eq(x, y)) if x.sort == y.sort == "B" else mk("fn", ("bitxor", x, y), "I")
        return None
    def divide(s, x, y):
        if y.op == "ite" and (is_num(y.a[1]) or is_num(y.a[2])): return ite(y.a[0], s.divide(x, y.a[1]), s.divide(x, y.a[2]))
        return div(x, y)
    def pow(s, x, y):
        x, y = num_of_bool(x), num_of_bool(y)
        return TM.powt(x, y)
    def compare(s, op, a, b):
        I = s.I
        o = type(op).__name__
        if isinstance(a, bool) and isinstance(b, bool): a, b = num(a), num(b)
        if isinstance(a, bool): a = num(a) if isinstance(b, T) and b.sort == "B" else num(int(a))
        if isinstance(b, bool): b = num(b) if isinstance(a, T) and a.sort == "B" else num(int(b))
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == "B" and b.sort != "B": a = num_of_bool(a)
            if b.sort == "B" and a.sort != "B": b = num_of_bool(b)
            return tbool(s.cmpt(o, a, b))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                x = a if isinstance(a, Arr) else b
                other = b if isinstance(a, Arr) else a
                if isinstance(other, str) and I.snap(x).dtype == "any":
                    return s.emap(lambda p, q: s.cmpt(o, p, q), a, b, dtype="bool")
                r = num(o == "NotEq")
                return s.emap(lambda p: r, x, dtype="bool")
            if isinstance(a, (TypeVal, Lib, Func)) or isinstance(b, (TypeVal, Lib, Func)): return o == "NotEq"
            return s.emap(lambda p, q: s.cmpt(o, p, q), a, b, dtype="bool")
        if o in ("Eq", "NotEq"):
            r = s.equal(a, b)
            if o == "NotEq": r = (not r) if isinstance(r, bool) else tbool(not_(r))
            return r
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[o]
        if isinstance(a, (tuple, Lst)) and isinstance(b, (tuple, Lst)):
            if isinstance(a, Lst) and a.kind == "set":
                return I.unknown("set comparison")
            x, y = I.items(a), I.items(b)
            if x is not None and y is not None and o in ("Lt", "Gt"):
                r = FALSE; p = TRUE
                for u, v in zip(x, y):
                    r = or_(r, and_(p, tb(I.truth(s.compare(op, u, v))))); p = and_(p, tb(s.equal(u, v)))
                return tbool(r)
        if a is None or b is None or isinstance(a, str) != isinstance(b, str):
            raise I.raise_("TypeError", "unorderable")
        if isinstance(a, SStr) or isinstance(b, SStr): return unkb("symbolic string")
        I.unknown("comparison of %r and %r" % (a, b))
        return unkb("comparison")
    def cmpt(s, o, a, b):
        if o == "Lt": return lt(a, b)
        if o == "LtE": return le(a, b)
        if o == "Gt": return lt(b, a)
        if o == "GtE": return le(b, a)
        if o == "Eq": return eq(a, b)
        if o == "NotEq": return not_(eq(a, b)) if not (a is NAN or b is NAN) else TRUE
        raise IP.Unsupported(o)
    def equal(s, a, b):
        I = s.I
        a, b = I.resolve(a), I.resolve(b)
        if a is None or b is None: return a is b
        if isinstance(a, (TypeVal, Lib)) or isinstance(b, (TypeVal, Lib)): return a == b
        if isinstance(a, SStr) or isinstance(b, SStr):
            if isinstance(a, SStr) and isinstance(b, SStr) and a.parts == b.parts: return True
            h = I.flags.get("sstr_eq")
            if h:
                r = h(a, b)
                if r is not None: return r
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                import textio
                r = textio.equal(I, a, b)
                if r is not None: return r
            return unkb("symbolic string")
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str): return a == b
            x = b if isinstance(a, str) else a
            if isinstance(x, T) and x.sort == "O": return tbool(eq(x, sym("str:" + (a if isinstance(a, str) else b), "O")))
            return False
        if isinstance(a, (tuple, Lst)) and isinstance(b, (tuple, Lst)):
            if isinstance(a, tuple) != isinstance(b, tuple): return False
            x, y = I.items(a), I.items(b)
            if x is None or y is None: return unkb("list equality")
            if len(x) != len(y): return False
            r = TRUE
            for u, v in zip(x, y):
                e = I.truth(I.compare(ast.Eq(), u, v))
                if e is False: return False
                r = and_(r, tb(e))
            return tbool(r)
        if isinstance(a, Dct) and isinstance(b, Dct):
            x, y = I.S.heap[a.oid], I.S.heap[b.oid]
            if set(x) != set(y): return False
            r = TRUE
            for k in x: r = and_(r, tb(I.truth(I.compare(ast.Eq(), x[k], y[k]))))
            return tbool(r)
        return I.identical(a, b)
    def logical_and(s, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            raise s.I.raise_("ValueError", "ambiguous truth value") if not (isinstance(a, bool)) else Dead()
        return tbool(and_(tb(s.I.truth(a)), tb(s.I.truth(b))))

    # ------------------------------------------------------------ indexing
    def norm_i(s, i, n):
        """scalar index with negative literals resolved"""
        if literal(i):
            k = int(numval(i))
            if k < 0: return add(dsize(n), num(k))
            return i
        if isinstance(n, T) and decide_ge0(i) is False: return add(n, i)
        return i
    def bounds(s, arr, d, i, n, kind):
        I = s.I
        if I.flags.get("bounds") and I.stack and I.S.env.get("__func__") is not None and I.S.env["__func__"].lang == "pyx":
            I.event("access", arr=arr, dim=d, index=i, size=n, acc=kind)
    def view(s, arr, ix, kind="load"):
        """(Arr view, adv) : basic part of the indexing; adv = list of advanced indices"""
    def split(s, arr, ix):
        """normalise an index to one entry per array axis: ('i', t) ('s', lo, hi, st) ('n',) ('a', snap) ('b', snap, naxes)"""
        I = s.I
        if not isinstance(ix, tuple): ix = (ix,)
        out = []; used = 0; ell = None
        for k, x in enumerate(ix):
            x = I.resolve(x)
            if isinstance(x, bool): x = num(x)
            if x is None: out.append(("n",))
            elif x is ELL or (isinstance(x, Lib) and x.name == "Ellipsis"): ell = len(out); out.append(("e",))
            elif isinstance(x, Slice): out.append(("s", x)); used += 1
            elif isinstance(x, T):
                if x.sort == "B":
                    return None
                out.append(("i", x)); used += 1
            elif isinstance(x, (Arr, Lst, SymRange)) or isinstance(x, tuple):
                sn = s.snap(x)
                if sn is None: return None
                if sn.dtype == "bool": out.append(("b", sn)); used += sn.ndim
                elif sn.ndim == 0: out.append(("i", sn.at(()))); used += 1
                else: out.append(("a", sn, x)); used += 1
            elif isinstance(x, Model) and x.name == "ix": 
                return None
            else: return None
        if used > arr.ndim: raise I.raise_("IndexError", "too many indices")
        fill = [("s", Slice(None, None, None))] * (arr.ndim - used)
        if ell is None: out += fill
        else: out[ell:ell + 1] = fill
        return out
    def slice_norm(s, sl, n):
        """(start, length, step) of a slice over a dimension n; None when not expressible"""
        I = s.I
        n0 = n
        lo, hi, st = I.resolve(sl.lo), I.resolve(sl.hi), I.resolve(sl.st)
        st = 1 if st is None else (int(numval(st)) if literal(st) else None)
        if st is None: return None
        if lo is None and hi is None and st == 1: return ZERO, n, 1
        if isinstance(n, FDim): 
            return None
        def clip(v, dflt):
            if v is None: return dflt
            if not isinstance(v, T): return None
            if literal(v) and numval(v) < 0: return add(n, v)
            return v
        if st > 0:
            a, b = clip(lo, ZERO), clip(hi, n)
            if a is None or b is None: return None
            if b is not n and not literal(b):
                d = decide_ge0(sub(n, b))
                if d is False: b = n
                elif d is None: b = fn("min2", b, n)
            elif literal(b) and not literal(n):
                if decide_ge0(sub(n, b)) is not True: b = fn("min2", b, n)
            elif literal(b) and literal(n) and numval(b) > numval(n): b = n
            ln = sub(b, a)
            if decide_ge0(ln) is not True: ln = fn("max2", ln, ZERO)
            if st > 1: ln = fn("floordiv", add(ln, num(st - 1)), num(st))
            return a, ln, st
        if st == -1:
            a = sub(n, ONE) if lo is None else clip(lo, None)
            b = num(-1) if hi is None else clip(hi, None)
            if a is None or b is None: return None
            return a, sub(a, b), -1
        return None
    def basic(s, arr, parts, kind="load"):
        """apply the basic entries of parts (advanced ones are left as full slices); returns view and the
        axis number of each advanced entry"""
        I = s.I
        vmap = arr.vmap if arr.vmap is not None else tuple(("ax", d, ZERO, 1) for d in range(len(I.S.heap[arr.buf].shape)))
        axmap = {}     # old axis -> ('fix', t) | ('ax', newd, start, step)
        shape = []; adv = []
        ax = 0
        for p in parts:
            if p[0] == "n": shape.append(ONE); continue
            if p[0] == "i":
                n = arr.shape[ax]
                i = p[1]
                if isinstance(n, FDim):
                    i = n.nth(ZERO if literal(i) and numval(i) == 0 else i)
                else:
                    i2 = i if s.nowrap() else s.norm_i(i, n)
                    s.bounds(arr, ax, i2, n, kind)
                    if literal(i2) and literal(n) and not (0 <= numval(i2) < numval(n)): raise I.raise_("IndexError", "out of bounds")
                    i = i2
                axmap[ax] = ("fix", i); ax += 1
            elif p[0] == "s":
                n = arr.shape[ax]
                r = s.slice_norm(p[1], n)
                if r is None: return None
                a, ln, st = r
                s.bounds_slice(arr, ax, p[1], n, kind)
                axmap[ax] = ("ax", len(shape), a, st); shape.append(ln); ax += 1
            else:
                k = p[1].ndim if p[0] == "b" else 1
                adv.append((len(shape), k, p))
                for _ in range(k):
                    axmap[ax] = ("ax", len(shape), ZERO, 1); shape.append(arr.shape[ax]); ax += 1
        new = []
        for mm in vmap:
            if mm[0] == "fix": new.append(mm); continue
            _, d, st, stp = mm
            if d not in axmap: new.append(("fix", ZERO)); continue
            am = axmap[d]
            if am[0] == "fix":
                i = am[1]
                if isinstance(i, tuple): new.append(("fix", i))
                else: new.append(("fix", add(st, scale(i, stp))))
            else:
                if isinstance(am[2], T) and am[2] is ZERO and am[3] == 1: new.append(("ax", am[1], st, stp))
                else: new.append(("ax", am[1], add(st, scale(am[2], stp)), stp * am[3]))
        return Arr(arr.buf, shape, tuple(new), arr.tag), adv
    def bounds_slice(s, arr, ax, sl, n, kind):
        I = s.I
        if not I.flags.get("bounds"): return
        if I.S.env.get("__func__") is None or I.S.env["__func__"].lang != "pyx": return
        for x, what in ((sl.lo, "slice start"), (sl.hi, "slice end")):
            x = I.resolve(x)
            if isinstance(x, T): I.event("access", arr=arr, dim=ax, index=x if what == "slice start" else sub(x, ONE), size=n, acc=kind, sl=True)
    def simplify_view(s, v):
        if v.vmap is not None and len(v.vmap) == len(v.shape) and all(m[0] == "ax" and m[1] == d and m[2] is ZERO and m[3] == 1 for d, m in enumerate(v.vmap)):
            return Arr(v.buf, v.shape, None if v.shape == s.I.S.heap[v.buf].shape else v.vmap, v.tag)
        return v
    def getitem(s, o, ix):
        I = s.I
        if isinstance(o, Arr):
            if isinstance(ix, str): return I.unknown("field access")
            parts = s.split(o, ix)
            if parts is None: return I.unknown("index %r" % (ix,))
            r = s.basic(o, parts)
            if r is None: return I.unknown("slice of a filtered dimension" )
            v, adv = r
            if not adv:
                if not v.shape: 
                    sn = I.snap(v)
                    if sn.m is not None: return I.newarr((), sn.at, sn.dtype, sn.m)
                    return sn.at(())
                return s.simplify_view(v)
            return s.adv_get(v, adv)
        if isinstance(o, (tuple, str)):
            if isinstance(ix, Slice):
                lo, hi, st = [None if x is None else (int(numval(x)) if literal(x) else "?") for x in (I.resolve(ix.lo), I.resolve(ix.hi), I.resolve(ix.st))]
                if "?" in (lo, hi, st): return I.unknown("slice of a tuple")
                return o[lo:hi:st]
            if literal(ix):
                k = int(numval(ix))
                if -len(o) <= k < len(o): return I.resolve(o[k])
                raise I.raise_("IndexError", "index")
            if isinstance(ix, bool): return I.resolve(o[int(ix)])
            if isinstance(ix, T) and isinstance(o, tuple):
                from loops import pick
                if ix.sort == "B": return I.merge_val(ix, o[1], o[0])
                return pick(I, o, ix)
            return I.unknown("tuple index")
        if isinstance(o, Lst):
            c = I.S.heap[o.oid]
            if isinstance(c, SymL):
                if isinstance(ix, T):
                    if literal(ix) and numval(ix) < 0: ix = add(c.n, ix)
                    return I.resolve(c.f(ix))
                if isinstance(ix, Slice):
                    r = s.slice_norm(ix, c.n)
                    if r is not None:
                        a, ln, st = r
                        l = Lst("list"); I.S.heap[l.oid] = SymL(ln, lambda k: c.f(add(a, scale(k, st)))); return l
                return I.unknown("symbolic list index")
            if not isinstance(c, tuple) or c[:1] == ("?choice",): return I.unknown("list of two shapes")
            if isinstance(ix, Slice):
                r = s.getitem(c, ix)
                return I.newlist(r) if isinstance(r, tuple) else r
            return s.getitem(c, ix)
        if isinstance(o, Dct):
            d = I.S.heap[o.oid]
            if is_key(ix):
                k = key(ix)
                v = I.resolve(d.get(k, UNDEF))
                if isinstance(v, _Undef): raise I.raise_("KeyError", ix)
                if isinstance(v, Choice) and (isinstance(v.a, _Undef) or isinstance(v.b, _Undef)):
                    if isinstance(v.a, _Undef): I.may_raise("KeyError", v.c); return I.resolve(v.b)
                    I.may_raise("KeyError", not_(v.c)); return I.resolve(v.a)
                return v
            return I.unknown("dict key %r" % (ix,))
        if isinstance(o, ObjDict): return s.objdict_get(o, ix)
        if isinstance(o, SymRange) and isinstance(ix, T): return add(o.lo, scale(ix, o.step))
        if isinstance(o, Lib) and o.name in ("numpy.c_", "numpy.r_"):
            items = ix if isinstance(ix, tuple) else (ix,)
            if o.name == "numpy.c_": return s.call(Lib("numpy.column_stack"), [tuple(items)], {}, I.node)
            if any(isinstance(x, (Slice, str)) for x in items): return I.unknown("r_ with slices")
            sn = [s.snap(x) for x in items]
            if any(x is None for x in sn): return I.unknown("r_")
            nd = max(x.ndim for x in sn)
            if nd > 1: return s.call(Lib("numpy.concatenate"), [tuple(items)], {}, I.node) if all(x.ndim == nd for x in sn) else I.unknown("r_")
            return s.call(Lib("numpy.hstack"), [tuple(items)], {}, I.node)
        if isinstance(o, Lib) and o.name == "numpy.s_": return ix
        if isinstance(o, T): raise I.raise_("IndexError", "scalar index")
        if o is None: raise I.raise_("TypeError", "None is not subscriptable")
        if isinstance(o, SStr): return I.unknown("string index")
        if isinstance(o, Obj):
            m = I.getattr0(o, "__getitem__")
            if not isinstance(m, _Undef): return I.call(m, [ix], {}, I.node)
        if isinstance(o, Model) and o.info.get("getitem"): return o.info["getitem"](ix)
        return I.unknown("getitem on %r" % (o,))
    def objdict_get(s, o, ix):
        d = s.I.S.heap[o.obj.oid]
        if isinstance(ix, str) and ix in d: return s.I.resolve(d[ix])
        raise s.I.raise_("KeyError", ix)
    def adv_plan(s, v, adv):
        """broadcast shape of the advanced indices; each is a function from the broadcast index to source indices"""
        I = s.I
        items = []     # (first axis of view, naxes, shape, f(bix)->tuple of source indices)
        for ax, k, p in adv:
            if p[0] == "b":
                sn = p[1]
                src = []; fd = []
                for d in range(k):
                    n = v.shape[ax + d]
                    m = sn.shape[d]
                    if isinstance(n, FDim): fd.append(n)
                    else:
                        s.need_dim(n, m)
                if k == 1 and isinstance(v.shape[ax], FDim):
                    base = v.shape[ax]
                    if not (isinstance(sn.shape[0], FDim) and sn.shape[0].same(base)):
                        I.may_raise("IndexError", not_(eq(dsize(sn.shape[0]), base.count())), "boolean index of another length")
                        I.unknown("boolean index over a filtered dimension"); return None
                    dim = FDim(base.src, lambda ix: and_(base.pred(ix), sn.at((ix,))))
                    items.append((ax, 1, (dim,), lambda b: (b[0],)))
                else:
                    if fd: I.unknown("boolean index"); return None
                    srcd = tuple(v.shape[ax + d] for d in range(k))
                    # literal true everywhere
                    dim = FDim(srcd, (lambda sn: lambda ix: sn.at(tuple(ix)))(sn))
                    items.append((ax, k, (dim,), lambda b: tuple(b[0])))
            else:
                sn = p[1]
                n = v.shape[ax]
                def f(b, sn=sn, n=n):
                    i = sn.at(b)
                    if isinstance(n, FDim): return (n.nth(i),)
                    return (s.norm_i(i, n),)
                items.append((ax, 1, sn.shape, f))
        bs = s.bshape([x[2] for x in items])
        return items, bs
    def adv_get(s, v, adv):
        I = s.I
        pl = s.adv_plan(v, adv)
        if pl is None: return I.unknown("advanced index")
        items, bs = pl
        sn = I.snap(v)
        advax = set()
        for ax, k, _, _ in items: advax |= set(range(ax, ax + k))
        rest = [d for d in range(v.ndim) if d not in advax]
        first = min(advax)
        contiguous = advax == set(range(first, first + len(advax)))
        pos = len([d for d in rest if d < first]) if contiguous else 0
        shape = [v.shape[d] for d in rest]
        shape[pos:pos] = list(bs)
        nb = len(bs)
        def srcidx(ix):
            b = ix[pos:pos + nb]
            r = ix[:pos] + ix[pos + nb:]
            full = [None] * v.ndim
            for d, i in zip(rest, r): full[d] = i
            for ax, k, sh, f in items:
                bb = s.bidx(sh, nb, b)
                for j, t in enumerate(f(bb)): full[ax + j] = t
            return tuple(full)
        m = None if sn.m is None else lambda ix: sn.m(srcidx(ix))
        return s.mkarr(Snap(shape, lambda ix: sn.at(srcidx(ix)), sn.dtype, m))
    def cast(s, t, frm, to):
        if to == "float":
            return num_of_bool(t)
        if to in ("single", "half"): return fn(to, num_of_bool(t))
        if to == "int":
            t = num_of_bool(t)
            return t if t.sort == "I" or frm == "int" or frm == "bool" else fn("trunc", t)
        if to == "bool": return TM.truth(t)
        if to == "any":
            if frm == "float": return ufn("castany", t)
            return t
        return t
    def setitem(s, o, ix, v):
        I = s.I
        if isinstance(o, Lst):
            c = I.S.heap[o.oid]
            I.mutated(o)
            if isinstance(c, tuple) and literal(ix) and -len(c) <= numval(ix) < len(c):
                l = list(c); l[int(numval(ix))] = v; I.S.heap[o.oid] = tuple(l); return
            if isinstance(c, SymL) and isinstance(ix, T):
                if literal(ix) and numval(ix) < 0: ix = add(c.n, ix)
                I.S.heap[o.oid] = SymL(c.n, lambda k: I.merge_val(simp_bool(eq(k, ix)), v, c.f(k))); return
            I.unknown("list store"); I.S.heap[o.oid] = SymL(unk("len"), lambda k: Unk("list store")); return
        if isinstance(o, Dct):
            I.mutated(o)
            d = dict(I.S.heap[o.oid])
            if is_key(ix): d[key(ix)] = v
            else: I.unknown("dict store")
            I.S.heap[o.oid] = d; return
        if isinstance(o, ObjDict):
            I.setattr(o.obj, ix, v); return
        if not isinstance(o, Arr):
            if isinstance(o, T) or o is None or isinstance(o, (str, tuple)): raise I.raise_("TypeError", "item assignment")
            I.unknown("setitem on %r" % (o,)); return
        parts = s.split(o, ix)
        r = None if parts is None else s.basic(o, parts, "store")
        if r is None:
            I.unknown("store index"); s.smash(o); return
        view, adv = r
        if not adv: s.store_view(view, v)
        else: s.adv_set(view, adv, v)
    def smash(s, o, garbage=None):
        c = s.I.S.heap[o.buf]
        if garbage:
            s.I.mutated(o)
            s.I.S.heap[o.buf] = Content(c.shape, lambda ix: ufn("garbage:" + garbage, *ix), c.dtype, c.m, c.alias); return
        s.I.S.heap[o.buf] = Content(c.shape, lambda ix: unk("unknown store"), c.dtype, c.m, c.alias)
    def view1(s, arr, start, count):
        r = s.basic(arr, s.split(arr, (Slice(start, add(start, count), None),)))
        return r[0]
    def nowrap(s):
        f = s.I.S.env.get("__func__")
        return f is not None and f.lang == "pyx" and getattr(f.node, "_dirs", {}).get("wraparound") == "False"
    def store_all(s, arr, v): s.store_view(arr, v)
    def rview(s, arr):
        if arr.tag and arr.tag[0] == "rview":
            s.I.unknown("store through a reshaped view"); s.smash(arr.tag[1])
            s.I.mutated(arr.tag[1])
    def member(s, view, bix, shape):
        """(conditions, view index) of buffer index bix inside the view"""
        conds = []; vix = [ZERO] * len(view.shape)
        vm = view.vmap if view.vmap is not None else tuple(("ax", d, ZERO, 1) for d in range(len(shape)))
        for d, mm in enumerate(vm):
            i = bix[d]
            if mm[0] == "fix":
                if isinstance(i, tuple):
                    conds += [eq(x, y) for x, y in zip(i, mm[1])]
                else: conds.append(eq(i, mm[1]))
            else:
                _, ax, st, stp = mm
                n = view.shape[ax]
                if isinstance(i, tuple) or isinstance(n, FDim):
                    vix[ax] = i; continue
                if stp == 1: j = sub(i, st)
                elif stp == -1: j = sub(st, i)
                else:
                    j = fn("floordiv", sub(i, st), num(stp)); conds.append(eq(fn("mod", sub(i, st), num(stp)), ZERO))
                if not (st is ZERO and stp == 1 and (n is shape[d])):
                    if decide_ge0(j) is not True: conds.append(ge(j, ZERO))
                    conds.append(lt(j, n))
                vix[ax] = j
        return conds, tuple(vix)
    def store_view(s, view, v):
        I = s.I
        c = I.S.heap[view.buf]
        I.mutated(view); s.rview(view)
        f, dt, vm = s.bto(v, view.shape)
        def g(ix):
            conds, vix = s.member(view, ix, c.shape)
            return gate(and_(*conds), lambda: s.cast(f(vix), dt, c.dtype), lambda: c.at(ix))
        m = c.m
        if c.m is not None or vm is not None:
            def m(ix):
                conds, vix = s.member(view, ix, c.shape)
                return gate(and_(*conds), lambda: vm(vix) if vm else FALSE, lambda: c.mask_at(ix))
        I.S.heap[view.buf] = Content(c.shape, g, c.dtype, m, c.alias)
    def adv_set(s, view, adv, v):
        I = s.I
        c = I.S.heap[view.buf]
        I.mutated(view); s.rview(view)
        pl = s.adv_plan(view, adv)
        if pl is None: s.smash(view); return
        items, bs = pl
        advax = set()
        for ax, k, _, _ in items: advax |= set(range(ax, ax + k))
        rest = [d for d in range(view.ndim) if d not in advax]
        first = min(advax)
        contiguous = advax == set(range(first, first + len(advax)))
        pos = len([d for d in rest if d < first]) if contiguous else 0
        rshape = [view.shape[d] for d in rest]
        rshape[pos:pos] = list(bs)
        nb = len(bs)
        vf, dt, _ = s.bto(v, tuple(rshape))
        def g(ix):
            conds, vix = s.member(view, ix, c.shape)
            # solve source index = target index for the broadcast indices
            q = tuple(dfresh(d, "q") for d in bs)
            eqs = []
            for d, qi in zip(bs, q):
                if isinstance(d, FDim): eqs.append(d.pred(qi))
            for ax, k, sh, f in items:
                src = f(s.bidx(sh, nb, q))
                for j, t in enumerate(src):
                    tgt = vix[ax + j]
                    if isinstance(t, tuple) or isinstance(tgt, tuple):
                        eqs += [eq(a, b) for a, b in zip(t, tgt)]
                    else: eqs.append(eq(t, tgt))
            syms = [(x, n) for d, qi in zip(bs, q) for x, n in (zip(qi, d.src) if isinstance(d, FDim) else [(qi, d)])]
            full = tuple(q)
            cond, val = s.solve_store(syms, eqs, lambda m: vf(tuple([vix[d] for d in rest[:pos]]) + tuple(sub_ix(x, m) for x in full) + tuple(vix[d] for d in rest[pos:])))
            return gate(and_(*(conds + [cond])), lambda: s.cast(val(), dt, c.dtype), lambda: c.at(ix))
        I.S.heap[view.buf] = Content(c.shape, g, c.dtype, c.m, c.alias)
    def solve_store(s, syms, eqs, val):
        """exists syms with eqs: (condition, lazy value at the (last) solution)"""
        from loops import solve_lin, flat
        eqs = [c for e in eqs for c in (e.a if e.op == "and" else (e,))]
        m = {}
        todo = list(syms)
        extra = []
        progress = True
        while progress and todo:
            progress = False
            for k, e in enumerate(eqs):
                if e.op == "cmp" and e.a[0] == "eq" and e.a[1].sort == "I":
                    for x, n in todo:
                        r = solve_lin(to_poly(e.a[1]), x)
                        if r is not None:
                            eqs = [subst(c, {x: r}) for j, c in enumerate(eqs) if j != k]
                            extra = [subst(c, {x: r}) for c in extra]
                            m = {y: subst(t, {x: r}) for y, t in m.items()}
                            m[x] = r
                            extra += [ge(r, ZERO), lt(r, n)]
                            todo = [(y, subst(w, {x: r})) for y, w in todo if y is not x]
                            progress = True; break
                    if progress: break
        conds = and_(*(eqs + extra))
        if not todo: return conds, lambda: val(m)
        # remaining free source indices
        left = list(todo)
        def quant(k, body):
            if k == len(left): return body
            x, n = left[k]
            return TM.build_bind("any", n, quant(k + 1, body), x, "B")
        c = quant(0, conds)
        if len(left) == 1:
            x, n = left[0]
            def v():
                t = mkbind("last", n, conds, x, "I")
                mm = {y: subst(w, {x: t}) for y, w in m.items()}; mm[x] = t
                return val(mm)
            return c, v
        probe = val(m)
        if not (free_syms(probe) & {x for x, n in left}): return c, lambda: probe
        return c, lambda: unk("ambiguous store")

    # ------------------------------------------------------------ shapes
    def flat_index(s, shape, ix):
        r = ZERO
        for n, i in zip(shape, ix): r = add(mul(r, n), i)
        return r
    def unravel(s, shape, p):
        out = []
        for n in reversed(shape[1:]):
            out.append(fn("mod", p, n)); p = fn("floordiv", p, n)
        return tuple([p] + out[::-1])
    def reshape(s, arr, shape, order="C"):
        I = s.I
        if isinstance(arr, T) or not isinstance(arr, Arr):
            a0 = s.need(arr, "reshape")
            if a0 is None: return I.unknown("reshape")
            arr = I.newarr(a0.shape, a0.at, a0.dtype, a0.m)
        shape = [s.dim(x) for x in shape]
        if order != "C":
            if order == "F":
                t = s.reshape(s.transpose(arr), shape[::-1])
                return s.transpose(t) if isinstance(t, Arr) else t
            return I.unknown("reshape order")
        neg1 = [k for k, x in enumerate(shape) if isinstance(x, T) and literal(x) and numval(x) == -1]
        if any(isinstance(d, FDim) for d in arr.shape) or any(isinstance(d, FDim) for d in shape):
            a = [d for d in arr.shape if not isone(d)]
            if len(a) == 1:
                b = [d for k, d in enumerate(shape) if not isone(d)]
                if len(b) == 1:
                    tgt = tuple(a[0] if (k in neg1 or not isone(d)) else d for k, d in enumerate(shape))
                    return s.ones_view(arr, tgt)
            return I.unknown("reshape of a filtered array")
        total = ONE
        for d in arr.shape: total = mul(total, d)
        if neg1:
            other = ONE
            for k, d in enumerate(shape):
                if k not in neg1: other = mul(other, d)
            if other is ONE: q = total
            else:
                q = fn("floordiv", total, other)
                if q.op == "fn":
                    r = div(total, other)
                    if r.sort == "I": q = r
            shape[neg1[0]] = q
        t2 = ONE
        for d in shape: t2 = mul(t2, d)
        s.need_dim(total, t2)
        r = s.ones_view(arr, tuple(shape))
        if r is not None: return r
        sn = I.snap(arr)
        src = sn.shape
        def conv(ix):
            p = s.flat_index(shape, ix)
            return s.unravel(src, p)
        # common suffix/prefix dims are passed through
        m = None if sn.m is None else lambda ix: sn.m(conv(ix))
        a = I.newarr(shape, lambda ix: sn.at(conv(ix)), sn.dtype, m, ("rview", arr))
        c = I.S.heap[a.buf]
        I.S.heap[a.buf] = Content(c.shape, c.f, c.dtype, c.m, sn.bufs)
        return a
    def ones_view(s, arr, shape):
        """true view when the shapes differ only by dimensions of one"""
        a = [d for d in range(arr.ndim) if not isone(arr.shape[d])]
        b = [d for d in range(len(shape)) if not isone(shape[d])]
        if len(a) != len(b): return None
        for x, y in zip(a, b):
            p, q = arr.shape[x], shape[y]
            if p is q: continue
            if dim_eq(p, q) is not True: return None
        vmap = arr.vmap if arr.vmap is not None else tuple(("ax", d, ZERO, 1) for d in range(arr.ndim))
        mp = dict(zip(a, b))
        new = []
        for mm in vmap:
            if mm[0] == "fix": new.append(mm)
            elif mm[1] in mp: new.append(("ax", mp[mm[1]], mm[2], mm[3]))
            else: new.append(("fix", mm[2]))
        sh = [ONE] * len(shape)
        for x, y in zip(a, b): sh[y] = arr.shape[x]
        return s.simplify_view(Arr(arr.buf, sh, tuple(new), arr.tag))
    def transpose(s, arr, perm=None):
        I = s.I
        if isinstance(arr, T): return arr
        if not isinstance(arr, Arr):
            sn = s.need(arr, "transpose")
            if sn is None: return I.unknown("transpose")
            arr = s.mkarr(sn, True)
        nd = arr.ndim
        perm = perm if perm is not None else list(range(nd))[::-1]
        inv = {p: k for k, p in enumerate(perm)}
        vmap = arr.vmap if arr.vmap is not None else tuple(("ax", d, ZERO, 1) for d in range(nd))
        new = tuple(mm if mm[0] == "fix" else ("ax", inv[mm[1]], mm[2], mm[3]) for mm in vmap)
        return s.simplify_view(Arr(arr.buf, [arr.shape[p] for p in perm], new, arr.tag))
    def copyarr(s, v, dtype=None, ndmin=0):
        sn = s.need(v, "array")
        if sn is None: return s.I.unknown("array of %r" % (v,))
        dt = dtype or sn.dtype
        at = sn.at
        if dtype is not None and dtype != sn.dtype:
            src = sn.dtype
            if dtype == "float" and src == "any": at = sn.at
            else: at = lambda ix: s.cast(sn.at(ix), src, dtype)
        return s.I.newarr(sn.shape, at, dt, sn.m)
    def size(s, v):
        sn = s.snap(v)
        r = ONE
        for d in sn.shape: r = mul(r, s.expose(d))
        return r

    # ------------------------------------------------------------ reductions
    def over(s, d, f, kind):
        """reduce over one dimension: f(i) element, kind sum/any/all/max/min"""
        if isinstance(d, FDim):
            def nest(k, ix):
                if k == len(d.src):
                    p = d.pred(ix)
                    if kind == "sum": return gate(p, lambda: num_of_bool(f(tuple(ix))), lambda: ZERO)
                    if kind == "any": return and_(p, under_(p, lambda: f(tuple(ix))))
                    if kind == "max": return gate(p, lambda: f(tuple(ix)), lambda: neg(INF))
                    if kind == "min": return gate(p, lambda: f(tuple(ix)), lambda: INF)
                n = d.src[k]
                g = lambda i: nest(k + 1, ix + (i,))
                if kind == "sum": return summ(n, g)
                if kind == "any": return any_(n, g)
                return red("amax" if kind == "max" else "amin", n, g)
            return nest(0, ())
        if kind == "sum": return summ(d, f)
        if kind == "any": return any_(d, f)
        return red("amax" if kind == "max" else "amin", d, f)
    def reduce(s, v, axis, kind, keepdims=False):
        I = s.I
        sn = s.need(v, "reduction")
        if sn is None: return I.unknown("reduction")
        if axis is None: axes = list(range(sn.ndim))
        elif isinstance(axis, tuple): axes = [int(numval(x)) % sn.ndim for x in axis]
        else:
            if not literal(axis): return I.unknown("axis")
            axes = [int(numval(axis)) % max(sn.ndim, 1)]
        if sn.ndim == 0: return sn.at(()) if kind not in ("any", "all") else TM.truth(sn.at(()))
        rest = [d for d in range(sn.ndim) if d not in axes]
        def full(rix, rx):
            ix = [None] * sn.ndim
            for d, i in zip(rest, rix): ix[d] = i
            for d, i in zip(axes, rx): ix[d] = i
            return tuple(ix)
        def elem(ix):
            t = sn.at(ix)
            if sn.m is not None and kind in ("sum",): return gate(sn.mask_at(ix), lambda: ZERO, lambda: num_of_bool(sn.at(ix)))
            if sn.m is not None and kind in ("max", "min"): return gate(sn.mask_at(ix), lambda: INF if kind == "min" else neg(INF), lambda: sn.at(ix))
            if kind in ("any",): t = TM.truth(t); t = t if sn.m is None else and_(t, not_(sn.mask_at(ix)))
            if kind == "all": t = not_(TM.truth(t)); t = t if sn.m is None else and_(t, not_(sn.mask_at(ix)))
            return t
        def val(rix):
            def nest(k, rx):
                if k == len(axes): return elem(full(rix, rx))
                d = sn.shape[axes[k]]
                return s.over(d, lambda i: nest(k + 1, rx + (i,)), {"all": "any"}.get(kind, kind))
            r = nest(0, ())
            return not_(r) if kind == "all" else r
        m = None
        if sn.m is not None:
            def m(rix):
                def nest(k, rx):
                    if k == len(axes): return not_(sn.mask_at(full(rix, rx)))
                    return s.over(sn.shape[axes[k]], lambda i: nest(k + 1, rx + (i,)), "any")
                return not_(nest(0, ()))
        shape = tuple(sn.shape[d] for d in rest)
        dt = "bool" if kind in ("any", "all") else ("int" if kind == "sum" and sn.dtype in ("bool", "int") else sn.dtype)
        if keepdims is True:
            ksh = tuple(ONE if d in axes else sn.shape[d] for d in range(sn.ndim))
            return s.mkarr(Snap(ksh, lambda ix: val(tuple(ix[d] for d in rest)), dt, None if m is None else lambda ix: m(tuple(ix[d] for d in rest))))
        if not shape: return tb2(val(()))
        return I.newarr(shape, val, dt, m)
    def count(s, v, axis):
        sn = s.snap(v)
        if axis is None:
            return s.size(v)
        return s.expose(sn.shape[int(numval(axis)) % sn.ndim])
    def mean(s, v, axis, keepdims=False):
        tot = s.reduce(v, axis, "sum", keepdims)
        sn = s.snap(v)
        if sn is None: return s.I.unknown("mean")
        if sn.m is not None: return s.I.unknown("masked mean")
        return s.binop(ast.Div(), tot, s.count(v, axis))

    # ------------------------------------------------------------ linear algebra
    def dot(s, a, b):
        I = s.I
        A, B = s.need(a, "dot"), s.need(b, "dot")
        if A is None or B is None: return I.unknown("dot")
        if A.ndim == 0 or B.ndim == 0: return s.binop(ast.Mult(), a, b)
        ka = A.ndim - 1
        kb = B.ndim - 2 if B.ndim > 1 else 0
        s.need_dim(A.shape[ka], B.shape[kb])
        n = A.shape[ka]
        shape = A.shape[:ka] + B.shape[:kb] + B.shape[kb + 1:]
        na = ka
        def f(ix):
            ia, ib = ix[:na], ix[na:]
            return s.over(n, lambda k: mul(A.at(ia + (k,)), B.at(ib[:kb] + (k,) + ib[kb:])), "sum")
        return s.mkarr(Snap(shape, f, s.join_dtype([A.dtype, B.dtype])))
    def einsum(s, spec, ops):
        I = s.I
        sn = [s.snap(o) for o in ops]
        if any(x is None for x in sn) or not isinstance(spec, str) or "." in spec: return I.unknown("einsum")
        spec = spec.replace(" ", "")
        ins, out = (spec.split("->") + [None])[:2]
        ins = ins.split(",")
        if out is None:
            al = "".join(ins)
            out = "".join(c for c in sorted(set(al)) if al.count(c) == 1)
        dims = {}
        for letters, x in zip(ins, sn):
            if len(letters) != x.ndim: raise I.raise_("ValueError", "einsum")
            for c, d in zip(letters, x.shape):
                if c in dims: s.need_dim(dims[c], d)
                else: dims[c] = d
        summed = [c for c in dims if c not in out]
        def f(ix):
            env = dict(zip(out, ix))
            def nest(k, env):
                if k == len(summed):
                    r = ONE
                    for letters, x in zip(ins, sn): r = mul(r, x.at(tuple(env[c] for c in letters)))
                    return r
                return s.over(dims[summed[k]], lambda i: nest(k + 1, {**env, summed[k]: i}), "sum")
            return nest(0, env)
        return s.mkarr(Snap(tuple(dims[c] for c in out), f, s.join_dtype(x.dtype for x in sn)))
    def matkey(s, A):
        n, m = A.shape
        key_ = None
        cell = {}
        def get():
            with nofacts0():
                pass
            k = Ctx.facts
            if k not in cell: cell[k] = lam((n, m), lambda i, j: A.at((i, j)))
            return cell[k]
        return get
    def inv(s, a, kind):
        I = s.I
        A = s.need(a, "inverse")
        if A is None or A.ndim != 2: return I.unknown("inverse")
        s.need_dim(A.shape[0], A.shape[1]) if kind == "inv" else None
        I.event("solve", mat=A, rhs=None, tag=kind)
        I.opaque("inverse")
        get = s.matkey(A)
        facts = I.S.facts
        return I.newarr((A.shape[1], A.shape[0]), lambda ix: ufn(kind, get(), *ix), "float")
    def solve(s, a, b, kind):
        I = s.I
        A, B = s.need(a, "solve"), s.need(b, "solve")
        if A is None or B is None or A.ndim != 2: return I.unknown("solve")
        s.need_dim(A.shape[0], B.shape[0])
        I.event("solve", mat=A, rhs=B, tag=kind)
        I.opaque("solve")
        get = s.matkey(A)
        n = A.shape[0]
        return s.mkarr(Snap((A.shape[1],) + B.shape[1:], lambda ix: s.over(n, lambda k: mul(ufn(kind, get(), ix[0], k), B.at((k,) + ix[1:])), "sum"), "float"))
    def cdist(s, a, b, metric):
        I = s.I
        A, B = s.need(a, "cdist"), s.need(b, "cdist")
        if A is None or B is None: return I.unknown("cdist")
        if A.ndim != 2 or B.ndim != 2: raise I.raise_("ValueError", "cdist")
        s.need_dim(A.shape[1], B.shape[1])
        def f(ix):
            t = s.over(A.shape[1], lambda k: power(sub(A.at((ix[0], k)), B.at((ix[1], k))), 2), "sum")
            return s.metric(t, metric)
        if metric not in ("euclidean", "sqeuclidean"):
            f = s.other_metric(A, B, metric)
        return I.newarr((A.shape[0], B.shape[0]), f, "float")
    def metric(s, t, metric): return sqrt(t) if metric == "euclidean" else t
    def other_metric(s, A, B, metric):
        d = A.shape[1]
        if metric in ("cityblock",): return lambda ix: s.over(d, lambda k: fn("abs", sub(A.at((ix[0], k)), B.at((ix[1], k)))), "sum")
        s.I.unknown("metric %s" % (metric,))
        return lambda ix: unk("metric")
    def nonzero(s, v):
        I = s.I
        sn = s.need(v, "nonzero")
        if sn is None: return I.unknown("nonzero")
        if any(isinstance(d, FDim) for d in sn.shape): 
            return I.unknown("nonzero of filtered")
        fd = FDim(sn.shape, lambda ix: TM.truth(sn.at(tuple(ix))))
        return tuple(I.newarr((fd,), (lambda k: lambda ix: ix[0][k])(k), "int") for k in range(sn.ndim))
    def argext(s, v, axis, op):
        I = s.I
        sn = s.need(v, "arg")
        if sn is None: return I.unknown("argmin")
        if axis is None:
            if sn.ndim != 1 or isinstance(sn.shape[0], FDim): return I.unknown("argmin of nd")
            i = TM._index(sn.shape[0])
            return mkbind(op, sn.shape[0], sn.at((i,)), i, "I")
        ax = int(numval(axis)) % sn.ndim
        d = sn.shape[ax]
        if isinstance(d, FDim): return I.unknown("argmin filtered")
        def f(ix):
            i = TM._index(d)
            return mkbind(op, d, sn.at(ix[:ax] + (i,) + ix[ax:]), i, "I")
        return s.mkarr(Snap(sn.shape[:ax] + sn.shape[ax + 1:], f, "int"))

    # ------------------------------------------------------------ strings
    def sjoin(s, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr): out += list(p.parts)
            elif isinstance(p, str): out.append(p)
            else: out.append(("", p))
        res = []
        for p in out:
            if isinstance(p, str) and res and isinstance(res[-1], str): res[-1] += p
            elif p == "": continue
            else: res.append(p)
        if not res: return ""
        if len(res) == 1 and isinstance(res[0], str): return res[0]
        return SStr(res)
    def format_value(s, x, spec):
        x = s.I.resolve(x)
        if isinstance(x, str):
            try: return format(x, spec) if not spec.startswith("!r") else repr(x)
            except ValueError: raise s.I.raise_("ValueError", "format")
        if isinstance(x, SStr) and not spec: return x
        if isinstance(x, bool) or x is None:
            try: return format(x, spec) if spec else str(x)
            except (ValueError, TypeError): raise s.I.raise_("TypeError", "format")
        if isinstance(x, T) and spec:
            import textio
            t = (textio.parsespec(spec) or {}).get("type")
            if t in ("d", "x", "o", "b", "c") and x.sort == "R" and not is_num(x): raise s.I.raise_("ValueError", "format code for float")
            if t == "s": raise s.I.raise_("ValueError", "format code for number")
        if spec and isinstance(x, (Lst, Dct, tuple, Obj)): raise s.I.raise_("TypeError", "unsupported format string")
        return SStr([(spec, x)])
    def percent(s, fmt, v):
        import re
        args = list(v) if isinstance(v, tuple) else [v]
        out = []; pos = 0; k = 0
        for m in re.finditer(r"%(\(\w+\))?([-+ #0]*)(\d*|\*)(\.\d+)?([sdifgGeEr%])", fmt):
            out.append(fmt[pos:m.start()]); pos = m.end()
            if m.group(5) == "%": out.append("%"); continue
            if k >= len(args): raise s.I.raise_("TypeError", "format arguments")
            x = args[k]; k += 1
            conv = m.group(5)
            if isinstance(x, str) and conv == "s": out.append(("%" + m.group(2) + m.group(3) + "s") % x); continue
            flags = m.group(2); spec = ("<" if "-" in flags else ">" if m.group(3) else "") + ("+" if "+" in flags else "") + (m.group(3) or "") + (m.group(4) or "")
            if conv in "feEgG": spec += conv
            elif conv in "di": spec += "d"
            out.append(s.format_value(x, spec))
        out.append(fmt[pos:])
        return s.sjoin(out)
    def strformat(s, fmt, args, kw):
        import string
        out = []; auto = 0
        try: pieces = list(string.Formatter().parse(fmt))
        except ValueError: return s.I.unknown("format string")
        for lit, name, spec, conv in pieces:
            out.append(lit)
            if name is None: continue
            if name == "": x = args[auto] if auto < len(args) else None; auto += 1
            elif name.isdigit(): x = args[int(name)]
            else:
                base = name.split(".")[0].split("[")[0]
                x = kw.get(base, Unk("format field"))
            if "{" in (spec or ""): return s.I.unknown("nested format")
            out.append(s.format_value(x, spec or ""))
        return s.sjoin(out)

    def with_enter(s, v):
        v = s.I.resolve(v)
        if isinstance(v, Model) and v.info.get("enter"): return v.info["enter"]()
        return v
    def with_exit(s, out, vs=()):
        for v in vs:
            v = s.I.resolve(v)
            if isinstance(v, Model) and v.info.get("exit"):
                for S in [out.normal] + [a.S for a in out.ab]:
                    if S is not None: v.info["exit"](S)
    def array_setattr(s, o, a, v):
        if a == "shape" and isinstance(v, tuple):
            return s.I.unknown("shape assignment")
        if a == "mask":
            I = s.I; c = I.S.heap[o.buf]; f, _, _ = s.bto(v, o.shape)
            I.mutated(o)
            I.S.heap[o.buf] = Content(c.shape, c.f, c.dtype, lambda ix: TM.truth(f(ix)), c.alias); return
        s.I.unknown("array attribute store")

    # attributes and calls live in nplib2
    from nplib2 import getattr_ as getattr, call

class nofacts0:
    def __enter__(s): pass
    def __exit__(s, *a): pass
def sub_ix(x, m):
    if isinstance(x, tuple): return tuple(sub_ix(y, m) for y in x)
    return subst(x, m)
def under_(c, f):
    with TM.assume(c): return f()
def tb2(t): return t
