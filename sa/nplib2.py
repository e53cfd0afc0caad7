"""Attribute access and call models (numpy / scipy / builtins)."""
import ast
import itertools
from fractions import Fraction as F
from terms import *
import terms as TM
from values import *
from values import _Undef
import interp as IP
from interp import gate, tb, tbool, is_key, key, unkey, Dead, and0, unkb

def M(name, f, **info):
    return Model(name, lambda it, args, kw, node: f(*args, **kw), **info)
def lit(t): return isinstance(t, T) and is_num(t)
def intlit(t): return int(numval(t)) if lit(t) else None

# ------------------------------------------------------------------ attributes
ARR_METHODS = {}
def meth(*names):
    def deco(f):
        for n in names: ARR_METHODS[n] = f
        return f
    return deco
def shape_arg(s, args):
    if len(args) == 1:
        it = s.I.resolve(args[0])
        if isinstance(it, tuple): return list(it)
        if isinstance(it, Lst): return s.I.items(it)
    return list(args)

def getattr_(s, o, a):
    I = s.I
    if isinstance(o, bool): o = num(o)
    if isinstance(o, (Arr, T)):
        isT = isinstance(o, T)
        if isT and o.sort == "O":
            h = I.flags.get("oattr")
            if h:
                r = h(I, o, a)
                if r is not None: return r
        if a == "shape": return () if isT else tuple(s.expose(d) for d in o.shape)
        if a == "ndim": return ZERO if isT else num(o.ndim)
        if a == "size": return s.size(o)
        if a == "T": return s.transpose(o)
        if a == "dtype":
            k = s.snap(o).dtype
            m = Model("dtype", None, kind=k, type=TypeVal(k), str=k); m.info["name"] = {"float": "float64", "int": "int64", "single": "float32", "half": "float16"}.get(k, k)
            return m
        if a in ("real", "base", "data", "values", "array"):
            if a == "data" and not isT:
                sn = I.snap(o)
                return I.newarr(sn.shape, sn.at, sn.dtype) if sn.m is not None else o
            return o
        if a == "flat": return s.reshape(o, [num(-1)])
        if a == "mask":
            sn = s.snap(o)
            if sn.m is None: return UNDEF
            return s.mkarr(Snap(sn.shape, sn.m, "bool"))
        if a == "flags": return Unk("flags")
        f = ARR_METHODS.get(a)
        if f: return Model("." + a, lambda it, args, kw, node: f(s, o, *args, **kw))
        if isinstance(o, Arr): 
            full = s.canon("numpy." + a)
            if full in CALLS and a not in ("array", "where", "zeros", "ones", "empty", "arange", "dtype"): return Model("." + a, lambda it, args, kw, node: s.call(Lib(full), [o] + list(args), kw, node))
        return UNDEF
    if isinstance(o, str): return str_attr(s, o, a)
    if isinstance(o, SStr):
        h = I.flags.get("sstr_attr")
        if h:
            r = h(I, o, a)
            if r is not None: return r
        import textio
        r = textio.method(I, o, a)
        return UNDEF if r is None else r
    if isinstance(o, Lst): return list_attr(s, o, a)
    if isinstance(o, Dct): return dict_attr(s, o, a)
    if isinstance(o, ObjDict): return objdict_attr(s, o, a)
    if isinstance(o, tuple):
        if a == "index": return M("index", lambda x: seq_index(s, o, x))
        if a == "count": return M("count", lambda x: I.unknown("count"))
        return UNDEF
    if isinstance(o, Lib): return s.lib_attr(o, a)
    if isinstance(o, TypeVal):
        if a == "__name__": return o.name
        if o.name == "dict" and a == "fromkeys": return M("fromkeys", lambda ks, v=None: I.newdict({key(k): v for k in I.items(ks)}))
        if o.name == "str" and a in ("lower", "upper", "strip", "join"): return M(a, lambda x, *r: I.call(getattr_(s, x, a), list(r), {}, I.node))
        if o.name == "object" and a == "__setattr__": return M("osa", lambda x, k, v: I.setattr(x, k, v))
        if o.name == "object" and a == "__init__": return M("oi", lambda *x, **k: None)
        return UNDEF
    if isinstance(o, Exc):
        if a == "args": return tuple(o.args)
        if a == "message": return UNDEF
        return UNDEF
    if isinstance(o, Model): return o.info.get(a, UNDEF)
    if isinstance(o, (SymRange,)):
        return {"start": o.lo, "stop": o.hi, "step": num(o.step)}.get(a, UNDEF)
    if isinstance(o, Snap): return UNDEF
    return UNDEF

@meth("astype")
def _astype(s, o, dtype=None, copy=True, **k):
    d = s.dtype(s.I.resolve(dtype))
    if isinstance(o, T): return s.cast(o, s.snap(o).dtype, d) if d else o
    if d is None:
        return s.I.unknown("astype %r" % (dtype,)) if not (isinstance(dtype, TypeVal) and dtype.name == "str") else s.copyarr(o)
    return s.copyarr(o, d)
@meth("copy")
def _copy(s, o, *a, **k): return o if isinstance(o, T) else s.copyarr(o)
@meth("flatten")
def _flatten(s, o, order="C"):
    r = s.reshape(o, [num(-1)], order)
    return s.copyarr(r) if isinstance(r, Arr) else r
@meth("ravel")
def _ravel(s, o, order="C"): return s.reshape(o, [num(-1)], order)
@meth("reshape")
def _reshape(s, o, *a, order="C", shape=None, **k):
    if shape is not None: a = (shape,)
    return s.reshape(o, shape_arg(s, a), order)
@meth("transpose")
def _transpose(s, o, *a, axes=None):
    if axes is not None: a = (axes,)
    if not a or a[0] is None: return s.transpose(o)
    return s.transpose(o, [int(numval(x)) % o.ndim for x in shape_arg(s, a)])
@meth("swapaxes")
def _swapaxes(s, o, i, j):
    p = list(range(o.ndim)); i, j = int(numval(i)) % o.ndim, int(numval(j)) % o.ndim
    p[i], p[j] = p[j], p[i]
    return s.transpose(o, p)
@meth("squeeze")
def _squeeze(s, o, axis=None):
    if isinstance(o, T): return o
    if axis is not None:
        ax = [int(numval(x)) % o.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
        sh = tuple(d for k, d in enumerate(o.shape) if k not in ax)
    else: sh = tuple(d for d in o.shape if not (isinstance(d, T) and d is ONE))
    r = s.ones_view(o, sh)
    if r is None: raise s.I.raise_("ValueError", "squeeze")
    return r if r.shape else s.I.snap(r).at(())
def red_m(kind):
    def f(s, o, axis=None, dtype=None, out=None, keepdims=False, **k): return s.reduce(o, s.I.resolve(axis), kind, keepdims)
    return f
for _n, _k in (("sum", "sum"), ("any", "any"), ("all", "all"), ("max", "max"), ("min", "min")): ARR_METHODS[_n] = red_m(_k)
@meth("mean")
def _mean(s, o, axis=None, dtype=None, out=None, keepdims=False): return s.mean(o, s.I.resolve(axis), keepdims)
@meth("dot")
def _dot(s, o, b, out=None): return s.dot(o, b)
@meth("tolist")
def _tolist(s, o, fill=None):
    I = s.I
    if isinstance(o, T): return o
    if fill is not None or (isinstance(o, Arr) and I.snap(o).m is not None):
        if fill is None: return I.unknown("tolist of a masked array")
        o = _filled(s, o, fill)
    it = I.items(o)
    if it is not None: return I.newlist([_tolist(s, x) if isinstance(x, Arr) else x for x in it])
    if o.ndim == 1 and isinstance(o.shape[0], T):
        sn = I.snap(o); l = Lst("list"); I.S.heap[l.oid] = SymL(o.shape[0], lambda k: sn.at((k,))); return l
    return I.unknown("tolist")
@meth("item")
def _item(s, o, *a):
    if isinstance(o, T): return o
    sn = s.I.snap(o)
    if not a: return sn.at(tuple(ZERO for _ in o.shape))
    return s.getitem(o, a if len(a) > 1 else a[0])
@meth("fill")
def _fill(s, o, v): s.store_all(o, v)
@meth("nonzero")
def _nonzero(s, o): return s.nonzero(o)
@meth("argsort")
def _argsort(s, o, axis=num(-1), **k): return argsort(s, o, axis)
@meth("argmax")
def _argmax(s, o, axis=None, **k): return s.argext(o, s.I.resolve(axis), "argmax")
@meth("argmin")
def _argmin(s, o, axis=None, **k): return s.argext(o, s.I.resolve(axis), "argmin")
@meth("repeat")
def _repeat(s, o, n, axis=None): return repeat(s, o, n, axis)
@meth("filled")
def _filled(s, o, v=None):
    sn = s.snap(o)
    if sn.m is None: return s.mkarr(Snap(sn.shape, sn.at, sn.dtype))
    if v is None: v = sym("fill_value_of_the_masked_array", "R")
    f, dt, _ = s.bto(v, sn.shape)
    return s.mkarr(Snap(sn.shape, lambda ix: gate(sn.mask_at(ix), lambda: f(ix), lambda: sn.at(ix)), sn.dtype))
@meth("clip")
def _clip(s, o, lo=None, hi=None, **k):
    r = o
    if lo is not None: r = s.emap(lambda x, y: fn("max2", x, y), r, lo)
    if hi is not None: r = s.emap(lambda x, y: fn("min2", x, y), r, hi)
    return r
@meth("round")
def _round(s, o, d=ZERO, **k):
    if d is ZERO: return s.emap(lambda x: fn("rint", x), o)
    return s.emap(lambda x, y: ufn("round", x, y), o, d)
@meth("is_integer")
def _is_integer(s, o): return tbool(eq(fn("floor", o), o))
@meth("prod")
def _prod(s, o, axis=None, **k): return s.I.unknown("prod")
@meth("tofile", "tobytes", "view", "std", "var", "sort", "put", "resize", "setflags", "__array__")
def _um(s, o, *a, **k):
    return s.I.unknown("array method")
@meth("take")
def _take(s, o, idx, axis=None, **k):
    if axis is None: return s.getitem(s.reshape(o, [num(-1)]) if o.ndim > 1 else o, idx)
    ax = int(numval(axis)) % o.ndim
    return s.getitem(o, (Slice(None, None, None),) * ax + (idx,))
@meth("cumsum")
def _cumsum(s, o, axis=None, **k):
    sn = s.snap(o)
    if sn.ndim != 1 or isinstance(sn.shape[0], FDim): return s.I.unknown("cumsum")
    return s.mkarr(Snap(sn.shape, lambda ix: summ(add(ix[0], ONE), lambda k: sn.at((k,))), sn.dtype))
@meth("diagonal")
def _diagm(s, o, **k):
    sn = s.snap(o)
    return s.mkarr(Snap((sn.shape[0],), lambda ix: sn.at((ix[0], ix[0])), sn.dtype))

def str_attr(s, o, a):
    I = s.I
    if a == "format": return Model("format", lambda it, args, kw, node: s.strformat(o, [I.resolve(x) for x in args], kw))
    if a == "join":
        def j(it):
            items = I.items(it)
            if items is None:
                it = I.resolve(it)
                if isinstance(it, Lst) and isinstance(I.S.heap[it.oid], SymL):
                    c = I.S.heap[it.oid]; return SStr([("join", (o, c.n, c.f))])
                return I.unknown("join")
            out = []
            for k, x in enumerate(items):
                if k: out.append(o)
                out.append(x)
            return s.sjoin(out)
        return M("join", j)
    if hasattr(str, a):
        def call(it, args, kw, node):
            args = [I.resolve(x) for x in args]
            conc = []
            for x in args:
                if isinstance(x, str) or x is None or isinstance(x, bool): conc.append(x)
                elif lit(x): conc.append(int(numval(x)))
                elif isinstance(x, tuple) and all(isinstance(y, str) for y in x): conc.append(x)
                else: return it.unknown("string method")
            try: r = getattr(o, a)(*conc)
            except Exception as e: raise it.raise_(type(e).__name__)
            if isinstance(r, bool) or isinstance(r, str): return r
            if isinstance(r, int): return num(r)
            if isinstance(r, list): return it.newlist(r)
            if isinstance(r, tuple): return r
            return it.unknown("string method")
        return Model("str." + a, call)
    return UNDEF
def seq_index(s, seq, x):
    for k, y in enumerate(seq):
        r = s.I.equal(y, x)
        if r is True: return num(k)
        if r is not False: return s.I.unknown("index")
    raise s.I.raise_("ValueError", "not in list")
def list_attr(s, o, a):
    I = s.I
    from loops import LoopL
    def content(): return I.S.heap[o.oid]
    def put(c): I.mutated(o); I.S.heap[o.oid] = c
    def app(x):
        c = content()
        if isinstance(c, tuple) and c[:1] != ("?choice",): put(c + (x,))
        elif isinstance(c, LoopL): put(LoopL(c.base, c.added + (x,)))
        elif isinstance(c, SymL): put(SymL(add(c.n, ONE), lambda k: I.merge_val(simp_bool(eq(k, c.n)), x, c.f(k)) if not (k is c.n) else x))
        else: I.unknown("append"); put(SymL(unk("append"), lambda k: Unk("append")))
    if o.kind == "set":
        if a == "add": return M("add", lambda x: None if I.contains(o, x) is True else app(x))
        if a in ("union", "intersection", "difference", "issubset"):
            def setop(*oth):
                it = I.items(o)
                for y in oth:
                    b = I.items(y)
                    if it is None or b is None: return I.unknown("set operation")
                    if a == "union":
                        it = it + [x for x in b if not any(I.equal(x, z) is True for z in it)]
                    elif a == "intersection": it = [x for x in it if any(I.equal(x, z) is True for z in b)]
                    elif a == "difference": it = [x for x in it if not any(I.equal(x, z) is True for z in b)]
                    else: return all(any(I.equal(x, z) is True for z in b) for x in it)
                return I.newlist(it, "set")
            return M(a, setop)
    if a == "append": return M("append", app)
    if a == "extend": return M("extend", lambda x: I.list_extend(o, x))
    if a == "copy":
        def cp():
            l = Lst(o.kind); I.S.heap[l.oid] = content(); return l
        return M("copy", cp)
    if a == "index": return M("index", lambda x: seq_index(s, I.items(o) or (), x))
    if a == "insert":
        def ins(k, x):
            c = content()
            if isinstance(c, tuple) and lit(k): l = list(c); l.insert(intlit(k), x); put(tuple(l))
            else: I.unknown("insert"); put(SymL(unk("insert"), lambda k: Unk("insert")))
        return M("insert", ins)
    if a == "pop":
        def pop(k=num(-1)):
            c = content()
            if isinstance(c, tuple) and lit(k) and c[:1] != ("?choice",):
                l = list(c)
                if not l: raise I.raise_("IndexError", "pop")
                x = l.pop(intlit(k)); put(tuple(l)); return x
            return I.unknown("pop")
        return M("pop", pop)
    if a == "reverse": return M("reverse", lambda: put(tuple(reversed(content()))))
    if a == "clear": return M("clear", lambda: put(()))
    if a in ("sort", "remove", "count"): return Model(a, lambda it, args, kw, node: (put(SymL(unk(a), lambda k: Unk(a))), it.unknown("list." + a))[1])
    return UNDEF
def dict_attr(s, o, a):
    I = s.I
    def d(): return I.S.heap[o.oid]
    def val(v):
        v = I.resolve(v)
        return v
    if a == "keys": return M("keys", lambda: Model("dictview", None, items=lambda: [unkey(k) for k in d()], dict=o))
    if a == "values": return M("values", lambda: Model("dictview", None, items=lambda: [val(v) for v in d().values()], dict=o))
    if a == "items": return M("items", lambda: Model("dictview", None, items=lambda: [(unkey(k), val(v)) for k, v in d().items()], dict=o))
    if a == "get":
        def get(k, dflt=None):
            if not is_key(k): return I.unknown("dict.get")
            v = I.resolve(d().get(key(k), UNDEF))
            if isinstance(v, _Undef): return dflt
            if isinstance(v, Choice) and isinstance(v.b, _Undef): return I.merge_val(v.c, v.a, dflt)
            if isinstance(v, Choice) and isinstance(v.a, _Undef): return I.merge_val(v.c, dflt, v.b)
            return v
        return M("get", get)
    if a == "copy": return M("copy", lambda: I.newdict(d()))
    if a == "update":
        def up(*x, **kw):
            I.mutated(o)
            n = dict(d())
            for y in x:
                y = I.resolve(y)
                if isinstance(y, Dct): n.update(I.S.heap[y.oid])
                elif isinstance(y, ObjDict): n.update(I.S.heap[y.obj.oid])
                else: I.unknown("dict.update")
            n.update(kw); I.S.heap[o.oid] = n
        return Model("update", lambda it, args, kw, node: up(*args, **kw))
    if a == "pop":
        def pop(k, *dflt):
            I.mutated(o)
            n = dict(d())
            if is_key(k) and key(k) in n:
                v = n.pop(key(k)); I.S.heap[o.oid] = n; return I.resolve(v)
            if dflt: return dflt[0]
            raise I.raise_("KeyError", k)
        return M("pop", pop)
    if a == "setdefault":
        def sd(k, v=None):
            if is_key(k) and key(k) in d(): return I.resolve(d()[key(k)])
            s.setitem(o, k, v); return v
        return M("setdefault", sd)
    if a == "clear":
        def clr(): I.mutated(o); I.S.heap[o.oid] = {}
        return M("clear", clr)
    return UNDEF
def objdict_attr(s, o, a):
    I = s.I
    def d(): return I.S.heap[o.obj.oid]
    if a == "copy": return M("copy", lambda: I.newdict(d()))
    if a in ("keys", "values", "items", "get"):
        x = I.newdict(d()); return dict_attr(s, x, a)
    if a == "clear":
        def clr():
            for k in d(): I.event("setattr", oid=o.obj.oid, attr=k, input=I.inputs.get(o.obj.oid))
            I.S.heap[o.obj.oid] = {}
        return M("clear", clr)
    if a == "update":
        def up(*x, **kw):
            n = dict(d())
            for y in x:
                y = I.resolve(y)
                if isinstance(y, Dct): n.update(I.S.heap[y.oid])
                elif isinstance(y, ObjDict): n.update(I.S.heap[y.obj.oid])
                else: I.unknown("__dict__.update")
            n.update(kw)
            for k in n: I.event("setattr", oid=o.obj.oid, attr=k, input=I.inputs.get(o.obj.oid))
            I.S.heap[o.obj.oid] = n
        return Model("update", lambda it, args, kw, node: up(*args, **kw))
    if a == "pop":
        def pop(k, *dflt):
            n = dict(d())
            if k in n: v = n.pop(k); I.S.heap[o.obj.oid] = n; return v
            if dflt: return dflt[0]
            raise I.raise_("KeyError", k)
        return M("pop", pop)
    return UNDEF

# ------------------------------------------------------------------ calls
CALLS = {}
def lib(*names):
    def deco(f):
        for n in names: CALLS[n] = f
        return f
    return deco
def tr(c):
    return tbool(c) if isinstance(c, T) and c.sort == "B" else c

def call(s, f, args, kw, node=None):
    I = s.I
    if any(isinstance(a, Lst) and a.kind == "iter" for a in args) and isinstance(f, (TypeVal, Lib)) and f.name.split(".")[-1] not in ("next", "iter", "isinstance", "type", "id", "len", "callable"):
        # an iterator is used up by what reads it
        new = []
        for a in args:
            if isinstance(a, Lst) and a.kind == "iter" and isinstance(I.S.heap.get(a.oid), tuple):
                c = I.S.heap[a.oid]; I.S.heap[a.oid] = ()
                a = I.newlist(list(c))
            new.append(a)
        args = new
    if isinstance(f, TypeVal): return typecall(s, f, args, kw)
    if isinstance(f, Lib):
        name = s.canon(f.name)
        hook = I.flags.get("lib_call")
        if hook:
            r = hook(I, name, args, kw, node)
            if r is not NotImplemented: return r
        short = name[6:] if name.startswith("numpy.") else name[5:] if name.startswith("math.") else None
        g = CALLS.get(name)
        if g is None and name.startswith("math.") and "numpy." + short in CALLS: g = CALLS["numpy." + short]
        if g is None and name.startswith("numpy.ma.") and "numpy." + name[9:] in CALLS: g = CALLS["numpy." + name[9:]]
        if g is None and name.startswith("builtins."): g = CALLS.get(name[9:])
        if g is not None:
            try: return g(s, *args, **kw)
            except TypeError as e:
                if "argument" in str(e) and g.__name__ in str(e):
                    return I.unknown("arguments of %s" % name)
                raise
        if short in UF1L: return s.emap(UF1L[short], args[0], dtype="float" if short not in ("sign",) else None)
        if name.startswith(("warnings.", "matplotlib", "logging")):
            I.event("warn" if name.startswith("warnings") else "plot" if name.startswith("matplotlib") else "log", name=name); return Unk(name) if not name.startswith("warnings") else None
        if name.startswith(("random", "numpy.random", "time.", "datetime", "os.environ", "os.getenv", "secrets", "uuid")): I.event("impure", name=name)
        I.event("lib-call", name=name)
        return I.unknown("call of " + name)
    if isinstance(f, T):
        if f.sort == "O": return I.unknown("call of opaque object")
        raise I.raise_("TypeError", "not callable")
    if f is None or isinstance(f, (str, tuple, Arr, Lst, Dct)): raise I.raise_("TypeError", "not callable")
    return I.unknown("call of %r" % (f,))
def sgn(x):
    if x.sort == "B": x = num_of_bool(x)
    return ite(gt(x, ZERO), ONE, ite(lt(x, ZERO), num(-1), ZERO))
UF1L = {n: (lambda n: lambda x: s_fn(n, x))(n) for n in ("exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "arcsin", "arccos", "arctan", "floor", "ceil", "trunc", "rint")}
def s_fn(n, x): return fn(n, x)
UF1L["sign"] = sgn
UF1L["sqrt"] = lambda x: sqrt(x)
UF1L["square"] = lambda x: power(x, 2)
UF1L["abs"] = lambda x: fn("abs", x)
UF1L["negative"] = neg
UF1L["positive"] = lambda x: x
UF1L["reciprocal"] = lambda x: div(ONE, x)
UF1L["deg2rad"] = lambda x: mul(x, div(PI, num(180)))
UF1L["rad2deg"] = lambda x: mul(x, div(num(180), PI))
UF1L["log10"] = lambda x: div(fn("log", x), fn("log", num(10)))
UF1L["log2"] = lambda x: div(fn("log", x), fn("log", num(2)))
UF1L["log1p"] = lambda x: fn("log", add(x, ONE))
UF1L["expm1"] = lambda x: sub(fn("exp", x), ONE)
UF1L["cbrt"] = lambda x: TM.powt(x, num(F(1, 3)))
UF1L["isnan"] = lambda x: NPm.isnan_t(x)
UF1L["isinf"] = lambda x: NPm.isinf_t(x)
UF1L["isfinite"] = lambda x: not_(or_(NPm.isnan_t(x), NPm.isinf_t(x)))
UF1L["logical_not"] = lambda x: not_(TM.truth(x))
UF1L["nan_to_num"] = lambda x: ite(NPm.isnan_t(x), ZERO, x)
import sys
class _L:
    def __getattr__(self, k): return getattr(sys.modules["nplib"], k)
NPm = _L()
UF2 = {"add": add, "subtract": sub, "multiply": mul, "maximum": lambda x, y: fn("max2", x, y), "minimum": lambda x, y: fn("min2", x, y),
    "fmax": lambda x, y: fn("max2", x, y), "fmin": lambda x, y: fn("min2", x, y),
    "hypot": lambda x, y: sqrt(add(power(x, 2), power(y, 2))), "arctan2": lambda x, y: fn("arctan2", x, y),
    "less": lt, "less_equal": le, "greater": lambda x, y: lt(y, x), "greater_equal": lambda x, y: le(y, x),
    "equal": eq, "not_equal": lambda x, y: not_(eq(x, y)), "logical_and": lambda x, y: and_(TM.truth(x), TM.truth(y)),
    "logical_or": lambda x, y: or_(TM.truth(x), TM.truth(y)), "logical_xor": lambda x, y: not_(eq(TM.truth(x), TM.truth(y))),
    "mod": lambda x, y: fn("mod", x, y), "remainder": lambda x, y: fn("mod", x, y), "floor_divide": lambda x, y: fn("floordiv", x, y), "fmod": lambda x, y: fn("mod", x, y)}
BOOLU = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_xor", "isnan", "isinf", "isfinite", "logical_not"}
def mku(n, f, k):
    def g(s, *a, out=None, where=None, dtype=None, **kw):
        where = s.I.resolve(where)
        if where is True: where = None
        r = s.emap(f, *a[:k], dtype="bool" if n in BOOLU else "float" if n in ("divide", "sqrt", "deg2rad", "rad2deg", "exp", "log", "sin", "cos") else None)
        o = out if out is not None else (a[k] if len(a) > k else None)
        if isinstance(o, tuple): o = o[0]
        o = s.I.resolve(o)
        if where is not None:
            # only the selected elements are computed; the others keep what out held, or are left uninitialised
            if o is not None and not isinstance(o, Arr): return s.I.unknown("ufunc out")
            w = where if isinstance(where, T) else s.need(where, "where")
            if w is None: return s.I.unknown("ufunc where")
            if o is None: return s.emap(lambda c, x: ite(TM.truth(c), x, unk("element not selected by where")), where, r)
            r = s.emap(lambda c, x, y: ite(TM.truth(c), x, y), where, r, o)
        if o is not None:
            if isinstance(o, Arr): s.store_all(o, r); return o
            return s.I.unknown("ufunc out")
        return tr(r)
    g.__name__ = n
    return g
for _n, _f in list(UF1L.items()): CALLS["numpy." + _n] = mku(_n, _f, 1)
for _n, _f in UF2.items(): CALLS["numpy." + _n] = mku(_n, _f, 2)
CALLS["numpy.divide"] = mku("divide", lambda x, y: x if y is ONE else sys.modules["nplib"].NP.divide(None, x, y) if False else _divide(x, y), 2)
def _divide(x, y):
    if y.op == "ite" and (is_num(y.a[1]) or is_num(y.a[2])): return ite(y.a[0], _divide(x, y.a[1]), _divide(x, y.a[2]))
    return div(x, y)
CALLS["numpy.power"] = mku("power", lambda x, y: TM.powt(num_of_bool(x), num_of_bool(y)), 2)

@lib("numpy.array", "numpy.ma.array0")
def c_array(s, v, dtype=None, copy=True, order=None, ndmin=None, subok=None, **k):
    d = s.dtype(s.I.resolve(dtype))
    r = s.copyarr(v, d)
    if isinstance(r, Arr) and ndmin is not None:
        while r.ndim < intlit(ndmin): r = s.getitem(r, (None, NPm.ELL))
    return r if not (isinstance(r, Arr) and r.ndim == 0) else r
@lib("numpy.asarray")
def c_asarray(s, v, dtype=None, order=None, **k):
    v = s.I.resolve(v)
    d = s.dtype(s.I.resolve(dtype))
    if isinstance(v, Arr):
        c = s.I.snap(v)
        if d is None or c.dtype == d: return v
    if isinstance(v, T): return v if d is None else s.cast(v, s.snap(v).dtype, d)
    return s.copyarr(v, d)
@lib("numpy.copy")
def c_copy(s, v, **k): return s.copyarr(v)
@lib("numpy.atleast_1d")
def c_atl1(s, *vs):
    out = []
    for v in vs:
        v = s.I.resolve(v)
        if not isinstance(v, Arr): v = s.copyarr(v)
        if not isinstance(v, Arr): out.append(v); continue
        out.append(v if v.ndim >= 1 else s.ones_view(v, (ONE,)))
    return out[0] if len(out) == 1 else s.I.newlist(out)
@lib("numpy.atleast_2d")
def c_atl2(s, v):
    v = s.I.resolve(v)
    if not isinstance(v, Arr): v = s.copyarr(v)
    if not isinstance(v, Arr) or v.ndim >= 2: return v
    return s.ones_view(v, (ONE,) * (2 - v.ndim) + tuple(v.shape))
@lib("numpy.squeeze")
def c_squeeze(s, v, axis=None):
    v = s.I.resolve(v)
    if not isinstance(v, Arr): v = s.copyarr(v)
    return _squeeze(s, v, axis) if isinstance(v, (Arr, T)) else v
@lib("numpy.expand_dims")
def c_expand(s, v, axis):
    v = c_asarray(s, v)
    if isinstance(v, T): return s.getitem(s.copyarr(v), (None,))
    k = intlit(axis); k = k if k >= 0 else v.ndim + 1 + k
    return s.getitem(v, (Slice(None, None, None),) * k + (None,))
def shp(s, v):
    v = s.I.resolve(v)
    if isinstance(v, T): return (s.dim(v),)
    it = s.I.items(v)
    if it is None: return None
    return tuple(s.dim(x) for x in it)
def const_arr(s, shape, val, dtype, default="float"):
    sh = shp(s, shape)
    if sh is None or any(not isinstance(x, (T, FDim)) for x in sh): return s.I.unknown("array shape")
    d = s.dtype(s.I.resolve(dtype)) or default
    v = s.I.resolve(val)
    f, dt, _ = s.bto(v, sh)
    return s.I.newarr(sh, lambda ix: s.cast(f(ix), dt, d), d)
@lib("numpy.zeros", "numpy.ma.zeros")
def c_zeros(s, shape, dtype=None, order=None): return const_arr(s, shape, ZERO, dtype)
@lib("numpy.ones")
def c_ones(s, shape, dtype=None, order=None): return const_arr(s, shape, ONE, dtype)
@lib("numpy.empty")
def c_empty(s, shape, dtype=None, order=None):
    sh = shp(s, shape)
    if sh is None: return s.I.unknown("shape")
    o = "uninit:%d" % new_oid()
    d = s.dtype(s.I.resolve(dtype)) or "float"
    from loops import flat
    return s.I.newarr(sh, lambda ix: ufn(o, *flat(ix), sort={"bool": "B", "int": "I"}.get(d, "R")), d)
@lib("numpy.full")
def c_full(s, shape, v, dtype=None, order=None): return const_arr(s, shape, v, dtype, s.snap(v).dtype if s.snap(v) else "float")
def like(val):
    def f(s, o, dtype=None, fill_value=None, **k):
        sn = s.need(o, "like")
        if sn is None: return s.I.unknown("like")
        return const_arr(s, sn.shape, val, dtype, sn.dtype if sn.dtype != "any" else "any") if sn.shape else val
    return f
CALLS["numpy.zeros_like"] = like(ZERO); CALLS["numpy.ones_like"] = like(ONE)
@lib("numpy.empty_like")
def c_empty_like(s, o, dtype=None, **k):
    sn = s.need(o, "like")
    return c_empty(s, sn.shape, dtype or sn.dtype) if sn else s.I.unknown("like")
@lib("numpy.full_like")
def c_full_like(s, o, v, dtype=None, **k):
    sn = s.need(o, "like")
    return const_arr(s, sn.shape, v, dtype, sn.dtype) if sn else s.I.unknown("like")
@lib("numpy.eye", "numpy.identity")
def c_eye(s, n, m=None, dtype=None, **k):
    return s.I.newarr((n, m if m is not None else n), lambda ix: num_of_bool(eq(ix[0], ix[1])), s.dtype(dtype) or "float")
@lib("numpy.arange")
def c_arange(s, a, b=None, step=None, dtype=None):
    lo, hi = (ZERO, a) if b is None else (a, b)
    st = ONE if step is None else step
    if not all(isinstance(x, T) for x in (lo, hi, st)): return s.I.unknown("arange")
    ints = all(x.sort == "I" for x in (lo, hi, st))
    if not ints:
        if is_num(st):
            n = fn("ceil", div(sub(hi, lo), st))
        else:
            n = ufn("arange_len", lo, hi, st, sort="I")
            q = div(sub(hi, lo), st)
            if q.sort == "I": n = ufn("arange_len", lo, hi, st, sort="I")   # rounding decides the count
    elif is_num(st) and abs(numval(st)) == 1: n = scale(sub(hi, lo), numval(st))
    else: n = fn("floordiv", sub(add(hi, st), add(lo, ONE)), st)
    if is_num(n) and numval(n) < 0: n = ZERO
    return s.I.newarr((s.dim(n),), lambda ix: add(lo, mul(st, ix[0])), "int" if ints else "float")
@lib("numpy.linspace")
def c_linspace(s, a, b, num_=num(50), endpoint=True, num=None, **k):
    n = num if num is not None else num_
    if s.isarr(a) or s.isarr(b): return s.I.unknown("linspace of arrays")
    d = sub(n, ONE) if endpoint is True else n
    if isinstance(n, T) and k.get("retstep") is None:
        return s.I.newarr((s.dim(n),), lambda ix: add(a, mul(sub(b, a), div(ix[0], d))), "float")
    return s.I.unknown("linspace")
def seqsnaps(s, v):
    items = s.I.items(v)
    if items is None: return None
    out = [s.snap(x) for x in items]
    return None if any(x is None for x in out) else out
def up(s, sn, nd, front=True):
    while sn.ndim < nd:
        o = sn
        sn = Snap((ONE,) + o.shape, (lambda o: lambda ix: o.at(ix[1:]))(o), o.dtype, None if o.m is None else (lambda o: lambda ix: o.m(ix[1:]))(o))
    return sn
@lib("numpy.vstack", "numpy.row_stack")
def c_vstack(s, v, **k):
    sn = seqsnaps(s, v)
    if sn is None: return s.I.unknown("vstack")
    return s.mkarr(s.concat([up(s, x, 2) for x in sn], 0))
@lib("numpy.hstack")
def c_hstack(s, v, **k):
    sn = seqsnaps(s, v)
    if sn is None: return s.I.unknown("hstack")
    sn = [up(s, x, 1) for x in sn]
    return s.mkarr(s.concat(sn, 0 if sn[0].ndim == 1 else 1))
@lib("numpy.column_stack")
def c_column(s, v):
    sn = seqsnaps(s, v)
    if sn is None:
        a = s.snap(v)
        if a is not None and a.ndim == 2: return s.transpose(s.mkarr(a))
        return s.I.unknown("column_stack")
    out = []
    for x in sn:
        if x.ndim == 1: x = Snap((x.shape[0], ONE), (lambda x: lambda ix: x.at((ix[0],)))(x), x.dtype)
        elif x.ndim == 0: x = Snap((ONE, ONE), (lambda x: lambda ix: x.at(()))(x), x.dtype)
        out.append(x)
    return s.mkarr(s.concat(out, 1))
@lib("numpy.stack")
def c_stack(s, v, axis=ZERO, **k):
    sn = seqsnaps(s, v)
    if sn is None: return s.I.unknown("stack")
    r = s.stack(sn, intlit(axis))
    return s.mkarr(r) if r is not None else s.I.unknown("stack")
@lib("numpy.dstack")
def c_dstack(s, v):
    sn = seqsnaps(s, v)
    if sn is None: return s.I.unknown("dstack")
    return c_stack(s, v, num(2)) if sn[0].ndim == 2 else s.I.unknown("dstack")
@lib("numpy.concatenate", "numpy.ma.concatenate")
def c_concat(s, v, axis=ZERO, **k):
    sn = seqsnaps(s, v)
    if sn is None: return s.I.unknown("concatenate")
    if axis is None: return s.I.unknown("concatenate flat")
    return s.mkarr(s.concat(sn, intlit(axis)))
@lib("numpy.append")
def c_append(s, a, b, axis=None):
    sa, sb = s.need(a, "append"), s.need(b, "append")
    if sa is None or sb is None: return s.I.unknown("append")
    if axis is None: return s.mkarr(s.concat([up(s, sa, 1), up(s, sb, 1)], 0))
    return s.mkarr(s.concat([sa, sb], intlit(axis)))
@lib("numpy.meshgrid")
def c_meshgrid(s, *vs, indexing="xy", sparse=False, copy=True):
    sn = [s.need(v, "meshgrid") for v in vs]
    if any(x is None for x in sn): return s.I.unknown("meshgrid")
    sn = [up(s, x, 1) for x in sn]
    if any(x.ndim != 1 for x in sn):
        sn = [s.I.snap(s.reshape(s.mkarr(x), [num(-1)])) if x.ndim > 1 else x for x in sn]
    n = len(sn)
    order = list(range(n))
    if indexing == "xy" and n >= 2: order[0], order[1] = 1, 0
    pos = {v: k for k, v in enumerate(order)}      # variable v runs along axis pos[v]
    shape = tuple(sn[v].shape[0] for v in order)
    out = []
    for v in range(n):
        ax = pos[v]
        sh = tuple(d if (k == ax or sparse is not True) else ONE for k, d in enumerate(shape))
        out.append(s.I.newarr(sh, (lambda x, ax: lambda ix: x.at((ix[ax],)))(sn[v], ax), sn[v].dtype))
    return s.I.newlist(out)
@lib("numpy.indices")
def c_indices(s, shape, dtype=None, sparse=False):
    sh = shp(s, shape)
    if sparse is True or sh is None: return s.I.unknown("indices")
    return s.I.newarr((num(len(sh)),) + sh, lambda ix: s.pickk(ix[0], [(lambda k=k: ix[1 + k]) for k in range(len(sh))]), "int")
@lib("numpy.mgrid", "numpy.ix_", "numpy.ogrid")
def c_unk(s, *a, **k): return s.I.unknown("mgrid/ix_")
@lib("numpy.ix_")
def c_ix(s, *vs):
    sn = [s.snap(v) for v in vs]
    n = len(sn); out = []
    for k, x in enumerate(sn):
        if x is None or x.ndim != 1 or x.dtype == "bool": return s.I.unknown("ix_")
        out.append(s.I.newarr(tuple(x.shape[0] if j == k else ONE for j in range(n)), (lambda x, k: lambda ix: x.at((ix[k],)))(x, k), x.dtype))
    return tuple(out)
@lib("numpy.tile")
def c_tile(s, v, reps):
    sn = s.need(v, "tile")
    r = s.I.resolve(reps)
    r = [r] if isinstance(r, T) else s.I.items(r)
    if sn is None or r is None: return s.I.unknown("tile")
    nd = max(sn.ndim, len(r)); sn = up(s, sn, nd); r = [ONE] * (nd - len(r)) + r
    shape = []
    for d, k in zip(sn.shape, r):
        if isinstance(d, FDim) and k is not ONE: return s.I.unknown("tile filtered")
        shape.append(k if isone_(d) else (d if isone_(k) else mul(d, k)))
    def f(ix):
        out = []
        for i, d, k in zip(ix, sn.shape, r):
            out.append(ZERO if isone_(d) else i if isone_(k) else fn("mod", i, d))
        return sn.at(tuple(out))
    return s.mkarr(Snap(shape, f, sn.dtype))
def isone_(d): return isinstance(d, T) and d is ONE
def repeat(s, v, n, axis=None):
    sn = s.need(v, "repeat")
    n = s.I.resolve(n)
    if sn is None or not isinstance(n, T): return s.I.unknown("repeat")
    if axis is None:
        if sn.ndim > 1: sn = s.snap(s.reshape(s.mkarr(sn), [num(-1)]))
        sn = up(s, sn, 1); ax = 0
    else: ax = intlit(axis) % sn.ndim
    d = sn.shape[ax]
    if isinstance(d, FDim): return s.I.unknown("repeat filtered")
    sh = sn.shape[:ax] + (n if isone_(d) else mul(d, n),) + sn.shape[ax + 1:]
    return s.mkarr(Snap(sh, lambda ix: sn.at(ix[:ax] + (ZERO if isone_(d) else fn("floordiv", ix[ax], n),) + ix[ax + 1:]), sn.dtype))
CALLS["numpy.repeat"] = repeat
@lib("numpy.broadcast_to")
def c_bto(s, v, shape, **k):
    sh = shp(s, shape)
    f, dt, _ = s.bto(v, sh)
    return s.I.newarr(sh, f, dt)
@lib("numpy.transpose")
def c_transpose(s, v, axes=None):
    if axes is not None: return _transpose(s, c_asarray(s, v), axes)
    return s.transpose(c_asarray(s, v))
@lib("numpy.swapaxes")
def c_swap(s, v, i, j): return _swapaxes(s, c_asarray(s, v), i, j)
@lib("numpy.moveaxis")
def c_moveaxis(s, v, i, j):
    v = c_asarray(s, v); i, j = intlit(i) % v.ndim, intlit(j) % v.ndim
    p = [k for k in range(v.ndim) if k != i]; p.insert(j, i)
    return s.transpose(v, p)
@lib("numpy.reshape")
def c_reshape(s, v, shape, order="C"): return s.reshape(c_asarray(s, v), shape_arg(s, (shape,)), order)
@lib("numpy.ravel")
def c_ravel(s, v, order="C"):
    v = c_asarray(s, v)
    if isinstance(v, T): v = s.copyarr_force(v) if hasattr(s, "copyarr_force") else s.I.newarr((), lambda ix: v0, "float")
    return s.reshape(v, [num(-1)], order)
@lib("numpy.where")
def c_where(s, c, a=None, b=None):
    if a is None and b is None: return s.nonzero(c)
    r = s.emap(lambda c, x, y: gate_t(TM.truth(c), x, y), c, a, b, dtype=s.join_dtype([getattr(s.snap(x), "dtype", "float") for x in (a, b)]))
    return r
def gate_t(c, x, y): return ite(c, x, y)
@lib("numpy.nonzero")
def c_nonzero(s, v): return s.nonzero(v)
@lib("numpy.argwhere")
def c_argwhere(s, v):
    r = s.nonzero(v)
    if not isinstance(r, tuple): return r
    return s.transpose(s.mkarr(s.stack([s.snap(x) for x in r], 0)))
@lib("numpy.flatnonzero")
def c_flatnonzero(s, v):
    v = c_asarray(s, v)
    if isinstance(v, Arr) and v.ndim > 1: v = s.reshape(v, [num(-1)])
    r = s.nonzero(v)
    return r[0] if isinstance(r, tuple) else r
@lib("numpy.extract", "numpy.compress")
def c_extract(s, c, v, **k): return s.getitem(c_asarray(s, v), c)
@lib("numpy.take")
def c_take(s, v, idx, axis=None, **k): return _take(s, c_asarray(s, v), idx, axis)
@lib("numpy.delete", "numpy.insert", "numpy.unique", "numpy.median", "numpy.percentile", "numpy.std", "numpy.var", "numpy.bincount", "numpy.interp", "numpy.histogram", "numpy.digitize", "numpy.setdiff1d", "numpy.searchsorted", "numpy.nanmax", "numpy.nanmin", "numpy.nanmean", "numpy.nansum")
def c_unknown(s, *a, **k): return s.I.unknown("numpy function without a model")
for _n, _k in (("sum", "sum"), ("any", "any"), ("all", "all"), ("max", "max"), ("min", "min")):
    CALLS["numpy." + _n] = (lambda f: lambda s, v, axis=None, *a, **k: tr(f(s, v, axis, *a, **k)))(red_m(_k))
@lib("numpy.mean", "numpy.average")
def c_mean(s, v, axis=None, weights=None, **k):
    if weights is not None:
        return s.binop(ast.Div(), s.reduce(s.binop(ast.Mult(), v, weights), axis, "sum"), s.reduce(weights, axis, "sum"))
    return s.mean(v, s.I.resolve(axis), k.get("keepdims", False))
@lib("numpy.ptp")
def c_ptp(s, v, axis=None): return s.binop(ast.Sub(), s.reduce(v, axis, "max"), s.reduce(v, axis, "min"))
@lib("numpy.count_nonzero")
def c_cnz(s, v, axis=None): return s.reduce(s.emap(lambda x: num_of_bool(TM.truth(x)), v, dtype="int"), axis, "sum")
@lib("numpy.prod")
def c_prod(s, v, axis=None, **k):
    it = s.I.items(v)
    if it is not None and axis is None and all(isinstance(x, T) for x in it):
        r = ONE
        for x in it: r = mul(r, x)
        return r
    return s.I.unknown("prod")
@lib("numpy.cumsum")
def c_cumsum(s, v, axis=None, **k): return _cumsum(s, c_asarray(s, v), axis)
@lib("numpy.diff")
def c_diff(s, v, n=ONE, axis=num(-1), **k):
    v = c_asarray(s, v)
    if not isinstance(v, Arr) or n is not ONE: return s.I.unknown("diff")
    ax = intlit(axis) % v.ndim
    pre = (Slice(None, None, None),) * ax
    return s.binop(ast.Sub(), s.getitem(v, pre + (Slice(ONE, None, None),)), s.getitem(v, pre + (Slice(None, num(-1), None),)))
@lib("numpy.dot", "numpy.matmul", "numpy.ma.dot")
def c_dot(s, a, b, out=None, **k):
    r = s.dot(a, b)
    if out is not None and isinstance(out, Arr): s.store_all(out, r); return out
    return r
@lib("numpy.vdot")
def c_vdot(s, a, b): return s.dot(a, b)
@lib("numpy.inner")
def c_inner(s, a, b):
    sb = s.snap(b)
    return s.dot(a, b if sb.ndim < 2 else s.transpose(c_asarray(s, b)))
@lib("numpy.outer")
def c_outer(s, a, b, **k):
    A, B = s.need(a, "outer"), s.need(b, "outer")
    if A is None or B is None or A.ndim != 1 or B.ndim != 1: return s.I.unknown("outer")
    return s.mkarr(Snap((A.shape[0], B.shape[0]), lambda ix: mul(A.at((ix[0],)), B.at((ix[1],))), "float"))
@lib("numpy.einsum")
def c_einsum(s, spec, *ops, **k): return s.einsum(spec, ops)
@lib("numpy.tensordot")
def c_tensordot(s, a, b, axes=num(2)):
    if lit(axes) and intlit(axes) == 1: return s.dot(a, b)
    return s.I.unknown("tensordot")
@lib("numpy.linalg.multi_dot")
def c_multidot(s, ms, **k):
    it = s.I.items(ms); r = it[-1]
    for x in reversed(it[:-1]): r = s.dot(x, r)
    return r
@lib("numpy.linalg.inv", "scipy.linalg.inv")
def c_inv(s, a, *x, **k):
    r = s.inv(a, "inv"); overwritten(s, a, k.get("overwrite_a", x[0] if x else None)); return r
def overwritten(s, a, flag):
    """an array handed over for overwriting has unspecified content afterwards"""
    if isinstance(a, Arr) and flag is not None and flag is not False and flag is not FALSE: s.smash(a, "overwritten")
@lib("numpy.linalg.pinv", "scipy.linalg.pinv")
def c_pinv(s, a, *x, **k):
    if x or set(k) - {"check_finite"}: return s.I.unknown("pinv option")
    return s.inv(a, "inv:pinv")
@lib("scipy.linalg.pinvh")
def c_pinvh(s, a, *x, **k):
    if x or set(k) - {"check_finite", "lower"}: return s.I.unknown("pinvh option")
    return s.inv(a, "inv:pinvh")
@lib("numpy.linalg.solve", "scipy.linalg.solve")
def c_solve(s, a, b, *x, **k):
    if x or any(k.get(o) for o in ("lower", "transposed")): return s.I.unknown("solve option")
    how = s.I.resolve(k.get("assume_a"))
    if how in ("pos", "positive definite"): tag = "inv:as positive definite"       # fails on, or misreads, any other matrix
    elif how is None or how in ("gen", "general", "sym", "symmetric", "her", "hermitian"): tag = "inv"
    else: return s.I.unknown("solve option")
    r = s.solve(a, b, tag)
    overwritten(s, a, k.get("overwrite_a")); overwritten(s, b, k.get("overwrite_b"))
    return r
@lib("numpy.linalg.lstsq", "scipy.linalg.lstsq")
def c_lstsq(s, a, b, *x, **k):
    if x and x[0] is not None or k.get("rcond") is not None or k.get("cond") is not None: return s.I.unknown("lstsq option")
    r = s.solve(a, b, "inv:pinv")
    return (r, Unk("residuals"), Unk("rank"), Unk("singular values"))
@lib("scipy.linalg.lu_factor")
def c_lufac(s, a, *x, **k):
    m = Model("factor", None, mat=s.copyarr(a), tag="inv"); overwritten(s, a, k.get("overwrite_a", x[0] if x else None)); return m
@lib("scipy.linalg.cho_factor")
def c_chofac(s, a, *x, **k): return Model("factor", None, mat=s.copyarr(a), tag="inv:as positive definite")
@lib("scipy.linalg.lu_solve", "scipy.linalg.cho_solve")
def c_lusolve(s, f, b, *x, **k):
    if isinstance(f, Model) and f.name == "factor": return s.solve(f.info["mat"], b, f.info["tag"])
    return s.I.unknown("lu_solve")
@lib("numpy.linalg.norm", "scipy.linalg.norm")
def c_norm(s, v, ord=None, axis=None, keepdims=False):
    if ord is not None and not (lit(ord) and intlit(ord) == 2): return s.I.unknown("norm order")
    r = s.reduce(s.emap(lambda x: power(x, 2), v), s.I.resolve(axis), "sum", keepdims)
    return s.emap(sqrt, r)
@lib("numpy.linalg.cond", "numpy.linalg.det", "numpy.linalg.matrix_rank")
def c_cond(s, *a, **k): return s.I.unknown("matrix diagnostic")
@lib("numpy.fill_diagonal")
def c_filld(s, a, v, wrap=False):
    if not isinstance(a, Arr): return s.I.unknown("fill_diagonal")
    q = s.I.snap(a)
    val = s.snap(v)
    if val.ndim: return s.I.unknown("fill_diagonal with a vector")
    x = val.at(())
    s.store_all(a, s.mkarr(Snap(q.shape, lambda ix: gate(eq(ix[0], ix[1]), lambda: x, lambda: q.at(ix)), q.dtype)))
@lib("numpy.diag")
def c_diag(s, v, k=ZERO):
    sn = s.need(v, "diag")
    if sn is None or k is not ZERO: return s.I.unknown("diag")
    if sn.ndim == 1: return s.mkarr(Snap((sn.shape[0],) * 2, lambda ix: gate(eq(ix[0], ix[1]), lambda: sn.at((ix[0],)), lambda: ZERO), sn.dtype))
    return s.mkarr(Snap((sn.shape[0],), lambda ix: sn.at((ix[0], ix[0])), sn.dtype))
@lib("numpy.diag_indices")
def c_diagi(s, n, ndim=num(2)):
    return tuple(c_arange(s, n) for _ in range(intlit(ndim)))
@lib("numpy.diag_indices_from")
def c_diagif(s, a): return c_diagi(s, a.shape[0])
def tri_ix(low, k0):
    def f(s, n, k=num(k0), m=None):
        if not isinstance(n, T) or m is not None: return s.I.unknown("triangle indices")
        c = (lambda i, j: ge(sub(j, i), k)) if not low else (lambda i, j: le(sub(j, i), k))
        fd = FDim((n, n), lambda ix: c(ix[0], ix[1]))
        return tuple(s.I.newarr((fd,), (lambda q: lambda ix: ix[0][q])(q), "int") for q in range(2))
    return f
CALLS["numpy.triu_indices"] = tri_ix(False, 0); CALLS["numpy.tril_indices"] = tri_ix(True, 0)
CALLS["numpy.triu_indices_from"] = lambda s, a, k=ZERO: CALLS["numpy.triu_indices"](s, a.shape[0], k)
CALLS["numpy.tril_indices_from"] = lambda s, a, k=ZERO: CALLS["numpy.tril_indices"](s, a.shape[0], k)
def tri(low):
    def f(s, v, k=ZERO):
        sn = s.need(v, "tri")
        return s.mkarr(Snap(sn.shape, lambda ix: gate(ge(sub(ix[1], ix[0]), k) if not low else le(sub(ix[1], ix[0]), k), lambda: sn.at(ix), lambda: ZERO), sn.dtype))
    return f
CALLS["numpy.triu"] = tri(False); CALLS["numpy.tril"] = tri(True)
@lib("numpy.flip", "numpy.flipud", "numpy.fliplr")
def c_flip(s, v, axis=None): return s.I.unknown("flip")
def _flipax(k):
    def f(s, v):
        v = c_asarray(s, v)
        return s.getitem(v, (Slice(None, None, None),) * k + (Slice(None, None, num(-1)),))
    return f
CALLS["numpy.flipud"] = _flipax(0); CALLS["numpy.fliplr"] = _flipax(1)
def c_flip2(s, v, axis=None):
    v = c_asarray(s, v)
    if axis is None:
        return s.getitem(v, (Slice(None, None, num(-1)),) * v.ndim)
    return _flipax(intlit(axis) % v.ndim)(s, v)
CALLS["numpy.flip"] = c_flip2
@lib("numpy.clip")
def c_clip(s, v, lo, hi, **k): return _clip(s, v, lo, hi)
@lib("numpy.round")
def c_round(s, v, decimals=ZERO, **k): return _round(s, v, decimals)
@lib("round")
def c_roundb(s, v, n=None):
    if n is None: return fn("rint", v)
    return ufn("round", v, n)
@lib("numpy.isclose", "math.isclose")
def c_isclose(s, a, b, rtol=num(1e-5), atol=num(1e-8), **k):
    return tr(s.emap(lambda x, y, r, t: le(fn("abs", sub(x, y)), add(t, mul(r, fn("abs", y)))), a, b, rtol, atol, dtype="bool"))
@lib("numpy.allclose")
def c_allclose(s, a, b, *x, **k): return tr(s.reduce(c_isclose(s, a, b, *x, **k), None, "all"))
@lib("numpy.array_equal")
def c_array_equal(s, a, b, **k):
    A, B = s.need(a, "array_equal"), s.need(b, "array_equal")
    if A is None or B is None: return unkb("array_equal")
    if A.ndim != B.ndim: return False
    c = TRUE
    for p, q in zip(A.shape, B.shape):
        r = dim_eq(p, q)
        if r is False: return False
        if r is None: c = and_(c, eq(s.expose(p), s.expose(q)))
    e = s.reduce(s.mkarr(Snap(A.shape, lambda ix: eq(A.at(ix), B.at(ix)), "bool")), None, "all") if A.shape else eq(A.at(()), B.at(()))
    return tr(and_(c, e))
@lib("numpy.shape")
def c_shape(s, v): return tuple(s.expose(d) for d in s.need(v, "shape").shape)
@lib("numpy.size")
def c_size(s, v, axis=None): return s.size(v)
@lib("numpy.ndim")
def c_ndim(s, v): return num(s.need(v, "ndim").ndim)
@lib("numpy.argsort")
def argsort(s, v, axis=num(-1), **k):
    sn = s.need(v, "argsort")
    if sn is None or sn.ndim != 1 or isinstance(sn.shape[0], FDim): return s.I.unknown("argsort")
    n = sn.shape[0]
    with nofacts(): L = lam((n,), lambda i: sn.at((i,)))
    TM.SELRANGE.setdefault("argsort", lambda t: (ZERO, sub(t.a[1].a[0], ONE)))
    return s.I.newarr((n,), lambda ix: ufn("argsort", L, ix[0], sort="I"), "int")
@lib("numpy.sort")
def c_sort(s, v, axis=num(-1), **k):
    a = argsort(s, v)
    return s.getitem(c_asarray(s, v), a) if isinstance(a, Arr) else a
@lib("numpy.argmax")
def c_argmax(s, v, axis=None, **k): return s.argext(v, s.I.resolve(axis), "argmax")
@lib("numpy.argmin")
def c_argmin(s, v, axis=None, **k): return s.argext(v, s.I.resolve(axis), "argmin")
@lib("numpy.piecewise")
def c_piecewise(s, x, conds, funcs, *a, **kw):
    I = s.I
    fl = I.items(funcs); cl = I.items(conds)
    if fl is None: return I.unknown("piecewise")
    if cl is None or (cl and not isinstance(cl[0], (Arr, bool)) and not (isinstance(cl[0], T) and cl[0].sort == "B")):
        cl = [conds]
    xs = s.snap(x)
    if xs is None: return I.unknown("piecewise")
    if isinstance(conds, Arr) and conds.ndim == xs.ndim and xs.ndim > 0: cl = [conds]
    cs = [s.snap(c) for c in cl]
    if any(c is None for c in cs): return I.unknown("piecewise condition")
    if len(fl) not in (len(cl), len(cl) + 1): raise I.raise_("ValueError", "piecewise")
    xdt = xs.dtype
    def part(f, cond):
        """value accessor of function f on the elements where cond(ix)"""
        f = I.resolve(f)
        if not isinstance(f, (Func, Bound, Model, Lib)):
            g, dt, _ = s.bto(f, xs.shape)
            return lambda ix: s.cast(g(ix), dt, xdt)
        if xs.ndim == 0:
            r = I.under(cond(()), lambda: I.call(f, [xs.at(())] + list(a), dict(kw), I.node), lambda: ZERO)
            rs = s.snap(r)
            if rs is None: return lambda ix: unk("piecewise")
            return lambda ix: s.cast(rs.at(()), rs.dtype, xdt)
        fd = FDim(xs.shape, lambda ix: cond(tuple(ix)))
        arr = I.newarr((fd,), lambda ix: xs.at(tuple(ix[0])), xs.dtype)
        r = I.call(f, [arr] + list(a), dict(kw), I.node)
        g, dt, _ = s.bto(r, (fd,))
        return lambda ix: s.cast(g((tuple(ix),)), dt, xdt)
    conds_ = [lambda ix, c=c: TM.truth(c.at(ix)) for c in cs]
    if len(fl) == len(cl) + 1:
        conds_.append(lambda ix: not_(or_(*[TM.truth(c.at(ix)) for c in cs])))
    parts = [part(f, c) for f, c in zip(fl, conds_)]
    def at(ix):
        def go(k):
            if k < 0: return ZERO
            return gate(conds_[k](ix), lambda: parts[k](ix), lambda: go(k - 1))
        return go(len(parts) - 1)
    return s.mkarr(Snap(xs.shape, at, xdt))
@lib("numpy.select")
def c_select(s, conds, vals, default=ZERO):
    cl, vl = s.I.items(conds), s.I.items(vals)
    r = default
    for c, v in reversed(list(zip(cl, vl))): r = c_where(s, c, v, r)
    return r
@lib("numpy.ma.array")
def c_maarray(s, data, mask=None, dtype=None, copy=False, keep_mask=True, fill_value=None, **k):
    sn = s.need(data, "masked array")
    if sn is None: return s.I.unknown("masked array")
    m = sn.m if sn.m is not None else (lambda ix: FALSE)
    mask = s.I.resolve(mask)
    if mask is not None and not (isinstance(mask, Lib)):
        ms = s.need(mask, "mask")
        if ms is None: return s.I.unknown("mask")
        if ms.shape and len(ms.shape) == len(sn.shape):
            for p, q in zip(ms.shape, sn.shape):
                r = dim_eq(p, q)
                if r is False: raise s.I.raise_("MaskError", "mask shape")
                if r is None and isinstance(p, T) and isinstance(q, T): s.I.may_raise("Exception", not_(eq(p, q)), "mask shape")
        f, dt, _ = s.bto(ms, sn.shape)
        old = m if keep_mask is True else (lambda ix: FALSE)
        m = lambda ix: or_(old(ix), TM.truth(f(ix)))
    d = s.dtype(dtype)
    return s.I.newarr(sn.shape, sn.at, d or sn.dtype, m)
@lib("numpy.ma.is_masked")
def c_is_masked(s, v):
    sn = s.need(v, "is_masked")
    if sn is None: return unkb("is_masked")
    if sn.m is None: return False
    return tr(s.reduce(s.mkarr(Snap(sn.shape, sn.m, "bool")), None, "any"))
@lib("numpy.ma.isMaskedArray", "numpy.ma.isMA", "numpy.ma.isarray")
def c_isma(s, v):
    sn = s.snap(v)
    return sn is not None and sn.m is not None
@lib("numpy.ma.getmaskarray", "numpy.ma.getmask")
def c_getmask(s, v):
    sn = s.need(v, "mask")
    return s.mkarr(Snap(sn.shape, sn.mask_at, "bool"))
@lib("numpy.ma.getdata")
def c_getdata(s, v):
    sn = s.need(v, "data"); return s.mkarr(Snap(sn.shape, sn.at, sn.dtype))
@lib("numpy.ma.filled")
def c_filled(s, v, fill_value=None): return _filled(s, v if isinstance(v, Arr) else c_asarray(s, v), fill_value)
@lib("numpy.ma.masked_where")
def c_mwhere(s, c, v, copy=True): return c_maarray(s, v, c)
@lib("numpy.isscalar")
def c_isscalar(s, v): return isinstance(s.I.resolve(v), (T, str, bool))
@lib("numpy.vectorize", "numpy.frompyfunc")
def c_vectorize(s, f, *a, **k): return Model("vectorized", lambda it, args, kw, node: it.unknown("vectorized function"))
@lib("numpy.errstate", "warnings.catch_warnings", "contextlib.nullcontext")
def c_errstate(s, *a, **k): return Model("context", None)
@lib("numpy.apply_along_axis", "numpy.fromiter")
def c_aaa(s, *a, **k): return s.I.unknown("apply")
@lib("numpy.may_share_memory", "numpy.shares_memory")
def c_share(s, *a, **k): return unkb("shares memory")
@lib("numpy.dtype")
def c_dtype(s, v): return Model("dtype", None, kind=s.dtype(v) or "any")
@lib("numpy.issubdtype")
def c_issub(s, a, b):
    k = s.dtype(a); n = b.name.split(".")[-1] if isinstance(b, (Lib, TypeVal)) else "?"
    return {"floating": k in ("float", "single", "half"), "integer": k == "int", "number": k in ("int", "float", "single", "half"), "bool": k == "bool", "bool_": k == "bool", "float": k == "float", "int": k == "int"}.get(n, unkb("issubdtype"))

# ---- scipy
@lib("scipy.spatial.distance.cdist")
def c_cdist(s, a, b, metric="euclidean", **k):
    m = s.I.resolve(metric)
    return s.cdist(a, b, m)
@lib("scipy.spatial.distance_matrix")
def c_dm(s, a, b, **k): return s.cdist(a, b, "euclidean")
@lib("scipy.spatial.distance.pdist")
def c_pdist(s, a, metric="euclidean", **k):
    A = s.need(a, "pdist")
    if A is None: return s.I.unknown("pdist")
    if A.ndim != 2: raise s.I.raise_("ValueError", "pdist")
    n = A.shape[0]
    fd = FDim((n, n), lambda ix: lt(ix[0], ix[1]))
    m = s.I.resolve(metric)
    if m not in ("euclidean", "sqeuclidean"):
        g = s.other_metric(A, A, m)
        return s.I.newarr((fd,), lambda ix: g(ix[0]), "float")
    def f(ix):
        i, j = ix[0]
        return s.metric(s.over(A.shape[1], lambda k: power(sub(A.at((i, k)), A.at((j, k))), 2), "sum"), m)
    return s.I.newarr((fd,), f, "float")
@lib("scipy.spatial.distance.squareform")
def c_squareform(s, v, *a, **k):
    sn = s.need(v, "squareform")
    if sn is None: return s.I.unknown("squareform")
    if sn.ndim == 1 and isinstance(sn.shape[0], FDim) and len(sn.shape[0].src) == 2:
        fd = sn.shape[0]; n = fd.src[0]
        i, j = TM._index(n), TM._index(n)
        with nofacts(): ok = fd.pred((i, j)) is lt(i, j)
        if not ok: return s.I.unknown("squareform")
        return s.I.newarr((n, n), lambda ix: gate(eq(ix[0], ix[1]), lambda: ZERO, lambda: gate(lt(ix[0], ix[1]), lambda: sn.at(((ix[0], ix[1]),)), lambda: sn.at(((ix[1], ix[0]),)))), "float")
    if sn.ndim == 2:
        n = sn.shape[0]
        fd = FDim((n, n), lambda ix: lt(ix[0], ix[1]))
        return s.I.newarr((fd,), lambda ix: sn.at(tuple(ix[0])), "float")
    return s.I.unknown("squareform")
@lib("scipy.spatial.cKDTree")
def c_tree(s, data, *a, **k):
    D = s.need(data, "cKDTree")
    if D is None: return s.I.unknown("cKDTree")
    def query(x, k=ONE, eps=ZERO, p=num(2), distance_upper_bound=INF, workers=None, **kw):
        I = s.I
        X = s.need(x, "query")
        k = I.resolve(k)
        if X is None or not isinstance(k, T): return I.unknown("query")
        I.event("knn", data=D, points=X, k=k, eps=eps, p=p)
        if not (lit(eps) and numval(eps) == 0) or not (lit(p) and numval(p) == 2) or distance_upper_bound is not INF:
            I.event("knn-approximate", eps=eps, p=p, ub=distance_upper_bound)
        n, dim = D.shape
        with nofacts(): L = lam((n, dim), lambda i, j: D.at((i, j)))
        def krange(t):
            n, r = t.a[1].a[0], t.a[3]      # a neighbour that does not exist has index n
            return (ZERO, sub(n, ONE) if TM.decide_ge0(sub(sub(n, ONE), r)) is True else n)
        TM.SELRANGE.setdefault("knn", krange)
        lead = X.shape[:-1]
        kk = () if k is ONE else (k,)
        ap = "" if lit(eps) and numval(eps) == 0 and lit(p) and numval(p) == 2 else ":approx"
        def idx(ix):
            b = ix[:len(lead)]; r = ix[len(lead)] if kk else ZERO
            pt = lam((dim,), lambda j: X.at(b + (j,)))
            return ufn("knn" + ap, L, pt, r, sort="I")
        def dist(ix):
            j = idx(ix); b = ix[:len(lead)]
            return sqrt(s.over(dim, lambda q: power(sub(X.at(b + (q,)), D.at((j, q))), 2), "sum"))
        sh = tuple(lead) + kk
        return (s.mkarr(Snap(sh, dist, "float")), s.mkarr(Snap(sh, idx, "int")))
    return Model("cKDTree", None, query=Model("query", lambda it, args, kw, node: query(*args, **kw)), data=data, n=D.shape[0])
_FITS = {}
def same_terms(a, b):
    from rinterp import compare
    return all(x is y or compare(x, y, (), trials=4).verdict == "EQUAL" for x, y in zip(a, b))
@lib("scipy.optimize.least_squares")
def c_lsq(s, fun, x0, jac="2-point", bounds=None, loss="linear", args=(), kwargs=None, **opts):
    I = s.I
    x0s = s.need(x0, "x0")
    if x0s is None or x0s.ndim != 1 or not lit(x0s.shape[0]): return I.unknown("least_squares")
    p = intlit(x0s.shape[0])
    lo = hi = None
    if bounds is not None:
        b = I.items(bounds)
        if b is None or len(b) != 2: return I.unknown("bounds")
        lo, hi = [s.bto(x, (num(p),))[0] for x in b]
    ps = [sym("fitparam%d" % k, "R", nonneg=True) for k in range(p)]
    params = I.newarr((num(p),), lambda ix: s.pickk(ix[0], [(lambda k=k: ps[k]) for k in range(p)]), "float")
    kw = {}
    r = I.call(fun, [params] + (I.items(args) or []), kw, I.node)
    rs = s.snap(r)
    ev = dict()
    I.event("least_squares", out=ev, params=ps, resid=rs, x0=[x0s.at((num(k),)) for k in range(p)],
        lo=None if lo is None else [lo((num(k),)) for k in range(p)], hi=None if hi is None else [hi((num(k),)) for k in range(p)],
        loss=I.resolve(loss), opts={k: I.resolve(v) for k, v in opts.items()})
    I.opaque("least_squares")
    if rs is None or rs.ndim != 1: return I.unknown("least_squares residual")
    d = rs.shape[0]
    from loops import flat
    with nofacts():
        if isinstance(d, FDim): L = lam(d.src, lambda *ix: gate(d.pred(tuple(ix)), lambda: rs.at((tuple(ix),)), lambda: NAN))
        else: L = lam((d,), lambda i: rs.at((i,)))
    key_ = (L,) + tuple(x0s.at((num(k),)) for k in range(p)) + tuple((f((num(k),)) for f in (lo, hi) if f is not None for k in range(p)))
    nm = "lsq:%s" % (loss if isinstance(loss, str) else "?")
    # the result is a function of residual, start, bounds and loss: one symbol per distinct fit and parameter
    fit = _FITS.get((nm,) + key_)
    if fit is None:
        fit = next((v for k, v in _FITS.items() if len(k) == len(key_) + 1 and k[0] == nm and same_terms(k[1:], key_)), len(_FITS))
        _FITS[(nm,) + key_] = fit
    ev["res"] = [sym("fit%d_%d" % (fit, k), "R", nonneg=True, lo=ZERO) for k in range(p)]
    x = I.newarr((num(p),), lambda ix: s.pickk(ix[0], [(lambda k=k: ev["res"][k]) for k in range(p)]), "float")
    return Model("lsqresult", None, x=x, success=sym("lsq_success", "B"), cost=Unk("cost"), fun=Unk("fun"), status=Unk("status"), message=Unk("message"))

# ---- builtins
@lib("len")
def c_len(s, v):
    I = s.I
    v = I.resolve(v)
    if isinstance(v, Choice): return I.under(v.c, lambda: c_len(s, v.a), lambda: c_len(s, v.b))
    if isinstance(v, Arr):
        if not v.shape: raise I.raise_("TypeError", "len of scalar")
        return s.expose(v.shape[0])
    if isinstance(v, Lst) and isinstance(I.S.heap[v.oid], SymL): return I.S.heap[v.oid].n
    if isinstance(v, (T,)) or v is None or isinstance(v, bool): raise I.raise_("TypeError", "len")
    if isinstance(v, SymRange):
        return sub(v.hi, v.lo) if v.step == 1 else I.unknown("len of range")
    it = I.items(v)
    if it is not None: return num(len(it))
    if isinstance(v, SStr):
        import textio
        q = textio.pieces(I, v)
        return textio.length(q) if q is not None else I.unknown("len of symbolic string")
    if isinstance(v, Obj):
        m = I.getattr0(v, "__len__")
        if not isinstance(m, _Undef): return I.call(m, [], {}, I.node)
        raise I.raise_("TypeError", "len")
    return I.unknown("len of %r" % (v,))
@lib("range")
def c_range(s, a, b=None, st=ONE):
    lo, hi = (ZERO, a) if b is None else (a, b)
    if not all(isinstance(x, T) for x in (lo, hi, st)): 
        if any(x is None or isinstance(x, (Arr, str)) for x in (lo, hi)): raise s.I.raise_("TypeError", "range")
        return s.I.unknown("range")
    if not lit(st): return s.I.unknown("range step")
    for x in (lo, hi):
        if x.sort == "R": raise s.I.raise_("TypeError", "float range")
    return SymRange(lo, hi, intlit(st))
@lib("enumerate")
def c_enum(s, it, start=ZERO): return Model("enumerate", None, it=it, start=start)
@lib("zip")
def c_zip(s, *its, strict=False): return Model("zip", None, its=[s.I.resolve(x) for x in its])
@lib("reversed")
def c_rev(s, it): return Model("reversed", None, it=it)
@lib("map")
def c_map(s, f, *its):
    ii = [s.I.items(x) for x in its]
    if any(i is None for i in ii):
        if len(its) == 1:
            q = s.I.symseq(its[0])
            if q is not None and q[2] is None:
                n, val, _ = q
                i = TM._index(n, "c")
                v = s.I.call(f, [val(i)], {}, s.I.node)
                from loops import vsubst
                l = Lst("list"); s.I.S.heap[l.oid] = SymL(n, lambda k: vsubst(s.I, v, {i: k})); return l
        return s.I.unknown("map")
    return s.I.newlist([s.I.call(f, list(x), {}, s.I.node) for x in zip(*ii)])
@lib("filter")
def c_filter(s, f, it):
    ii = s.I.items(it)
    if ii is None: return s.I.unknown("filter")
    out = []
    for x in ii:
        c = s.I.truth(s.I.call(f, [x], {}, s.I.node) if f is not None else x)
        if c is True: out.append(x)
        elif c is not False: return s.I.unknown("filter")
    return s.I.newlist(out)
@lib("sorted")
def c_sorted(s, it, key=None, reverse=False):
    ii = s.I.items(it)
    if ii is not None and key is None:
        if all(isinstance(x, str) for x in ii): return s.I.newlist(sorted(ii, reverse=reverse is True))
        if all(lit(x) for x in ii): return s.I.newlist(sorted(ii, key=numval, reverse=reverse is True))
        if len(ii) <= 5 and all(isinstance(x, T) and x.sort in "RI" for x in ii) and (reverse is True or reverse is False):
            o = list(ii)
            for k in range(len(o)):
                for j in range(len(o) - 1 - k):
                    c = le(o[j], o[j + 1]) if reverse is False else le(o[j + 1], o[j])
                    o[j], o[j + 1] = ite(c, o[j], o[j + 1]), ite(c, o[j + 1], o[j])
            return s.I.newlist(o)
    s.I.event("sorted")
    return s.I.unknown("sorted")
@lib("any")
def c_anyb(s, it):
    ii = s.I.items(it)
    if ii is None:
        r = s.reduce(it, None, "any") if s.snap(it) is not None else unkb("any")
        return tr(r) if isinstance(r, T) else unkb("any")
    r = FALSE
    for x in ii:
        c = s.I.truth(x)
        if c is True: return True
        r = or_(r, tb(c))
    return tr(r)
@lib("all")
def c_allb(s, it):
    ii = s.I.items(it)
    if ii is None:
        r = s.reduce(it, None, "all") if s.snap(it) is not None else unkb("all")
        return tr(r) if isinstance(r, T) else unkb("all")
    r = TRUE
    for x in ii:
        c = s.I.truth(x)
        if c is False: return False
        r = and_(r, tb(c))
    return tr(r)
@lib("sum")
def c_sumb(s, it, start=ZERO):
    ii = s.I.items(it)
    if ii is None:
        sn = s.snap(it)
        if sn is None: return s.I.unknown("sum")
        return s.binop(ast.Add(), start, s.reduce(it, ZERO, "sum")) if sn.ndim > 1 or start is not ZERO else s.reduce(it, ZERO, "sum")
    r = start
    for x in ii: r = s.I.binop(ast.Add(), r, x)
    return r
def mmb(op):
    def f(s, *a, key=None, default=None):
        if len(a) == 1:
            ii = s.I.items(a[0])
            if ii is None:
                sn = s.snap(a[0])
                if sn is None or key is not None: return s.I.unknown("min/max")
                return s.reduce(a[0], ZERO, op)
        else: ii = list(a)
        if key is not None or not ii or not all(isinstance(x, T) for x in ii): return s.I.unknown("min/max")
        r = ii[0]
        for x in ii[1:]: r = fn(op + "2", r, x)
        return r
    return f
CALLS["max"] = mmb("max"); CALLS["min"] = mmb("min")
@lib("abs")
def c_absb(s, v): return s.emap(lambda x: fn("abs", x), v)
@lib("pow")
def c_powb(s, a, b): return s.I.binop(ast.Pow(), a, b)
@lib("divmod")
def c_divmod(s, a, b): return (fn("floordiv", a, b), fn("mod", a, b))
@lib("format")
def c_format(s, v, spec=""):
    spec = s.I.resolve(spec)
    if not isinstance(spec, str): return s.I.unknown("format specification")
    return s.format_value(v, spec)
@lib("print")
def c_print(s, *a, **k):
    f = s.I.resolve(k.get("file"))
    if isinstance(f, Model) and f.name == "file":
        sep, end = k.get("sep", " "), k.get("end", "\n")
        ps = []
        for i, x in enumerate(a):
            if i: ps.append(sep)
            ps.append(typecall(s, TypeVal("str"), [s.I.resolve(x)], {}))
        s.I.call(f.info["write"], [s.sjoin(ps + [end])], {}, s.I.node); return None
    s.I.event("print", args=a, kw=k); return None
@lib("callable")
def c_callable(s, v):
    v = s.I.resolve(v)
    if isinstance(v, Obj): return not isinstance(s.I.getattr0(v, "__call__"), _Undef)
    if isinstance(v, Unk): return unkb("callable")
    return isinstance(v, (Func, Bound, Model, Lib, Cls, TypeVal)) and not (isinstance(v, Model) and v.fn is None)
@lib("hasattr")
def c_hasattr(s, o, a):
    I = s.I
    o = I.resolve(o)
    if isinstance(o, Choice): return tbool(I.merge_val(o.c, tb(c_hasattr(s, o.a, a)), tb(c_hasattr(s, o.b, a))))
    if isinstance(o, Unk): return unkb("hasattr")
    if isinstance(o, T) and o.sort == "O": return unkb("hasattr")
    if o is None: return False
    pend = len(I.pend)
    try: v = I.getattr0(o, a)
    except Dead:
        del I.pend[pend:]; return False
    v = I.resolve(v)
    if isinstance(v, Choice) and isinstance(v.b, _Undef): return tbool(v.c)
    if isinstance(v, Choice) and isinstance(v.a, _Undef): return tbool(not_(v.c))
    return not isinstance(v, _Undef)
@lib("getattr")
def c_getattr(s, o, a, *d):
    I = s.I
    o = I.resolve(o); a = I.resolve(a)
    if isinstance(a, Choice): return I.under(a.c, lambda: c_getattr(s, o, a.a, *d), lambda: c_getattr(s, o, a.b, *d))
    if not isinstance(a, str): return I.unknown("getattr name")
    if d and not isinstance(o, Choice):
        v = I.getattr0(o, a)
        return d[0] if isinstance(v, _Undef) else I.resolve(v)
    return I.getattr(o, a)
@lib("setattr")
def c_setattr(s, o, a, v): s.I.setattr(o, a, v)
@lib("delattr")
def c_delattr(s, o, a): s.I.unknown("delattr")
@lib("vars")
def c_vars(s, o): return ObjDict(o)
@lib("id", "hash")
def c_id(s, v): s.I.event("impure", name="id"); return s.I.unknown("id")
@lib("repr")
def c_repr(s, v): return s.format_value(v, "!r")
@lib("iter")
def c_iter(s, v):
    v = s.I.resolve(v)
    if isinstance(v, Lst) and v.kind == "iter": return v
    ii = s.I.items(v)
    return v if ii is None else s.I.newlist(ii, "iter")
@lib("next")
def c_next(s, v, *d):
    v = s.I.resolve(v)
    ii = s.I.items(v)
    if ii:
        if isinstance(v, Lst) and v.kind == "iter": s.I.S.heap[v.oid] = tuple(ii[1:])
        return ii[0]
    if ii == [] and d: return d[0]
    if ii == [] and isinstance(v, Lst) and v.kind == "iter": raise s.I.raise_("StopIteration")
    return s.I.unknown("next")
@lib("staticmethod")
def c_static(s, f): return Model("staticmethod", None, f=f)
@lib("classmethod")
def c_clsm(s, f): return Model("classmethod", None, f=f)
@lib("property")
def c_prop(s, f): return Model("property", None, f=f)
@lib("functools.wraps")
def c_wraps(s, f, **k): return Model("wraps", lambda it, a, kw, n: a[0])
@lib("functools.partial")
def c_partial(s, f, *a, **k):
    return Model("partial", lambda it, b, kw, n: it.call(f, list(a) + list(b), {**k, **kw}, n))
@lib("functools.lru_cache", "functools.cache")
def c_cache(s, *a, **k):
    s.I.event("impure", name="functools.lru_cache")
    if a and isinstance(a[0], Func): return a[0]
    return Model("cache", lambda it, b, kw, n: b[0])
@lib("functools.reduce")
def c_reduce(s, f, it, *init):
    ii = s.I.items(it)
    if ii is None: return s.I.unknown("reduce over a symbolic sequence")
    ii = list(init) + ii
    if not ii: raise s.I.raise_("TypeError", "reduce() of empty iterable")
    r = ii[0]
    for x in ii[1:]: r = s.I.call(f, [r, x], {}, s.I.node)
    return r
@lib("itertools.chain")
def c_chain(s, *vs):
    out = []
    for v in vs:
        ii = s.I.items(v)
        if ii is None: return s.I.unknown("chain")
        out += ii
    return s.I.newlist(out, "iter")
@lib("itertools.chain.from_iterable")
def c_chainf(s, v):
    ii = s.I.items(v)
    return s.I.unknown("chain") if ii is None else c_chain(s, *ii)
@lib("itertools.product")
def c_product(s, *vs, repeat=ONE):
    its = [s.I.items(v) for v in vs] * intlit(repeat)
    if any(i is None for i in its): return s.I.unknown("product")
    return s.I.newlist([tuple(x) for x in itertools.product(*its)], "iter")
@lib("itertools.combinations", "itertools.permutations")
def c_comb(s, v, r=None):
    ii = s.I.items(v)
    if ii is None or r is None: return s.I.unknown("combinations")
    return s.I.newlist([tuple(x) for x in itertools.combinations(ii, intlit(r))], "iter")
@lib("itertools.permutations")
def c_perm(s, v, r=None):
    ii = s.I.items(v)
    if ii is None: return s.I.unknown("permutations")
    return s.I.newlist([tuple(x) for x in itertools.permutations(ii, None if r is None else intlit(r))], "iter")
@lib("itertools.starmap")
def c_starmap(s, f, v):
    ii = s.I.items(v)
    if ii is None: return s.I.unknown("starmap")
    return s.I.newlist([s.I.call(f, s.I.items(x), {}, s.I.node) for x in ii], "iter")
@lib("collections.namedtuple")
def c_namedtuple(s, name, fields, defaults=(), **k):
    I = s.I
    f = fields.replace(",", " ").split() if isinstance(fields, str) else I.items(fields)
    if f is None or not isinstance(name, str): return I.unknown("namedtuple")
    d = I.items(defaults) if defaults is not None else []
    return Cls(name, I.S.env.get("__mod__"), {"__nt_fields__": tuple(f), "__nt_defaults__": dict(zip(f[len(f) - len(d):], d))}, [], None)
@lib("dataclasses.dataclass")
def c_dataclass(s, *a, **k): return Model("dataclass", None)
@lib("dataclasses.field")
def c_field(s, default=UNDEF, default_factory=None, **k): return Model("field", None, default=default, factory=default_factory)
@lib("dataclasses.replace")
def c_dcreplace(s, o, **k):
    o = s.I.resolve(o)
    if not isinstance(o, Obj): return s.I.unknown("replace")
    return s.I.instantiate(o.cls, [], {**s.I.S.heap[o.oid], **k}, s.I.node)
@lib("copy.copy", "copy.deepcopy", "inspect.signature", "exec", "eval", "globals", "locals", "input")
def c_unk2(s, *a, **k): return s.I.unknown("builtin without a model")
@lib("operator.itemgetter")
def c_itemgetter(s, *ks):
    def go(it, b, kw, n):
        r = [it.getitem(b[0], k) for k in ks]
        return r[0] if len(ks) == 1 else tuple(r)
    return Model("itemgetter", go)
@lib("operator.attrgetter")
def c_attrgetter(s, *ks):
    def get(it, o, k):
        for p in k.split("."): o = it.getattr(o, p)
        return o
    def go(it, b, kw, n):
        r = [get(it, b[0], k) for k in ks]
        return r[0] if len(ks) == 1 else tuple(r)
    return Model("attrgetter", go)
@lib("operator.methodcaller")
def c_methodcaller(s, name, *a, **k): return Model("methodcaller", lambda it, b, kw, n: it.call(it.getattr(b[0], name), list(a), dict(k), n))
@lib("warnings.warn")
def c_warn(s, *a, **k): s.I.event("warn", args=a); return None
@lib("warnings.simplefilter", "warnings.filterwarnings")
def c_wf(s, *a, **k): s.I.event("global-write", name="warnings.filters"); return None
@lib("isinstance")
def c_isinstance(s, v, t):
    I = s.I
    v = I.resolve(v)
    if isinstance(v, Choice): return tbool(I.merge_val(v.c, tb(c_isinstance(s, v.a, t)), tb(c_isinstance(s, v.b, t))))
    t = I.resolve(t)
    ts = I.items(t) if isinstance(t, tuple) else [t]
    r = FALSE
    for x in ts:
        q = isinst(s, v, I.resolve(x))
        if q is True: return True
        r = or_(r, tb(q))
    return tbool(r)
@lib("issubclass")
def c_issubclass(s, a, b): return s.I.unknown("issubclass")
def isinst(s, v, t):
    if isinstance(v, Unk): return unkb("isinstance")
    if isinstance(t, Cls) and isinstance(v, NTup): return v.cls is t or t.name in v.cls.mro_names()
    if isinstance(t, Cls): return isinstance(v, Obj) and isinstance(v.cls, Cls) and (v.cls is t or t.name in v.cls.mro_names())
    name = t.name.split(".")[-1] if isinstance(t, (TypeVal, Lib)) else "?"
    if name == "object": return True
    if isinstance(v, bool): return name in ("bool", "int", "Number", "Integral", "Real")
    if isinstance(v, (str, SStr)): return name in ("str", "Sequence", "Iterable")
    if isinstance(v, bytes): return name == "bytes"
    if isinstance(v, T):
        if v.sort == "B": return name in ("bool", "bool_")
        if v.sort == "I": return name in ("int", "integer", "Number", "Integral", "Real", "int64", "number")
        if v.sort == "O":
            h = s.I.flags.get("oisinst")
            return h(v, t) if h else unkb("isinstance")
        return name in ("float", "floating", "Number", "Real", "float64", "number")
    if isinstance(v, Arr): return name in ("ndarray", "Iterable") or (name in ("array", "MaskedArray") and s.I.snap(v).m is not None)
    if isinstance(v, tuple): return name in ("tuple", "Sequence", "Iterable")
    if isinstance(v, Lst): return name == v.kind or name in ("Sequence", "Iterable") and v.kind == "list"
    if isinstance(v, Dct): return name in ("dict", "Mapping", "Iterable")
    if isinstance(v, Obj):
        if isinstance(v.cls, Cls): return any(getattr(b, "name", "").split(".")[-1] == name for b in allbases(v.cls))
        if isinstance(v.cls, dict): return name in v.cls.get("__bases__", ())
        return False
    if isinstance(v, (Func, Bound, Model)): return name in ("Callable", "function", "FunctionType") or (isinstance(v, Model) and name in v.info.get("bases", ()))
    if isinstance(v, Exc): return name in IP.exc_names(v)
    return False
def allbases(c):
    out = [c]
    for b in c.bases:
        out += allbases(b) if isinstance(b, Cls) else [b]
    return out
def typeof(s, v):
    v = s.I.resolve(v)
    if v is None: return TypeVal("NoneType")
    if isinstance(v, bool): return TypeVal("bool")
    if isinstance(v, (str, SStr)): return TypeVal("str")
    if isinstance(v, T): return TypeVal({"B": "bool", "I": "int", "R": "float", "O": "object"}[v.sort])
    if isinstance(v, Arr): return TypeVal("ndarray")
    if isinstance(v, tuple): return TypeVal("tuple")
    if isinstance(v, Lst): return TypeVal(v.kind)
    if isinstance(v, Dct): return TypeVal("dict")
    if isinstance(v, Obj): return v.cls if isinstance(v.cls, Cls) else TypeVal("instance")
    if isinstance(v, (Func, Bound, Model, Lib)): return TypeVal("function")
    if isinstance(v, (TypeVal, Cls)): return TypeVal("type")
    return None
@lib("type")
def c_type(s, v, *a):
    v = s.I.resolve(v)
    if isinstance(v, Choice): return Choice(v.c, c_type(s, v.a), c_type(s, v.b))
    r = typeof(s, v)
    return s.I.unknown("type of %r" % (v,)) if r is None else r

def typecall(s, t, args, kw):
    I = s.I
    n = t.name
    args = [I.resolve(x) for x in args]
    if args and isinstance(args[0], Choice) and n in ("int", "float", "bool", "str"):
        a = args[0]
        return I.under(a.c, lambda: typecall(s, t, [a.a] + args[1:], kw), lambda: typecall(s, t, [a.b] + args[1:], kw))
    if n in IP.BUILTIN_EXC or n.endswith(("Error", "Warning")) or n == "BaseException": return Exc(n, tuple(args))
    if n == "bool":
        if not args: return False
        v = args[0]
        if isinstance(v, Arr) and v.ndim: return I.truth(v)
        return tbool(tb(I.truth(v)))
    if n in ("single", "half"):
        v = args[0] if args else ZERO
        if isinstance(v, (Arr, Lst, tuple)): return s.copyarr(v, n)
        return s.cast(v, None, n) if isinstance(v, T) else s.I.unknown("narrow float")
    if n in ("float", "int"):
        if not args: return ZERO
        v = args[0]
        if isinstance(v, bool): v = num(int(v))
        if isinstance(v, str):
            try: return num(int(v)) if n == "int" else num(float(v))
            except ValueError: raise I.raise_("ValueError", "conversion")
        if isinstance(v, SStr):
            h = I.flags.get("sstr_num")
            if h:
                r = h(I, v, n)
                if r is not None: return r
            import textio
            r = textio.number(I, v, n)
            if r is not None: return r
            return I.unknown("number of symbolic string")
        if isinstance(v, T) and v.sort == "O":
            h = I.flags.get("onum")
            if h: return h(I, v, n)
            return I.unknown("number of object")
        if isinstance(v, T):
            v = num_of_bool(v)
            if n == "int" and v is NAN: raise I.raise_("ValueError", "int(nan)")
            return fn("trunc", v) if n == "int" else v
        if isinstance(v, Arr):
            sn = I.snap(v)
            if all(isinstance(d, T) and d is ONE for d in sn.shape): return typecall(s, t, [sn.at(tuple(ZERO for _ in sn.shape))], {})
            return s.copyarr(v, n) if kw.get("_np") else I.unknown("scalar conversion of an array")
        if v is None or isinstance(v, (tuple, Lst, Dct)): raise I.raise_("TypeError", "conversion")
        return I.unknown("conversion")
    if n == "str":
        if not args: return ""
        v = args[0]
        if isinstance(v, (Unk,)): return I.unknown("str")
        if isinstance(v, (T, Arr, tuple, Lst, Dct)): return SStr([("", v)]) if not lit(v) or numval(v).denominator != 1 else str(int(numval(v)))
        return s.format_value(v, "") if isinstance(v, (str, SStr, bool)) or v is None else SStr([("", v)])
    if n == "list":
        if not args: return I.newlist([])
        it = I.items(args[0])
        if it is not None: return I.newlist(it)
        v = args[0]
        q = I.symseq(v)
        if q is not None and q[2] is None:
            l = Lst("list"); I.S.heap[l.oid] = SymL(q[0], q[1]); return l
        if v is None or isinstance(v, T): raise I.raise_("TypeError", "not iterable")
        if isinstance(v, SStr):
            return I.unknown("list of symbolic string")
        return I.unknown("list()")
    if n == "tuple":
        if not args: return ()
        it = I.items(args[0])
        return tuple(it) if it is not None else I.unknown("tuple()")
    if n in ("set", "frozenset"):
        if not args: return I.newlist([], "set")
        it = I.items(args[0])
        if it is None: return I.unknown("set()")
        out = []
        for x in it:
            if not any(I.equal(x, y) is True for y in out): out.append(x)
        return I.newlist(out, "set")
    if n == "dict":
        d = {}
        if args:
            v = args[0]
            if isinstance(v, Dct): d.update(I.S.heap[v.oid])
            elif isinstance(v, ObjDict): d.update(I.S.heap[v.obj.oid])
            else:
                it = I.items(v)
                if it is None: return I.unknown("dict()")
                for p in it:
                    k, x = I.unpack(p, 2)
                    if not is_key(k): return I.unknown("dict()")
                    d[key(k)] = x
        d.update(kw)
        return I.newdict(d)
    if n == "slice":
        a = list(args)
        if len(a) == 1: return Slice(None, a[0], None)
        return Slice(a[0], a[1], a[2] if len(a) > 2 else None)
    if n == "object":
        o = Obj(Cls("object", None, {}, [])); I.S.heap[o.oid] = {}; return o
    if n == "ndarray": return I.unknown("ndarray()")
    return I.unknown("call of type " + n)

# ------------------------------------------------------------------ Cython: declarations, addresses, BLAS / LAPACK
CLIB = {"exp": "exp", "sqrt": "sqrt", "fabs": "abs", "cos": "cos", "sin": "sin", "tan": "tan", "log": "log", "log2": "log2", "log10": "log10", "acos": "arccos",
        "asin": "arcsin", "atan": "arctan", "floor": "floor", "ceil": "ceil", "cosh": "cosh", "sinh": "sinh", "tanh": "tanh", "pow": "power", "atan2": "arctan2",
        "hypot": "hypot", "fmin": "minimum", "fmax": "maximum", "isnan": "isnan", "cbrt": "cbrt", "expm1": "expm1", "log1p": "log1p"}
@lib("builtins.__clib__")
def c_clib(s, name):
    short = name.split(".")[-1]
    if name.startswith("libc"):
        if short == "M_PI": return PI
        if short in CLIB: return Lib("numpy." + CLIB[short])
        return Lib(name)
    if short == "prange": return Lib("builtins.range")
    if short in BLAS: return Model(short, BLAS[short])
    return Lib(name)
@lib("builtins.__unsupported__")
def c_unsup(s, what): return s.I.unknown("Cython construct " + str(what))
@lib("builtins.__uninit__")
def c_uninit(s, name, ty):
    s.I.fresh_uninit = getattr(s.I, "fresh_uninit", 0) + 1
    return ufn("uninit:%s:%d" % (name, s.I.fresh_uninit), sort="I" if ty == "int" else "R")
@lib("builtins.__ccast__")
def c_ccast(s, ty, v):
    v = s.I.resolve(v)
    if isinstance(v, bool): v = num(int(v))
    if isinstance(v, Choice) or not isinstance(v, T): return v
    if v.sort == "B": v = num_of_bool(v)
    if ty == "float": return fn("single", v)
    if ty == "int" and v.sort != "I":
        if is_num(v):
            q = numval(v); return num(int(q))
        return fn("trunc", v)
    return v
@lib("builtins.__carray__")
def c_carray(s, n, ty): return s.I.newarr((n,), lambda ix: ufn("uninit:carray", *ix), {"double": "float", "float": "single"}.get(ty, "int"))
@lib("builtins.__mview__")
def c_mview(s, v, ty, nd, order):
    I = s.I
    nd = int(numval(nd)) if isinstance(nd, T) else nd
    v = I.resolve(v)
    if isinstance(v, Choice): return I.under(v.c, lambda: c_mview(s, v.a, ty, nd, order), lambda: c_mview(s, v.b, ty, nd, order))
    if isinstance(v, Arr):
        if v.ndim != nd: raise I.raise_("ValueError", "buffer dimensions")
        return v
    if v is None or isinstance(v, Unk): return v
    raise I.raise_("TypeError", "not a buffer")
class _Ref: pass
@lib("builtins.__ref__")
def c_ref(s, v): return Model("ref", None, value=v)
@lib("builtins.__elem__")
def c_elem(s, a, order, *ix): return Model("ptr", None, arr=s.I.resolve(a), order=order, ix=ix)
def _deref(m): return m.info["value"] if isinstance(m, Model) and m.name == "ref" else m
def _flat(s, p):
    """(read(k), size, offset, arr) of the memory behind an element pointer"""
    a = p.info["arr"]; ix = p.info["ix"]; I = s.I
    if not isinstance(a, Arr): return None
    sn = I.snap(a)
    if a.ndim == 1:
        return (lambda k: sn.at((k,))), dsize(a.shape[0]), ix[0], a
    if a.ndim == 2 and all(x is ZERO for x in ix): return None, None, ix, a
    return None
def _mat(s, p, lda, what):
    """element accessor M(i, j) of a column-major matrix behind a pointer"""
    I = s.I
    a = p.info["arr"]
    if not isinstance(a, Arr): return None
    sn = I.snap(a)
    if a.ndim == 1:
        off = p.info["ix"][0]
        return lambda i, j: sn.at((add(off, add(i, mul(lda, j))),))
    if a.ndim == 2 and all(x is ZERO for x in p.info["ix"]):
        n0, n1 = a.shape
        if p.info["order"] == "F" and dim_eq(n0, lda): return lambda i, j: sn.at((i, j))
        if p.info["order"] == "C" and dim_eq(n1, lda): return lambda i, j: sn.at((j, i))
    I.unknown(what + ": memory layout")
    return None
def _ptr_access(s, p, last, what):
    I = s.I
    if not I.flags.get("bounds"): return
    a = p.info["arr"]
    if not isinstance(a, Arr): return
    tot = ONE
    for d in a.shape: tot = mul(tot, dsize(d))
    if a.ndim == 1: lo = p.info["ix"][0]
    elif a.ndim == 2:
        n0, n1 = dsize(a.shape[0]), dsize(a.shape[1]); i, j = p.info["ix"]
        lo = add(i, mul(n0, j)) if p.info["order"] == "F" else add(mul(i, n1), j)
    I.event("access", arr=a, dim="flat", index=lo, size=tot, acc="pointer", what=what)
    I.event("access", arr=a, dim="flat", index=add(lo, last), size=tot, acc="pointer", what=what)
def _refs(args): return tuple(_deref(a) for a in args if isinstance(a, Model) and a.name == "ref")
def m_dgemv(I, args, kw, node=None):
    s = I.np
    if len(args) != 11: return I.unknown("dgemv arguments")
    tr_, m, n, al, a, lda, x, incx, be, y, incy = [_deref(v) for v in args]
    if not isinstance(tr_, str): return I.unknown("dgemv trans")
    M = _mat(s, a, lda, "dgemv")
    if M is None: return I.unknown("dgemv matrix")
    if tr_ in ("T", "t", "C", "c"): M0 = M; M = lambda i, j: M0(j, i); rows, cols = n, m
    else: rows, cols = m, n
    _ptr_access(s, a, add(sub(m, ONE), mul(lda, sub(n, ONE))), "dgemv a")
    _ptr_access(s, x, mul(sub(cols, ONE), incx), "dgemv x"); _ptr_access(s, y, mul(sub(rows, ONE), incy), "dgemv y")
    if not (incx is ONE and incy is ONE): return I.unknown("dgemv increments")
    xa, ya = x.info["arr"], y.info["arr"]
    if not (isinstance(xa, Arr) and isinstance(ya, Arr) and xa.ndim == 1 and ya.ndim == 1): return I.unknown("dgemv vectors")
    xs, ys = I.snap(xa), I.snap(ya)
    xo, yo = x.info["ix"][0], y.info["ix"][0]
    same = xa.buf == ya.buf
    def f(ix):
        i = ix[0]
        v = mul(al, s.over(cols, lambda k: mul(M(i, k), xs.at((add(xo, k),))), "sum"))
        return v if be is ZERO else add(v, mul(be, ys.at((add(yo, i),))))
    v = s.view1(ya, yo, rows)
    s.store_view(v, I.newarr((rows,), f if not same else (lambda ix: unk("dgemv aliases")), "float"))
    return _refs(args)
def m_gemm_unknown(I, args, kw, node=None):
    I.unknown("BLAS call")
    for a in args:
        if isinstance(a, Model) and a.name == "ptr" and isinstance(a.info["arr"], Arr): I.np.smash(a.info["arr"])
    return _refs(args)
def m_dgesv(I, args, kw, node=None):
    s = I.np
    if len(args) != 8: return I.unknown("dgesv arguments")
    n, nrhs, a, lda, ip, b, ldb, info = [_deref(v) for v in args]
    M = _mat(s, a, lda, "dgesv")
    if M is None: return m_gemm_unknown(I, args, kw)
    _ptr_access(s, a, add(sub(n, ONE), mul(lda, sub(n, ONE))), "dgesv a"); _ptr_access(s, ip, sub(n, ONE), "dgesv ipiv")
    _ptr_access(s, b, add(sub(n, ONE), mul(ldb, sub(nrhs, ONE))), "dgesv b")
    ba = b.info["arr"]
    if nrhs is not ONE or ba.ndim != 1: return m_gemm_unknown(I, args, kw)
    bs = I.snap(ba); bo = b.info["ix"][0]
    A = Snap((n, n), lambda ix: M(ix[0], ix[1]), "float")
    B = Snap((n,), lambda ix: bs.at((add(bo, ix[0]),)), "float")
    I.event("solve", mat=A, rhs=B, tag="inv")
    get = s.matkey(A)
    sol = I.newarr((n,), lambda ix: s.over(n, lambda k: mul(ufn("inv", get(), ix[0], k), B.at((k,))), "sum"), "float")
    aa = a.info["arr"]
    s.smash(aa, "factors") 
    if isinstance(ip.info["arr"], Arr): s.smash(ip.info["arr"], "pivots")
    s.store_view(s.view1(ba, bo, n), sol)
    r = [_deref(x) for x in args if isinstance(x, Model) and x.name == "ref"]
    r[-1] = I.flags.get("dgesv_info", ZERO)           # info: a non-singular system unless the check says otherwise
    return tuple(r)
BLAS = {"dgemv": m_dgemv, "dgesv": m_dgesv}
for _n in ("dgemm", "dsymv", "dgetrf", "dgetrs", "dposv", "dsysv", "daxpy", "dcopy", "dscal"): BLAS[_n] = m_gemm_unknown
def m_ddot(I, args, kw, node=None):
    n, x, incx, y, incy = [_deref(v) for v in args]
    s = I.np
    xa, ya = x.info["arr"], y.info["arr"]
    if not (incx is ONE and incy is ONE and xa.ndim == 1 and ya.ndim == 1): return I.unknown("ddot")
    _ptr_access(s, x, sub(n, ONE), "ddot x"); _ptr_access(s, y, sub(n, ONE), "ddot y")
    xs, ys = I.snap(xa), I.snap(ya); xo, yo = x.info["ix"][0], y.info["ix"][0]
    return s.over(n, lambda k: mul(xs.at((add(xo, k),)), ys.at((add(yo, k),))), "sum")
BLAS["ddot"] = m_ddot
@lib("numpy.asfortranarray")
def c_asfort(s, v, dtype=None, **k):
    v = s.I.resolve(v)
    if isinstance(v, Arr) and v.ndim == 1: return c_asarray(s, v, dtype)
    return s.copyarr(v, s.dtype(s.I.resolve(dtype)))
@lib("numpy.ascontiguousarray", "numpy.require")
def c_ascontig(s, v, dtype=None, *a, **k):
    v = c_asarray(s, v, dtype)
    if isinstance(v, Arr) and v.vmap is not None: return s.copyarr(v)
    return v
@lib("numpy.asanyarray")
def c_asany(s, v, dtype=None, **k): return c_asarray(s, v, dtype)

@lib("scipy.linalg.helmert")
def _helmert(s, n, full=False):
    """rows m = 1..n-1 of the Helmert matrix: 1/sqrt(m(m+1)) before column m, -m/sqrt(m(m+1)) at it, 0 after (full: the constant row first)"""
    n = s.I.resolve(n); full = s.I.resolve(full)
    if not (isinstance(n, T) and is_num(n)) or not isinstance(full, bool): return s.I.unknown("helmert of symbolic size")
    k = int(numval(n)); off = 0 if full else 1
    rows = [[div(ONE, sqrt(num(k)))] * k] if full else []
    for m in range(1, k):
        d = sqrt(num(m * (m + 1)))
        rows.append([div(ONE, d)] * m + [div(num(-m), d)] + [ZERO] * (k - 1 - m))
    return s.I.newarr((num(len(rows)), num(k)), lambda ix: s.pickk(ix[0], [(lambda row=row: s.pickk(ix[1], [(lambda t=t: t) for t in row])) for row in rows]), "float")
@lib("numpy.finfo")
def _finfo(s, dtype=None):
    return Model("finfo", None, eps=num(F(1, 2 ** 52)), tiny=num(F(1, 2 ** 1022)), smallest_normal=num(F(1, 2 ** 1022)), max=num(F(2) ** 1024 - F(2) ** 971), min=num(-(F(2) ** 1024 - F(2) ** 971)))

@lib("numpy.copyto")
def c_copyto(s, dst, src, casting=None, where=None):
    dst = s.I.resolve(dst); where = s.I.resolve(where)
    if not isinstance(dst, Arr): return s.I.unknown("copyto")
    if where is None or where is True: s.store_all(dst, src); return None
    s.store_all(dst, s.emap(lambda c, x, y: ite(TM.truth(c), x, y), where, src, dst))
    return None
@lib("numpy.putmask", "numpy.place")
def c_putmask(s, a, mask, vals):
    a = s.I.resolve(a); v = s.need(vals, "putmask"); d = s.need(a, "putmask")
    if not isinstance(a, Arr) or v is None: return s.I.unknown("putmask")
    if v.ndim != 0 and not (v.ndim == d.ndim and tuple(v.shape) == tuple(d.shape)):
        s.smash(a, "putmask"); return s.I.unknown("putmask repeats its values")
    s.store_all(a, s.emap(lambda c, x, y: ite(TM.truth(c), x, y), mask, vals, a))
    return None
@lib("numpy.block")
def c_block(s, v):
    I = s.I
    rows = I.items(v)
    if rows is None: return I.unknown("block")
    def islist(x): x = I.resolve(x); return isinstance(x, Lst)
    if all(islist(r) for r in rows):
        out = []
        for r in rows:
            it = I.items(r)
            if it is None or any(islist(x) for x in it): return I.unknown("block")
            sn = [s.snap(x) for x in it]
            if any(x is None for x in sn): return I.unknown("block")
            out.append(s.concat([up(s, x, 2) for x in sn], 1))
        return s.mkarr(s.concat(out, 0))
    if any(islist(r) for r in rows): return I.unknown("block")
    sn = [s.snap(x) for x in rows]
    if any(x is None for x in sn): return I.unknown("block")
    nd = max([1] + [x.ndim for x in sn])
    return s.mkarr(s.concat([up(s, x, nd) for x in sn], nd - 1))
@lib("numpy.pad")
def c_pad(s, v, width, mode="constant", constant_values=ZERO, **k):
    I = s.I
    sn = s.need(v, "pad")
    if sn is None or mode != "constant" or k: return I.unknown("pad")
    def pairs(x):
        """numpy broadcasts the widths (and the constants) to one pair per axis"""
        x = I.resolve(x)
        if isinstance(x, T): return [(x, x)] * sn.ndim
        it = I.items(x)
        if it is None: return None
        it = [I.resolve(y) for y in it]
        if all(isinstance(y, T) for y in it):
            return [tuple(it * 2)] * sn.ndim if len(it) == 1 else [tuple(it)] * sn.ndim if len(it) == 2 else None
        it = [I.items(y) for y in it]
        if any(y is None for y in it): return None
        it = [tuple(y * 2) if len(y) == 1 else tuple(y) for y in it]
        return it * sn.ndim if len(it) == 1 else it if len(it) == sn.ndim else None
    ws, cs = pairs(width), pairs(constant_values)
    if ws is None or cs is None or any(not is_num(x) for w in ws for x in w): return I.unknown("pad")
    r = sn
    for d, ((b, a), (cb, ca)) in enumerate(zip(ws, cs)):
        def fill(n, c):
            return Snap(r.shape[:d] + (n,) + r.shape[d + 1:], (lambda c: lambda ix: c)(c), r.dtype)
        parts = ([fill(b, cb)] if b is not ZERO else []) + [r] + ([fill(a, ca)] if a is not ZERO else [])
        r = s.concat(parts, d) if len(parts) > 1 else r
    return s.mkarr(r)
@lib("numpy.fromiter")
def c_fromiter(s, v, dtype=None, count=None, **k): return s.copyarr(v, s.dtype(s.I.resolve(dtype)))
@lib("numpy.vectorize", "numpy.frompyfunc")
def c_vectorize(s, f=None, *a, **k):
    if f is None or a or any(x not in ("otypes", "doc") for x in k): return s.I.unknown("vectorize")
    def go(it, b, kw, n):
        if kw: return it.unknown("vectorize")
        def el(*xs):
            r = it.resolve(it.call(f, list(xs), {}, n))
            return r if isinstance(r, T) else num(r) if isinstance(r, bool) else unk("vectorised value")
        return s.emap(el, *b)
    return Model("vectorize", go)
@lib("numpy.delete")
def c_delete(s, v, k, axis=None):
    sn = s.need(v, "delete"); k = s.I.resolve(k)
    if sn is None or not (isinstance(k, T) and is_num(k)): return s.I.unknown("delete")
    if axis is None and sn.ndim != 1: return s.I.unknown("delete")
    d = 0 if axis is None else intlit(axis) % sn.ndim
    kk = numval(k); n = sn.shape[d]
    if isinstance(n, FDim): return s.I.unknown("delete")
    p = k if kk >= 0 else add(n, k)
    f = lambda ix: sn.at(ix[:d] + (ite(lt(ix[d], p), ix[d], add(ix[d], ONE)),) + ix[d + 1:])
    return s.mkarr(Snap(sn.shape[:d] + (sub(n, ONE),) + sn.shape[d + 1:], f, sn.dtype))
@lib("numpy.rollaxis")
def c_rollaxis(s, v, axis, start=ZERO):
    a, b = intlit(axis), intlit(start)
    sn = s.need(v, "rollaxis")
    if sn is None: return s.I.unknown("rollaxis")
    a %= sn.ndim; b = b + sn.ndim if b < 0 else b
    if b > a: b -= 1
    return s.call(Lib("numpy.moveaxis"), [v, num(a), num(b)], {}, s.I.node)
def _outer_uf(n, f):
    def g(s, a, b, **k):
        A, B = s.need(a, "outer"), s.need(b, "outer")
        if A is None or B is None or k: return s.I.unknown("outer")
        return s.mkarr(Snap(A.shape + B.shape, lambda ix: f(A.at(ix[:A.ndim]), B.at(ix[A.ndim:])), "bool" if n in BOOLU else s.join_dtype([A.dtype, B.dtype])))
    return g
for _n, _f in UF2.items(): CALLS["numpy." + _n + ".outer"] = _outer_uf(_n, _f)
for _n, _t in (("add", "numpy.sum"), ("multiply", "numpy.prod"), ("maximum", "numpy.max"), ("minimum", "numpy.min"), ("logical_and", "numpy.all"), ("logical_or", "numpy.any")):
    CALLS["numpy." + _n + ".reduce"] = (lambda t: lambda s, v, axis=ZERO, **k: s.call(Lib(t), [v], {"axis": axis}, s.I.node) if not k else s.I.unknown("reduce"))(_t)

for _n, _o in {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow", "matmul": "MatMult", "and_": "BitAnd", "or_": "BitOr", "xor": "BitXor"}.items():
    CALLS["operator." + _n] = (lambda o: lambda s, a, b: s.I.binop(o(), a, b))(getattr(ast, _o))
for _n, _o in {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}.items():
    CALLS["operator." + _n] = (lambda o: lambda s, a, b: s.I.compare(o(), a, b))(getattr(ast, _o))
CALLS["operator.getitem"] = lambda s, a, b: s.I.getitem(a, b)
