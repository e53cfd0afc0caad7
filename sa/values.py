"""Abstract values of the interpreter: tensors, objects, gated (Choice) values and abstract state."""
import itertools
from terms import *
import terms as TM

_oid = itertools.count(1)
def new_oid(): return next(_oid)

class V: pass
class _Undef(V):
    def __repr__(s): return "UNDEF"
UNDEF = _Undef()
class Unk(V):
    def __init__(s, why): s.why = why
    def __repr__(s): return "Unk(%s)" % s.why
class Lib(V):
    def __init__(s, name): s.name = name
    def __repr__(s): return "<lib %s>" % s.name
    def __eq__(s, o): return isinstance(o, Lib) and o.name == s.name
    def __hash__(s): return hash(s.name)
class Mod(V):
    def __init__(s, name, path): s.name, s.path, s.oid = name, path, new_oid()
    def __repr__(s): return "<mod %s>" % s.name
class Func(V):
    def __init__(s, node, mod, name, cells, defaults, kwdefaults, cls=None, lang="py"):
        s.node, s.mod, s.name, s.cells, s.defaults, s.kwdefaults, s.cls, s.lang = node, mod, name, cells, defaults, kwdefaults, cls, lang
        s.attrs = {}
    def __repr__(s): return "<func %s>" % s.name
class Bound(V):
    def __init__(s, f, self_): s.f, s.self_ = f, self_
    def __repr__(s): return "<bound %r>" % s.f
class Model(V):
    """a function given by an analysis-side model: fn(interp, args, kwargs, node) -> value"""
    def __init__(s, name, fn, **info): s.name, s.fn, s.info = name, fn, info
    def __repr__(s): return "<model %s>" % s.name
class Cls(V):
    def __init__(s, name, mod, attrs, bases, node=None): s.name, s.mod, s.attrs, s.bases, s.node = name, mod, attrs, bases, node
    def __repr__(s): return "<class %s>" % s.name
    def lookup(s, a):
        if a in s.attrs: return s.attrs[a]
        for b in s.bases:
            if isinstance(b, Cls):
                r = b.lookup(a)
                if r is not None: return r
        return None
    def mro_names(s):
        out = [s.name]
        for b in s.bases:
            out += b.mro_names() if isinstance(b, Cls) else [getattr(b, "name", "?")]
        return out
class Obj(V):
    def __init__(s, cls): s.cls, s.oid = cls, new_oid()
    def __repr__(s): return "<obj %s #%d>" % (getattr(s.cls, "name", s.cls), s.oid)
class ObjDict(V):
    def __init__(s, obj): s.obj = obj
class Lst(V):
    def __init__(s, kind="list"): s.oid = new_oid(); s.kind = kind
    def __repr__(s): return "<%s #%d>" % (s.kind, s.oid)
class Dct(V):
    def __init__(s): s.oid = new_oid()
    def __repr__(s): return "<dict #%d>" % s.oid
class SymL:
    """content of a list of symbolic length: n, f(k) -> value"""
    def __init__(s, n, f): s.n, s.f = n, f
class TypeVal(V):
    def __init__(s, name): s.name = name
    def __repr__(s): return "<type %s>" % s.name
    def __eq__(s, o): return isinstance(o, TypeVal) and o.name == s.name
    def __hash__(s): return hash(s.name)
class Exc(V):
    def __init__(s, name, args=(), cls=None): s.name, s.args, s.cls = name, args, cls
    def __repr__(s): return "<exc %s>" % s.name
class NTup(tuple):
    """an instance of a named tuple: a tuple that knows its class"""
    def __new__(cls, items, c):
        o = tuple.__new__(cls, items); o.cls = c
        return o
    @property
    def fields(self): return self.cls.lookup("__nt_fields__")
class Choice(V):
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
    def __repr__(s): return "Choice(%s,%r,%r)" % (show(s.c), s.a, s.b)
class SymRange(V):
    """range over [lo, hi) with step; filt(k) optional predicate; val(k) optional element"""
    def __init__(s, lo, hi, step=1): s.lo, s.hi, s.step = lo, hi, step
class SStr(V):
    """string with symbolic pieces: tuple of str | (spec, value)"""
    def __init__(s, parts): s.parts = tuple(parts)
    def __repr__(s): return "SStr%r" % (s.parts,)
class Slice(V):
    def __init__(s, lo, hi, st): s.lo, s.hi, s.st = lo, hi, st
ELL = Lib("Ellipsis")

# ------------------------------------------------------------------ tensors
class FDim:
    """filtered dimension: the indices of src (row-major) where pred holds, in order"""
    def __init__(s, src, pred):
        s.src, s.pred = tuple(src), pred
        s._key = None; s._count = None
    def key(s):
        if s._key is None:
            with nofacts(): s._key = lam(s.src, lambda *ix: s.pred(tuple(ix)))
        return s._key
    def count(s):
        if s._count is None:
            def go(d, ix):
                if d == len(s.src): return num_of_bool(s.pred(ix))
                return summ(s.src[d], lambda i: go(d + 1, ix + (i,)))
            with nofacts(): s._count = go(0, ())
        return s._count
    def nth(s, r):
        """source index of the r-th element"""
        if len(s.src) == 1:
            n = s.src[0]
            i = TM._index(n)
            body = s.pred((i,))
            if body is TRUE: return (r,)
            if r is ZERO: return (mkbind("first", n, body, i, "I"),)
            if r is not None and is_num(r) and numval(r) == -1: return (mkbind("last", n, body, i, "I"),)
            return (mkbind("nz", n, body, i, "I", (r,)),)
        if r is ZERO and len(s.src) == 2:
            i0 = find("first", s.src[0], lambda i: any_(s.src[1], lambda j: s.pred((i, j))))
            return (i0, find("first", s.src[1], lambda j: s.pred((i0, j))))
        return tuple(unk("rank in filtered dims") for _ in s.src)
    def same(s, o):
        return s is o or (isinstance(o, FDim) and len(s.src) == len(o.src) and s.key() is o.key())
    def __repr__(s): return "F%r" % (s.src,)
class nofacts:
    """closed terms used as identities must not depend on the current assumptions"""
    def __enter__(s): s.old = Ctx.facts; set_facts(())
    def __exit__(s, *a): set_facts(s.old)

def dsize(d): return d.count() if isinstance(d, FDim) else d
def dfresh(d, name="q"):
    if isinstance(d, FDim): return tuple(TM._index(n, name) for n in d.src)
    return TM._index(d, name)
def dim_eq(a, b):
    """True/False/None"""
    if a is b: return True
    if isinstance(a, FDim) or isinstance(b, FDim):
        if isinstance(a, FDim) and isinstance(b, FDim):
            if a.same(b): return True
            return None
        f, o = (a, b) if isinstance(a, FDim) else (b, a)
        return None if not (is_num(o)) else None
    d = sub(a, b)
    if is_num(d): return numval(d) == 0
    return decide_eq0(d)

class Content:
    __slots__ = ("shape", "f", "dtype", "m", "memo", "alias")
    def __init__(s, shape, f, dtype="float", m=None, alias=()):
        s.shape, s.f, s.dtype, s.m, s.memo, s.alias = tuple(shape), f, dtype, m, {}, tuple(alias)
    def at(s, idx):
        k = (idx, Ctx.facts)
        r = s.memo.get(k)
        if r is None:
            r = s.f(idx)
            if not isinstance(r, T): raise TypeError("element is not a term: %r" % (r,))
            s.memo[k] = r
        return r
    def mask_at(s, idx): return FALSE if s.m is None else s.m(idx)

class Arr(V):
    """view onto a buffer: vmap maps each buffer dim to ('fix', t) or ('ax', d, start, step)"""
    __slots__ = ("buf", "shape", "vmap", "tag")
    def __init__(s, buf, shape, vmap=None, tag=None):
        s.buf, s.shape, s.vmap, s.tag = buf, tuple(shape), vmap, tag
    def __repr__(s): return "<arr %s %s>" % (s.buf, list(s.shape))
    @property
    def ndim(s): return len(s.shape)
def v2b(vmap, idx):
    if vmap is None: return idx
    out = []
    for m in vmap:
        if m[0] == "fix": out.append(m[1])
        else:
            i = idx[m[1]]
            if m[2] is ZERO and m[3] == 1: out.append(i)
            else: out.append(add(m[2], scale(i, m[3])))
    return tuple(out)

class Snap:
    """immutable snapshot of an array: shape, at(idx), dtype, mask_at(idx)"""
    __slots__ = ("shape", "at", "dtype", "m", "bufs")
    def __init__(s, shape, at, dtype, m=None, bufs=()):
        s.shape, s.at, s.dtype, s.m, s.bufs = tuple(shape), at, dtype, m, bufs
    @property
    def ndim(s): return len(s.shape)
    def mask_at(s, idx): return FALSE if s.m is None else s.m(idx)

class State:
    __slots__ = ("env", "heap", "facts")
    def __init__(s, env, heap, facts): s.env, s.heap, s.facts = env, heap, facts
    def copy(s): return State(dict(s.env), dict(s.heap), s.facts)
def is_const(v): return v is None or isinstance(v, (str, bool, bytes))
