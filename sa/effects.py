"""Effect rules: which objects a public call may change, what it may touch, what it may emit."""
from scen import *
from c10 import freeze, same_value
OUTPUT = ("print",)
def reach(I, v, seen=None, cls=False):
    """ids of the mutable objects reachable from a value: {oid: path}"""
    seen = {} if seen is None else seen
    todo = [(v, "")]
    while todo:
        v, p = todo.pop()
        v = I.resolve(v)
        if isinstance(v, Choice): todo += [(v.a, p), (v.b, p)]; continue
        if isinstance(v, tuple): todo += [(x, "%s[%d]" % (p, k)) for k, x in enumerate(v)]; continue
        if isinstance(v, Bound): todo.append((v.self_, p)); continue
        if isinstance(v, Arr):
            for i in (v.buf,) + I.S.heap[v.buf].alias: seen.setdefault(i, p)
            continue
        if isinstance(v, Func):
            continue
        oid = getattr(v, "oid", None)
        if oid is None or oid in seen or isinstance(v, Mod): continue
        seen[oid] = p
        c = I.S.heap.get(oid)
        if isinstance(c, dict): todo += [(x, "%s.%s" % (p, k)) for k, x in c.items()]
        elif isinstance(c, tuple): todo += [(x, "%s[%d]" % (p, k)) for k, x in enumerate(c)]
        elif isinstance(c, SymL):
            x = c.f(TM._index(c.n)); todo.append((x, p + "[]"))
    return seen
def shared(I):
    """objects every model shares: reachable from module globals, class attributes and argument defaults {oid: path}"""
    out = {}; seen = set()
    def visit(v, p):
        v = I.resolve(v)
        if isinstance(v, Cls):
            if id(v) in seen: return
            seen.add(id(v))
            for k, x in v.attrs.items(): visit(x, "%s.%s" % (v.name, k))
            for b in v.bases: visit(b, p)
        elif isinstance(v, Func):
            if id(v) in seen: return
            seen.add(id(v))
            for k, x in enumerate(v.defaults): visit(x, "%s: default %d" % (v.name, k))
            for k, x in v.kwdefaults.items(): visit(x, "%s: default %s" % (v.name, k))
        elif isinstance(v, (Lst, Dct, Arr, Obj)): reach_into(v, p)
    def reach_into(v, p):
        for o, q in reach(I, v).items(): out.setdefault(o, p + q)
    for m in I.mods.values():
        for k, x in (I.S.heap.get(m.oid) or {}).items(): visit(x, "%s.%s" % (m.name, k))
    return out
class Before:
    """everything that exists when a call starts"""
    def __init__(s, I):
        s.I = I; s.heap = dict(I.S.heap); s.ev = len(I.events); s.facts = I.S.facts; s.mark = new_oid(); s.unk = len(I.unsup); s.pend = len(I.pend)
    def events(s, *kinds): return [e for e in s.I.events[s.ev:] if e["kind"] in kinds]
    def changed(s, heap, allow=()):
        return [o for o, c in s.heap.items() if o not in allow and heap.get(o) is not c]
def names_of(I, roots):
    """printable names of pre-existing objects"""
    out = {}
    for nm, v in roots:
        for o, p in reach(I, v).items(): out.setdefault(o, nm + p)
    for m in I.mods.values(): out.setdefault(m.oid, "module " + m.name)
    return out
def unchanged(r, s, before, what, roots, loc, allow=(), allow_attr=None):
    """the call changed no pre-existing object: on normal completion and on every path that raises"""
    I = s.I
    nm = names_of(I, roots)
    where = {}
    for e in before.events("mutate", "setattr", "global-write"):
        if e.get("oid") is not None: where.setdefault(e["oid"], e["loc"])
    bad = 0
    outs = [("", I.S.heap)] + [(" when %s is raised" % exc_names(a.val)[0], a.S.heap) for a in I.pend[before.pend:] if a.kind == "raise" and not any("OpaqueError" in x for x in exc_names(a.val))]
    seen = set(); n = 0
    for suffix, heap in outs:
        for o in before.changed(heap, allow):
            if o in seen: continue
            if o in allow_attr_oids(allow_attr) and only_attrs(before.heap[o], heap.get(o), allow_attr[o]): continue
            if o not in nm and o not in where: continue        # module namespaces of the analysed program filled by imports
            c0, c1 = before.heap[o], heap.get(o)
            if isinstance(c0, dict) and isinstance(c1, dict) and set(c0) == set(c1) and all(c0[k] is c1[k] or (is_const(c0[k]) and c0[k] == c1[k]) for k in c0): continue
            if isinstance(c0, dict) and isinstance(c1, dict) and any(m.oid == o for m in I.mods.values()):
                ks = [k for k in c0 if c1.get(k, UNDEF) is not c0[k] and not isinstance(c1.get(k), Mod)]
                if not ks: continue
                r.bad("nothing changed", "%s: global %s of %s%s" % (what, ks[0], nm[o], suffix), where.get(o, loc)); seen.add(o); bad += 1; continue
            seen.add(o); n += 1
            v = same_content(r, s, o, c0, c1)
            if v is True: continue
            bad += 1
            if v is None and o in where and not isinstance(c0, dict): v = "stores into it"
            if v is None: r.undecided("nothing changed", "%s: %s%s" % (what, nm.get(o, "object #%d" % o), suffix), "content not resolved"); continue
            r.bad("nothing changed", "%s: %s is modified%s" % (what, nm.get(o, "an object that existed before"), suffix), where.get(o, loc), dict(change=v))
    for e in before.events("global-write"):
        bad += 1; r.bad("nothing changed", "%s: writes %s" % (what, e["name"]), e["loc"])
    if not bad: r.ok("nothing changed", "%s: %d objects, %d outcomes" % (what, len(before.heap), len(outs)))
    return not bad
def allow_attr_oids(a): return a or {}
def only_attrs(c0, c1, names):
    return isinstance(c0, dict) and isinstance(c1, dict) and all(k in names or (k in c0 and k in c1 and c0[k] is c1[k]) for k in set(c0) | set(c1))
def same_content(r, s, o, c0, c1):
    """True same, None unknown, else a description of the difference"""
    from rinterp import compare
    if isinstance(c0, dict) and isinstance(c1, dict):
        res = True
        for k in list(c0) + [k for k in c1 if k not in c0]:
            if k not in c1: return "%s removed" % (k,)
            if k not in c0: return "%s added" % (k,)
            if c0[k] is c1[k]: continue
            v = same_val(s, c0[k], c1[k])
            if v is True: continue
            if v is None: res = None; continue
            return "%s: %s" % (k, v)
        return res
    if isinstance(c0, tuple) and isinstance(c1, tuple):
        if c1[:1] == ("?choice",) or c0[:1] == ("?choice",): return None
        if len(c0) != len(c1): return "length %d becomes %d" % (len(c0), len(c1))
        res = True
        for k, (x, y) in enumerate(zip(c0, c1)):
            if x is y: continue
            v = same_val(s, x, y)
            if v is None: res = None
            elif v is not True: return "[%d]: %s" % (k, v)
        return res
    if isinstance(c0, Content) and isinstance(c1, Content):
        if len(c0.shape) != len(c1.shape): return "shape"
        for p, q in zip(c0.shape, c1.shape):
            if dim_eq(p, q) is not True: return None
        ix = tuple(dfresh(d) for d in c0.shape)
        v = compare(c0.at(ix), c1.at(ix), (), trials=8)
        return True if v.verdict == "EQUAL" else None if v.verdict != "DIFFERENT" else "values"
    return None
def same_val(s, a, b):
    from rinterp import compare
    if is_const(a) and is_const(b): return True if a == b and type(a) is type(b) else "%r becomes %r" % (a, b)
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == "O" or b.sort == "O": return True if a is b else None
        v = compare(a, b, (), trials=8)
        return True if v.verdict == "EQUAL" else None if v.verdict != "DIFFERENT" else "%s becomes %s" % (show(a)[:80], show(b)[:80])
    if isinstance(a, (Unk, Choice)) or isinstance(b, (Unk, Choice)): return None
    if type(a) is not type(b): return "%r becomes %r" % (a, b)
    if isinstance(a, Arr):
        return True if a.buf == b.buf and a.shape == b.shape and a.vmap == b.vmap else "another array"
    if isinstance(a, (Lst, Dct, Obj)): return True if a.oid == b.oid else "another object"
    if isinstance(a, (Func, Model, Cls, Lib, Mod)): return True if a is b or a == b else "%r becomes %r" % (a, b)
    if isinstance(a, Bound): return True if a.f is b.f else "%r becomes %r" % (a, b)
    return None
def unaliased(r, s, what, root, inputs, loc):
    """no mutable object of the caller is reachable from root"""
    I = s.I
    R_ = reach(I, root); bad = 0
    for nm, v in inputs:
        for o, p in reach(I, v).items():
            if o in R_:
                bad += 1
                r.bad("no aliasing", "%s: attribute %s keeps the caller's %s" % (what, R_[o].lstrip(".") or "?", nm + p), loc)
                break
    if not bad: r.ok("no aliasing", "%s: %d reachable objects" % (what, len(R_)))
