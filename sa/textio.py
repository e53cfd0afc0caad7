"""Text: strings with numeric fields in them, and files that hold them.

A string is a sequence of pieces: literal text, ("ws", n) = n blanks (n a term, at least minws(n)),
(spec, v) = the value v formatted with spec.  A file is the sequence of strings written to it.  Reading
back a formatted field gives the value that was formatted (how precisely it was written is a separate obligation)."""
import re
from values import *
import terms as TM
NUMCH = set("0123456789+-.eEnNaAiIfF")
SPEC = re.compile(r"^(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?([_,])?(?:\.(\d+))?([a-zA-Z%])?$")
def parsespec(spec):
    m = SPEC.match(spec)
    return None if m is None else dict(zip(("fill", "align", "sign", "alt", "zero", "width", "group", "prec", "type"), m.groups()))
def core(spec):
    """(left blanks?, core spec, right blanks?, width)"""
    if "|" in spec: return (False, spec, False, None)
    p = parsespec(spec)
    if p is None or p["fill"] not in (None, " ") or p["group"] or p["type"] not in (None, "f", "F", "e", "E", "g", "G", "n", "d", "s"): return (False, "?" + spec, False, None)
    if p["width"] is None or p["zero"]: return (p["sign"] == " ", spec if p["zero"] else (p["sign"] or "").strip() + ("." + p["prec"] if p["prec"] else "") + (p["type"] or ""), False, None)
    c = (p["sign"] or "").strip() + ("." + p["prec"] if p["prec"] else "") + (p["type"] or "")
    al = p["align"] or ">"
    return (al in ">=^", c, al in "<^", int(p["width"]))
def pad(w, c, v, side):
    v = v if isinstance(v, T) else ZERO
    return ufn("fmtpad:%s:%s:%s" % (w, c, side), num_of_bool(v), sort="I")
def minws(t):
    """least number of blanks"""
    tot = 0
    for m, c in TM.to_poly(t).items():
        if not m: tot += c; continue
        if len(m) != 1 or m[0][1] != 1 or c <= 0: return 0
        x = m[0][0]
        if x.op == "ite": tot += c * min(minws(x.a[1]), minws(x.a[2]))
        elif x.op == "ufn" and str(x.a[0]).startswith("fmtpad"): pass
        elif x.op == "ufn" and str(x.a[0]).startswith("fmtlen"): tot += c
        else: return 0
    return tot
def isfmt(p): return isinstance(p, tuple) and p[0] not in ("ws", "join")
def isws(p): return isinstance(p, tuple) and p[0] == "ws"
def pieces(I, s):
    """normalised pieces of a string (list), None if not resolved"""
    s = I.resolve(s)
    if isinstance(s, str): return [s] if s else []
    if isinstance(s, Choice): return choice_pieces(I, s.c, pieces(I, s.a), pieces(I, s.b))
    if not isinstance(s, SStr): return None
    out = []
    for p in s.parts:
        if isinstance(p, str): out.append(p); continue
        if p[0] == "ws": out.append(p); continue
        if p[0] == "join":
            return None
        spec, v = p[0], I.resolve(p[1])
        if isinstance(v, Choice): 
            r = choice_pieces(I, v.c, pieces(I, SStr([(spec, v.a)])), pieces(I, SStr([(spec, v.b)])))
            if r is None: return None
            out += r; continue
        if isinstance(v, (str, SStr)) and spec in ("", "s"): 
            q = pieces(I, v)
            if q is None: return None
            out += q; continue
        if isinstance(v, Arr) and not v.shape: v = I.snap(v).at(())
        if not isinstance(v, T): return None
        l, c, r, w = core(spec)
        if l: out.append(("ws", pad(w, c, v, "l") if w else ZERO))
        out.append((c, v))
        if r: out.append(("ws", pad(w, c, v, "r")))
    return joinp(out)
def choice_pieces(I, c, a, b):
    if a is None or b is None: return None
    if a == b: return a
    if len(a) != len(b): return None
    out = []
    for x, y in zip(a, b):
        if isinstance(x, str) and isinstance(y, str):
            if x != y: return None
            out.append(x)
        elif isws(x) and isws(y): out.append(("ws", ite(c, x[1], y[1])))
        elif isfmt(x) and isfmt(y): out.append((x[0] if x[0] == y[0] else "|".join(sorted(set(x[0].split("|") + y[0].split("|")))), ite(c, num_of_bool(x[1]), num_of_bool(y[1]))))
        elif isws(x) and isinstance(y, str) and not y.strip(" "): out.append(("ws", ite(c, x[1], num(len(y)))))
        elif isws(y) and isinstance(x, str) and not x.strip(" "): out.append(("ws", ite(c, num(len(x)), y[1])))
        else: return None
    return out
def joinp(ps):
    """merge adjacent blanks and text; blanks inside literals stay literal"""
    out = []
    for p in ps:
        if p == "": continue
        if out and isinstance(p, str) and isinstance(out[-1], str): out[-1] += p
        elif out and isws(p) and isws(out[-1]): out[-1] = ("ws", add(out[-1][1], p[1]))
        elif out and isws(p) and isinstance(out[-1], str) and out[-1].endswith(" "):
            k = len(out[-1]) - len(out[-1].rstrip(" ")); out[-1] = out[-1].rstrip(" ")
            if not out[-1]: out.pop()
            if out and isws(out[-1]): out[-1] = ("ws", add(out[-1][1], p[1], num(k)))
            else: out.append(("ws", add(p[1], num(k))))
        elif out and isws(out[-1]) and isinstance(p, str) and p.startswith(" "):
            k = len(p) - len(p.lstrip(" ")); out[-1] = ("ws", add(out[-1][1], num(k)))
            if p.lstrip(" "): out.append(p.lstrip(" "))
        else: out.append(p)
    return out
def mk(ps):
    ps = joinp(ps)
    if not ps: return ""
    if len(ps) == 1 and isinstance(ps[0], str): return ps[0]
    if len(ps) == 1 and isws(ps[0]) and is_num(ps[0][1]): return " " * int(numval(ps[0][1]))
    return SStr(ps)
def lstripp(ps):
    ps = list(ps)
    while ps:
        if isws(ps[0]): ps.pop(0)
        elif isinstance(ps[0], str):
            ps[0] = ps[0].lstrip()
            if ps[0]: break
            ps.pop(0)
        else: break
    return ps
def rstripp(ps):
    ps = list(ps)
    while ps:
        if isws(ps[-1]): ps.pop()
        elif isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip()
            if ps[-1]: break
            ps.pop()
        else: break
    return ps
def splitws(I, ps):
    """whitespace-separated tokens (each a list of pieces); a value directly after another, with blanks that may be none, is reported"""
    toks = []; cur = []
    for k, p in enumerate(ps):
        if isws(p):
            if minws(p[1]) <= 0 and cur and k + 1 < len(ps) and not (isinstance(ps[k + 1], str) and ps[k + 1][:1].isspace()):
                I.event("glued", before=cur[-1], after=ps[k + 1])
            if cur: toks.append(cur); cur = []
        elif isinstance(p, str):
            for w in re.split(r"(\s+)", p):
                if not w: continue
                if w.isspace():
                    if cur: toks.append(cur); cur = []
                else: cur.append(w)
        else:
            if cur and isfmt(cur[-1]): I.event("glued", before=cur[-1], after=p)
            cur.append(p)
    if cur: toks.append(cur)
    return toks
def length(ps):
    t = ZERO
    for p in ps:
        if isinstance(p, str): t = add(t, num(len(p)))
        elif isws(p): t = add(t, p[1])
        else: t = add(t, ufn("fmtlen:" + p[0], num_of_bool(p[1]), sort="I"))
    return t
def method(I, o, a):
    """method of a symbolic string; None if there is none"""
    if not hasattr(str, a): return None
    from interp import Model as M_
    def call(it, args, kw, node):
        args = [it.resolve(x) for x in args]
        ps = pieces(it, o)
        if ps is None: return it.unknown("method of symbolic string")
        r = domethod(it, o, ps, a, args, kw)
        return it.unknown("method %s of symbolic string" % a) if r is NotImplemented else r
    return Model("str." + a, call)
def domethod(I, o, ps, a, args, kw):
    if a in ("strip", "lstrip", "rstrip"):
        if args and args[0] is not None and not (isinstance(args[0], str) and (args[0] == " " or set(args[0]) >= set(" \n"))):
            ch = args[0]
            if not isinstance(ch, str): return NotImplemented
            if a != "rstrip" and ps and isinstance(ps[0], str): ps = [ps[0].lstrip(ch)] + ps[1:]
            if a != "lstrip" and ps and isinstance(ps[-1], str): ps = ps[:-1] + [ps[-1].rstrip(ch)]
            return mk(ps) if set(ch).isdisjoint(NUMCH | {" "}) else NotImplemented
        if a != "rstrip": ps = lstripp(ps)
        if a != "lstrip": ps = rstripp(ps)
        return mk(ps)
    if a in ("lower", "upper", "casefold"): return mk([getattr(p, a)() if isinstance(p, str) else p for p in ps])
    if a == "split" and (not args or args[0] is None) and not kw and len(args) < 2: return I.newlist([mk(t) for t in splitws(I, ps)])
    if a in ("split", "partition") and args and isinstance(args[0], str) and args[0] and set(args[0]).isdisjoint(NUMCH | {" "}):
        sep = args[0]; mx = -1
        m = args[1] if len(args) > 1 else kw.get("maxsplit")
        if m is not None: mx = int(numval(m))
        if a == "partition": mx = 1
        out = [[]]; n = 0
        for p in ps:
            if isinstance(p, str):
                while (mx < 0 or n < mx) and sep in p:
                    x, p = p.split(sep, 1); out[-1].append(x); out.append([]); n += 1
            out[-1].append(p)
        r = [mk(x) for x in out]
        if a == "partition": return (r[0], sep, r[1]) if len(r) == 2 else (r[0], "", "")
        return I.newlist(r)
    if a in ("rsplit", "split") and args and isinstance(args[0], (str, SStr)):
        net = pieces(I, args[0])
        inner = lstripp(rstripp(ps))
        if net and inner == net:
            l = ps[:len(ps) - len(lstripp(ps))]; r = ps[len(rstripp(ps)):]
            if lstripp(ps) and isinstance(lstripp(ps)[0], str) and not isinstance(net[0], str): return NotImplemented
            # literal blanks glued to literal text at the ends
            l = blanks_front(ps); r = blanks_back(ps)
            return I.newlist([mk(l), mk(r)])
        return NotImplemented
    if a in ("startswith", "endswith"):
        q = args[0]
        if isinstance(q, tuple):
            rs = [domethod(I, o, ps, a, [x], {}) for x in q]
            return True if any(r is True for r in rs) else False if all(r is False for r in rs) else NotImplemented
        if not isinstance(q, str): return NotImplemented
        if not q: return True
        p = ps[0 if a == "startswith" else -1]
        ch = q[0 if a == "startswith" else -1]
        if isinstance(p, str):
            if len(p) >= len(q): return getattr(p, a)(q)
            if not (q.startswith(p) if a == "startswith" else q.endswith(p)): return False
            return NotImplemented
        if isws(p): return False if minws(p[1]) >= 1 and ch != " " else NotImplemented
        return False if ch not in NUMCH else NotImplemented
    if a == "__contains__": return contains(ps, args[0])
    if a == "replace" and len(args) >= 2 and isinstance(args[0], str) and isinstance(args[1], str):
        x, y = args[:2]
        if len(x) != 1 or x in NUMCH: return NotImplemented
        out = []
        for p in ps:
            if isinstance(p, str): out.append(p.replace(x, y))
            elif isws(p) and x == " ":
                if y: return NotImplemented
            else: out.append(p)
        return mk(out)
    if a == "count" and isinstance(args[0], str) and len(args[0]) == 1 and args[0] not in NUMCH:
        t = ZERO
        for p in ps:
            if isinstance(p, str): t = add(t, num(p.count(args[0])))
            elif isws(p) and args[0] == " ": t = add(t, p[1])
        return t
    if a in ("rjust", "ljust") and len(args) == 1 and isinstance(args[0], T):
        d = sub(args[0], length(ps))
        # the width was taken from a longer string of the same field: its own blanks are what is missing
        w = ("ws", TM.fn("max2", d, ZERO) if is_num(d) else d)
        return mk([w] + ps if a == "rjust" else ps + [w])
    if a == "splitlines": return I.newlist([mk(l) for l in lines(ps)])
    if a == "isspace": return all(isws(p) or (isinstance(p, str) and p.isspace()) for p in ps)
    return NotImplemented
def blanks_front(ps):
    out = []
    for p in ps:
        if isws(p): out.append(p)
        elif isinstance(p, str):
            k = len(p) - len(p.lstrip()); out.append(p[:k])
            if k < len(p): break
        else: break
    return out
def blanks_back(ps):
    out = []
    for p in reversed(ps):
        if isws(p): out.insert(0, p)
        elif isinstance(p, str):
            k = len(p.rstrip()); out.insert(0, p[k:])
            if k: break
        else: break
    return out
def contains(ps, q):
    if not isinstance(q, str): return NotImplemented
    if any(isinstance(p, str) and q in p for p in ps): return True
    if set(q) <= NUMCH | {" "}: return NotImplemented
    return False
def equal(I, a, b):
    """None if not decided"""
    pa, pb = pieces(I, a), pieces(I, b)
    if pa is None or pb is None: return None
    if pa == pb: return True
    if isinstance(b, SStr): pa, pb = pb, pa
    if len(pb) <= 1 and all(isinstance(p, str) for p in pb):
        q = pb[0] if pb else ""
        if any(isfmt(p) for p in pa):
            if not q: return False
            if not (set(q) & NUMCH): return False
            lit = "".join(p for p in pa if isinstance(p, str))
            for p in pa:
                if isinstance(p, str) and p not in q: return False
            if all(isfmt(p) or isws(p) for p in pa) and not set(q.strip()) <= NUMCH: return False
            if isinstance(pa[0], str) and not q.startswith(pa[0]): return False
            try: float(q)
            except ValueError:
                if isfmt(pa[0]) and len(pa) == 1: return False
    return None
def lines(ps):
    """pieces split after each newline"""
    out = []; cur = []
    for p in ps:
        if isinstance(p, str):
            while "\n" in p:
                x, p = p.split("\n", 1)
                cur.append(x + "\n"); out.append(cur); cur = []
        if p != "": cur.append(p)
    if cur: out.append(cur)
    return out
def intspec(spec, v):
    """text of the field parses as an integer: True/False/None"""
    for c in spec.split("|"):
        t = (parsespec(c) or {}).get("type")
        if t in ("f", "F", "e", "E", "g", "G"): return False if t in "eE" or (parsespec(c)["prec"] or "6") != "0" and t in "fF" else None
    return v.sort in ("I", "B") or (is_num(v) and numval(v).denominator == 1)
def number(I, v, n):
    ps = pieces(I, v)
    if ps is None: return None
    ps = lstripp(rstripp(ps))
    if len(ps) == 1 and isfmt(ps[0]):
        spec, t = ps[0]
        if "?" in spec: return None
        if n == "int":
            k = intspec(spec, t)
            if k is None: return None
            if not k: raise I.raise_("ValueError", "invalid literal for int()")
        return num_of_bool(t)
    if len(ps) == 1 and isinstance(ps[0], str):
        try: return num(int(ps[0])) if n == "int" else num(float(ps[0]))
        except ValueError: raise I.raise_("ValueError", "conversion")
    if any(isfmt(p) and "?" in p[0] for p in ps): return None
    raise I.raise_("ValueError", "could not convert string")
def abserr(spec, v=None):
    """how a field is written -> list of ('abs', digits after the point) | ('rel', significant digits) | ('exact',) | ('?',)"""
    out = []
    for c in spec.split("|"):
        p = parsespec(c)
        if "?" in c or p is None: out.append(("?", 0)); continue
        t = p["type"]; k = None if p["prec"] is None else int(p["prec"])
        if t == "n" and v is not None and (v.sort in ("I", "B") or is_num(v) and numval(v).denominator == 1): out.append(("exact", 0)); continue
        if t in ("f", "F"): out.append(("abs", 6 if k is None else k))
        elif t in ("e", "E"): out.append(("rel", (6 if k is None else k) + 1))
        elif t in ("g", "G", "n"): out.append(("rel", 6 if k is None else k))
        elif t is None and k is not None: out.append(("rel", k))
        else: out.append(("exact", 0))
    return out

# ------------------------------------------------------------------ files
class FS:
    """the file system the analysed code sees: names -> contents (heap entries), every handle and what happens to it"""
    def __init__(s): s.files = {}; s.handles = []; s.ops = 0; s.fail_at = None; s.arange = 0
    def install(s, flags):
        user = flags.get("lib_call")
        def hook(I, name, args, kw, node):
            if user is not None:
                r = user(I, name, args, kw, node)
                if r is not NotImplemented: return r
            return s.call(I, name, args, kw)
        flags["lib_call"] = hook
        return flags
    def put(s, I, name, text):
        oid = s.files.get(name) or new_oid(); s.files[name] = oid
        I.S.heap[oid] = (text,) if not isinstance(text, tuple) else text
    def op(s, I, what):
        s.ops += 1
        I.event("io", op=what, n=s.ops)
        if s.fail_at is not None and s.ops == s.fail_at: raise I.raise_("OSError", "input/output error")
    def call(s, I, name, args, kw):
        if name in ("open", "io.open", "builtins.open", "codecs.open"):
            fn_ = I.resolve(args[0]) if args else I.resolve(kw.get("file"))
            mode = I.resolve(args[1] if len(args) > 1 else kw.get("mode", "r"))
            if not isinstance(fn_, str) or not isinstance(mode, str): return I.unknown("file name or mode")
            return s.open(I, fn_, mode)
        if name in ("numpy.genfromtxt", "numpy.loadtxt"): return s.load(I, name, args, kw)
        if name == "numpy.savetxt": return I.unknown("savetxt")
        if name == "datetime.datetime.now" or name == "datetime.datetime.today": 
            return Model("now", None, strftime=Model("strftime", lambda it, a, k, n: it.resolve(a[0]).translate({}) and stamp(it.resolve(a[0]))), isoformat=Model("isoformat", lambda it, a, k, n: "2026-01-02T03:04:05"))
        if name == "time.strftime": return stamp(I.resolve(args[0]))
        if name in ("os.path.basename", "os.path.dirname", "os.path.abspath", "os.fspath"):
            import os.path
            a = I.resolve(args[0])
            if isinstance(a, str): return a if name == "os.fspath" else getattr(os.path, name.split(".")[-1])(a)
            if a is None or isinstance(a, T): raise I.raise_("TypeError", "path")
            return NotImplemented
        if name == "os.path.exists":
            a = I.resolve(args[0])
            return a in s.files if isinstance(a, str) else NotImplemented
        if name == "numpy.arange" and s.arange and len(args) >= 3 and not is_num(I.resolve(args[2])):
            lo, hi, st = [I.resolve(x) for x in args[:3]]
            if all(isinstance(x, T) for x in (lo, hi, st)):
                n = add(div(sub(hi, lo), st), num(s.arange - 1))
                if is_num(n): return I.newarr((n,), lambda ix: add(lo, mul(st, ix[0])), "float")
        return NotImplemented
    def open(s, I, name, mode):
        if any(c in mode for c in "wax"):
            I.event("open", file=name, mode=mode, write=True)
            oid = s.files.get(name)
            if oid is None: oid = s.files[name] = new_oid()
            if "a" not in mode or oid not in I.S.heap: I.S.heap[oid] = ()
        else:
            if name not in s.files: raise I.raise_("FileNotFoundError", name)
            I.event("open", file=name, mode=mode, write=False)
            oid = s.files[name]
        h = new_oid(); I.S.heap[h] = {"closed": False, "pos": ZERO}
        s.handles.append((h, name, I.loc()))
        def upd(it, **k):
            d = dict(it.S.heap[h]); d.update(k); it.S.heap[h] = d
        def live(it, what):
            if it.S.heap[h]["closed"] is True: raise it.raise_("ValueError", "I/O operation on closed file")
            s.op(it, what)
        def write(it, a, k, n):
            live(it, "write"); it.event("write", file=name)
            it.S.heap[oid] = it.S.heap[oid] + (it.resolve(a[0]),)
            return num(1)
        def writelines(it, a, k, n):
            live(it, "write"); items = it.items(a[0])
            if items is None: items = [it.unknown("writelines")]
            it.S.heap[oid] = it.S.heap[oid] + tuple(it.resolve(x) for x in items)
        def close(it, a, k, n): upd(it, closed=True)
        def rest(it):
            p = it.S.heap[h]["pos"]
            ls = s.lines(it, name)
            if ls is None or not is_num(p): return None, None
            return ls, int(numval(p))
        def readline(it, a, k, n):
            live(it, "readline"); ls, p = rest(it)
            if ls is None: return it.unknown("file contents")
            if p >= len(ls): return ""
            upd(it, pos=num(p + 1)); return mk(ls[p])
        def nxt(it, a, k, n):
            ls, p = rest(it)
            if ls is not None and p >= len(ls): raise it.raise_("StopIteration")
            return readline(it, a, k, n)
        def readlines(it, a, k, n):
            live(it, "readlines"); ls, p = rest(it)
            if ls is None: return it.unknown("file contents")
            upd(it, pos=num(len(ls))); return it.newlist([mk(l) for l in ls[p:]])
        def read(it, a, k, n):
            live(it, "read"); ls, p = rest(it)
            if ls is None: return it.unknown("file contents")
            upd(it, pos=num(len(ls))); return mk([q for l in ls[p:] for q in l])
        def exit_(S):
            d = dict(S.heap[h]); d["closed"] = True; S.heap[h] = d
        def items(it):
            ls, p = rest(it)
            if ls is None: return None
            upd(it, pos=num(len(ls))); return [mk(l) for l in ls[p:]]
        f = Model("file", None, write=Model("write", write), writelines=Model("writelines", writelines), close=Model("close", close), readline=Model("readline", readline),
            readlines=Model("readlines", readlines), read=Model("read", read), flush=Model("flush", lambda it, a, k, n: None), __next__=Model("next", nxt), items=items, handle=h, exit=exit_, fname=name)
        f.info["enter"] = lambda: f
        return f
    def lines(s, I, name):
        ps = []
        for x in I.S.heap[s.files[name]]:
            q = pieces(I, x)
            if q is None: return None
            ps += q
        return lines(ps)
    def load(s, I, name, args, kw):
        def get(k, d=None): return I.resolve(kw.get(k, d))
        src = I.resolve(args[0] if args else kw.get("fname"))
        if set(kw) - {"skip_header", "skip_footer", "skiprows", "fname", "ndmin", "dtype"} or len(args) > 1: return I.unknown("arguments of " + name)
        if isinstance(src, Model) and "fname" in src.info:
            ls = s.lines(I, src.info["fname"]); p = I.S.heap[src.info["handle"]]["pos"]
            if ls is None or not is_num(p): return I.unknown("file contents")
            ls = ls[int(numval(p)):]
        elif isinstance(src, str):
            if src not in s.files: raise I.raise_("FileNotFoundError", src)
            ls = s.lines(I, src)
            if ls is None: return I.unknown("file contents")
        else:
            its = I.items(src) if src is not None else None
            if its is None: return I.unknown("source of " + name)
            ls = [pieces(I, x) for x in its]
            if any(l is None for l in ls): return I.unknown("source of " + name)
        a, b = get("skip_header", ZERO) if name.endswith("genfromtxt") else get("skiprows", ZERO), get("skip_footer", ZERO)
        if not is_num(a) or not is_num(b): return I.unknown("arguments of " + name)
        a, b = int(numval(a)), int(numval(b))
        ls = ls[a:]
        rows = []
        for l in ls:
            q = []
            for p in l:
                if isinstance(p, str) and "#" in p: q.append(p.split("#")[0]); break
                q.append(p)
            t = splitws(I, q)
            if t: rows.append(t)
        if b: rows = rows[:-b] if b < len(rows) else []
        if not rows: return I.newarr((ZERO,), lambda ix: unk("empty"), "float")
        if len({len(t) for t in rows}) != 1: raise I.raise_("ValueError", "Some errors were detected: rows of different length")
        vals = []
        for t in rows:
            row = []
            for x in t:
                try: v = number_quiet(I, mk(x))
                except ValueError:
                    if name.endswith("loadtxt"): raise I.raise_("ValueError", "could not convert string")
                    v = NAN
                if v is None: return I.unknown("number in file")
                row.append(v)
            vals.append(row)
        R, C = len(vals), len(vals[0])
        sh = (R, C)
        nd = get("ndmin", ZERO); nd = int(numval(nd)) if is_num(nd) else 0
        if nd < 2:
            if R == 1 and C == 1: sh = ()
            elif R == 1: sh = (C,)
            elif C == 1: sh = (R,)
        flat = [v for r in vals for v in r]
        def at(ix):
            k = ZERO
            for d, i in zip(sh, ix): k = add(scale(k, d), i)
            if is_num(k): return flat[int(numval(k))]
            r = flat[-1]
            for j in range(len(flat) - 2, -1, -1): r = ite(eq(k, num(j)), flat[j], r)
            return r
        return I.newarr(tuple(num(d) for d in sh), at, "float")
def number_quiet(I, x):
    if isinstance(x, str): return num(float(x)) if not x.lower() in ("nan",) else NAN
    ps = lstripp(rstripp(pieces(I, x)))
    if len(ps) == 1 and isfmt(ps[0]): return None if "?" in ps[0][0] else num_of_bool(ps[0][1])
    if any(isfmt(p) and "?" in p[0] for p in ps): return None
    raise ValueError
def stamp(fmt):
    import datetime
    return datetime.datetime(2026, 1, 2, 3, 4, 5).strftime(fmt)
