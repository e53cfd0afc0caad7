"""C28: bad arguments never cost an existing file; bad files never yield fabricated data; files are closed on every exit."""
from c26 import *
import c27
EXPLANATION = ("Grid writers are interpreted with every kind of invalid argument on a file system that records opens: the call must raise, with no output file opened before. "
    "Readers are interpreted on files whose header and body disagree in every small way (sizes, missing or extra values, truncation at every line, empty file): every path must raise. "
    "Closing: the interpretation is repeated with the k-th read or write failing, for every k, and once without failure; at every exit of the function every handle it opened must be closed. ")
WR = {"asc": "write_asc_grid", "zmap": "write_zmap_grid"}; RD = {"asc": "read_asc_grid", "zmap": "read_zmap_grid"}
def raised(pend): return [a for a in pend if a.kind == "raise"]
def world(r, fs):
    w = World(r, load=None, **fs.install({})); w.fs = fs; return w
def lits(w, *v): 
    a = w.I.newarr((num(len(v)),), lambda ix: pick([num(F(x)) for x in v], ix[0]), "float"); return a
def pick(vals, k):
    if not vals: return unk("empty")
    if is_num(k): return vals[int(numval(k))]
    t = vals[-1]
    for j in range(len(vals) - 2, -1, -1): t = ite(eq(k, num(j)), vals[j], t)
    return t
def clobber(r, fmt):
    f0 = WR[fmt]
    def case(what, x=(0, 1, 2), y=(0, 1), z=None, **kw):
        fs = FS(); w = world(r, fs); fs.put(w.I, "keep.out", "precious\n")
        f = fun(w, f0)
        def arr(a): return lits(w, *a) if isinstance(a, (list, tuple)) else a(w)
        zz = w.mat("Zg", num(2), num(3)) if z is None else z(w)
        kw = {k: (v(w) if callable(v) else v) for k, v in kw.items()}
        n0 = len(w.I.unsup)
        v, dead, pend = w.attempt(f, arr(x), arr(y), zz, filename="keep.out", **kw)
        nm = "%s(%s)" % (f0, what)
        ev = [e for e in w.I.events if e["kind"] == "open" and e["write"]]
        if not dead:
            if len(w.I.unsup) > n0: r.undecided("invalid arguments raise", nm, w.I.unsup[n0])
            else: r.bad("invalid arguments raise", nm + ": accepted and written", floc(f))
            return
        ra = raised(pend)
        if not ra: r.undecided("invalid arguments raise", nm, "no exception recorded"); return
        if ev:
            r.bad("nothing is opened before the arguments are accepted", "%s: raises %s after the output file was opened (and truncated)" % (nm, exc_names(ra[-1].val)[0]), ev[0]["loc"], dict(raised_at=fmtloc(ra[-1].loc), args=[str(a)[:60] for a in ra[-1].val.args]))
        else: r.ok("nothing is opened before the arguments are accepted", nm)
        r.ok("invalid arguments raise", nm)
    for bad in ((0, 1, 3), (0, 1, 1.5), (0, 2, 3), (0, 1, -1)):
        case("x not evenly spaced: %s" % (bad,), x=bad); case("y not evenly spaced: %s" % (bad,), y=bad, z=lambda w: w.mat("Zg", num(3), num(3)))
    case("x not evenly spaced, four values", x=(0, 1, 2, 5), z=lambda w: w.mat("Zg", num(2), num(4)))
    case("one x value", x=(0,), z=lambda w: w.mat("Zg", num(2), num(1))); case("one y value", y=(0,), z=lambda w: w.mat("Zg", num(1), num(3)))
    case("no x value", x=(), z=lambda w: w.mat("Zg", num(2), ZERO))
    case("two-dimensional x", x=lambda w: w.mat("X2", num(3), num(3))); case("two-dimensional y", y=lambda w: w.mat("Y2", num(2), num(2)))
    case("one-dimensional grid", z=lambda w: w.vec("Z1", num(6))); case("three-dimensional grid", z=lambda w: w.mat("Z3", num(2), num(3), num(4)))
    case("scalar grid", z=lambda w: sym("z0"))
    for nd in (None, "none"): case("no_data=%r" % (nd,), no_data=nd)
    if fmt == "asc":
        for st in (num(0), num(3), "1", None): case("style=%s" % (numval(st) if isinstance(st, T) else repr(st)), style=st)
        case("style=2 with different spacing", x=(0, 2, 4), style=num(2))
        case("style=2 with nearly the same spacing", x=(0, F(5, 4), F(5, 2)), style=num(2))
    else:
        for cs in (None, num(4326)): case("coord_sys=%s" % (cs if cs is None else "4326"), coord_sys=cs)
def symbolic(r, fmt, style):
    """any spacing, any values: no path raises after opening"""
    fs = FS(); w = world(r, fs); fs.put(w.I, "keep.out", "precious\n"); f = fun(w, WR[fmt])
    kw = dict(style=num(style)) if fmt == "asc" else {}
    x, y, z = w.vec("XS", num(3)), w.vec("YS", num(2)), w.mat("Zg", num(2), num(3))
    v, dead, pend = w.attempt(f, x, y, z, filename="keep.out", no_data=sym("ND"), **kw)
    what = "%s, any coordinates and values%s" % (WR[fmt], ", style %d" % style if fmt == "asc" else "")
    oid = fs.files["keep.out"]
    late = [a for a in raised(pend) if a.S.heap.get(oid) != ("precious\n",)]
    if w.I.unsup: r.undecided("nothing is opened before the arguments are accepted", what, w.I.unsup[0])
    elif late: r.bad("nothing is opened before the arguments are accepted", "%s: raises %s after the output file was opened (and truncated)" % (what, exc_names(late[0].val)[0]), late[0].loc)
    else: r.ok("nothing is opened before the arguments are accepted", what)
    r.check(bool(raised(pend)), "invalid arguments raise", what + ": uneven spacing is rejected", floc(f))
def closed(S, h): return S.heap.get(h, {}).get("closed")
def closing(r, what, f, w, fs, call):
    """repeat with the k-th input/output operation failing"""
    for k in [None] + list(range(1, 200)):
        r2, w2, fs2, f2, args, kw = call()
        fs2.fail_at = k; fs2.ops = 0
        v, dead, pend = w2.attempt(f2, *args, **kw)
        nm = what + (" without failure" if k is None else ", operation %d on the file failing" % k)
        if k is None and dead: r.undecided("files are closed on every exit", nm, "no normal completion"); return
        exits = [(a.S, a.loc) for a in raised(pend)] + ([] if dead else [(w2.I.S, None)])
        bad = [(h, n, l, e) for h, n, l in fs2.handles for S, e in exits if h in S.heap and closed(S, h) is not True]
        unk = [b for b in bad if closed(next(S for S, e in exits if e is b[3]), b[0]) is not False]
        if k is not None and fs2.ops < k: break
        if bad and not unk:
            r.bad("files are closed on every exit", "%s: the handle of %s is still open when the function is left" % (nm, bad[0][1]), bad[0][2], dict(exit=fmtloc(bad[0][3]) if bad[0][3] else "return")); return
        if bad: r.undecided("files are closed on every exit", nm, "handle state not resolved"); return
        if not fs2.handles and k is None: r.undecided("files are closed on every exit", nm, "no file was opened"); return
        r.ok("files are closed on every exit", nm)
def wclose(r, fmt):
    def call():
        fs = FS(); w, g = setup(r, 2, 2, same=True, fs=fs)
        return r, w, fs, fun(w, WR[fmt]), (g["x"], g["y"], g["z"]), dict(filename="o.out")
    closing(r, WR[fmt], None, None, None, call)
def body(ny, nx, n=None, per=None):
    """ny x nx values as file text (n values in all, per line)"""
    out = []
    for k in range(ny * nx if n is None else n):
        out += [" ", ("", sel("Zf", num(k)))]
        if (k + 1) % (per or nx) == 0: out.append("\n")
    if out and out[-1] != "\n": out.append("\n")
    return out
def hasc(ny, nx): return ["ncols %d\n" % nx, "nrows %d\n" % ny, ["xllcenter ", ("", sym("A")), "\n"], ["yllcenter ", ("", sym("B")), "\n"], ["dx ", ("", sym("DX", "R", nonneg=True)), "\n"], ["dy ", ("", sym("DY", "R", nonneg=True)), "\n"], ["nodata_value ", ("", sym("NDV")), "\n"]]
def hzmap(ny, nx): return ["! comment\n", "! COORDINATE REFERENCE SYSTEM: local\n", "@Grid HEADER, GRID, 5\n", ["15, ", ("", sym("NDV")), ", , 1, 1\n"],
    ["%d, %d, " % (ny, nx)] + [y for n in ("A", "B", "C", "D") for y in (("", sym(n)), ", ")] + ["\n"], "1.0, 0.0, 0.0\n", "@\n"]
def flat(ls):
    out = []
    for l in ls: out += [l] if isinstance(l, (str, tuple)) else l
    return out
def rclose(r, fmt):
    def call():
        fs = FS(); fs.arange = 1; w = world(r, fs); w.I.assume(gt(sym("DX", "R", nonneg=True), ZERO), gt(sym("DY", "R", nonneg=True), ZERO))
        fs.put(w.I, "in", SStr(flat((hasc if fmt == "asc" else hzmap)(2, 2)) + body(2, 2)))
        return r, w, fs, fun(w, RD[fmt]), ("in",), {}
    closing(r, RD[fmt], None, None, None, call)
def badfiles(r, fmt, ny, nx):
    H = hasc if fmt == "asc" else hzmap
    def case(what, parts, **kw):
        fs = FS(); fs.arange = 1; w = world(r, fs); w.I.assume(gt(sym("DX", "R", nonneg=True), ZERO), gt(sym("DY", "R", nonneg=True), ZERO))
        parts = flat(parts); fs.put(w.I, "in", SStr(parts) if parts else "")
        f = fun(w, RD[fmt]); n0 = len(w.I.unsup)
        v, dead, pend = w.attempt(f, "in", **kw)
        nm = "%s: %s" % (RD[fmt], what)
        if dead:
            if raised(pend): r.ok("disagreeing files raise", nm)
            else: r.undecided("disagreeing files raise", nm, "no exception recorded")
        elif len(w.I.unsup) > n0: r.undecided("disagreeing files raise", nm, w.I.unsup[n0])
        else: r.bad("disagreeing files raise", nm + ": data are returned", floc(f))
        bad = [h for h, n, l in fs.handles for a in raised(pend) if h in a.S.heap and closed(a.S, h) is False]
        if dead and raised(pend): r.check(not bad, "files are closed on every exit", nm, raised(pend)[-1].loc)
    n = ny * nx
    if fmt == "asc":
        for a in range(1, 5):
            for b in range(1, 5):
                if (a, b) != (ny, nx): case("header %dx%d, body %dx%d" % (ny, nx, a, b), H(ny, nx) + body(a, b))
        case("a row with one value less", H(ny, nx) + body(ny, nx)[:-3] + ["\n"])
    else:
        for k in range(0, 2 * n + 1):
            if k != n: case("header %dx%d, %d values" % (ny, nx, k), H(ny, nx) + body(1, 1, k, 3))
        case("header %dx%d, values interrupted by a blank line" % (ny, nx), H(ny, nx) + body(1, 1, n - 1, 3) + ["\n"] + body(1, 1, 1))
    h = H(ny, nx)
    for k in range(len(h)): case("file ends after header line %d" % k, h[:k])
    for k in range(len(h)): case("header ends after line %d, then the values" % k, h[:k] + body(ny, nx)) if fmt == "asc" else None
    if fmt == "asc": case("unknown header entry", ["nosuch 3\n"] + h + body(ny, nx))
def jobs(tier):
    out = []
    for fmt in ("asc", "zmap"):
        out += [("arguments:" + fmt, clobber, (fmt,)), ("writer closes:" + fmt, wclose, (fmt,)), ("reader closes:" + fmt, rclose, (fmt,))]
        out += [("any input:%s%s" % (fmt, st), symbolic, (fmt, st)) for st in ((1, 2) if fmt == "asc" else (1,))]
        for sh in ((2, 2), (2, 3), (3, 2)): out.append(("bad files:%s:%dx%d" % ((fmt,) + sh), badfiles, (fmt,) + sh))
    return out
