"""C26: what the ASCII grid writer writes is what the reader reconstructs."""
from scen import *
import textio
from textio import FS
EXPLANATION = ("The writer is interpreted abstractly on a grid of symbolic values (symbolic origin, spacing and no-data value; every listed shape); what it writes is kept as the sequence of its text and formatted fields. "
    "The reader is interpreted on that file, and its grid, axes, spacing and no-data value are compared with what was given to the writer. Every field separates from its neighbours by a blank that is always there; every field is written to the documented number of digits. ")
ASSUMPTIONS = ("numpy.genfromtxt reads blank-separated numbers row by row; float() of a formatted number is that number rounded to the digits written",
    "grid shapes %s (the loops over rows and columns are unrolled)" % "2x2, 2x3, 3x2, 4x3 (ASCII); 2x2, 3x2, 5x2, 6x3, 11x2 (ZMAP)",
    "the program does what the abstract interpretation of its source says (/verif/sa)")
MOD = "pykrige.kriging_tools"
def setup(r, ny, nx, same=False, column=False, mask=None, nan=(), fs=None, **flags):
    fs = fs or FS()
    w = World(r, load=None, **fs.install(flags)); w.fs = fs
    g = {}
    for n in ("x0", "y0", "ND"): g[n] = sym(n)
    g["dx"] = sym("dx", "R", nonneg=True); g["dy"] = g["dx"] if same else sym("dy", "R", nonneg=True)
    w.I.assume(gt(g["dx"], ZERO), gt(g["dy"], ZERO))
    def axis(n, o, d):
        sh = (num(n), ONE) if column else (num(n),)
        a = w.I.newarr(sh, lambda ix: add(o, mul(d, ix[0])), "float"); w.I.inputs[a.buf] = "axis"
        return a
    g["x"], g["y"] = axis(nx, g["x0"], g["dx"]), axis(ny, g["y0"], g["dy"])
    def z(ix):
        v = sel("Zg", *ix)
        for c in nan: v = ite(and_(eq(ix[0], num(c[0])), eq(ix[1], num(c[1]))), NAN, v)
        return v
    m = {None: None, "some": lambda ix: truth(sel("MASK", *ix)), "none": lambda ix: FALSE, "all": lambda ix: TRUE}[mask]
    g["z"] = w.I.newarr((num(ny), num(nx)), z, "float", m); w.I.inputs[g["z"].buf] = "grid values"
    def want(i, j):
        v = z((num(i), num(j)))
        if v is NAN: v = g["ND"] if nan else v
        return ite(m((num(i), num(j))), g["ND"], v) if m else v
    g["want"] = want; g["ny"], g["nx"] = ny, nx
    return w, g
def fun(w, name): return w.get(MOD, name)
def floc(f): return dict(file=f.mod.path, func=f.name, line=f.node.lineno)
def fields(w, name):
    """formatted fields of the file as written: [(spec, value)]"""
    out = []
    def walk(x):
        x = w.I.resolve(x)
        if isinstance(x, Choice): return walk(x.a) and walk(x.b)
        ps = textio.pieces(w.I, x)
        if ps is None: return False
        out.extend(p for p in ps if textio.isfmt(p)); return True
    ok = all([walk(x) for x in w.I.S.heap[w.fs.files[name]]])
    return out if ok else None
def write(r, w, g, what, fname, *args, ok_spec=None, wname=None, **kw):
    f = fun(w, wname)
    v, dead, pend = w.attempt(f, g["x"], g["y"], g["z"], *args, filename=fname, **kw)
    if dead:
        a = [a for a in pend if a.kind == "raise"]
        if a: r.bad("writes", "%s: raises %s" % (what, exc_names(a[-1].val)[0]), a[-1].loc, dict(args=[str(x)[:80] for x in a[-1].val.args]))
        else: r.undecided("writes", what, "no normal completion")
        return False
    if fname not in w.fs.files:
        r.bad("writes", "%s: no file of that name is written" % what, floc(f), dict(files=sorted(w.fs.files))); return False
    r.ok("writes", what)
    fl = fields(w, fname)
    if fl is None: r.undecided("digits", what, "fields written not resolved: %s" % w.I.unsup[-1:])
    else:
        bad = sorted({s for s, v in fl if not all(ok_spec(*q) for q in textio.abserr(s, v))})
        unk = [s for s in bad if any(q[0] == "?" for q in textio.abserr(s))]
        if unk: r.undecided("digits", what, "format %r" % unk)
        elif bad: r.bad("digits", "%s: a field is written with format %r, which loses digits the format documents" % (what, bad[0]), floc(f), dict(formats=bad))
        else: r.ok("digits", what)
    mut = [e for e in w.I.events if e["kind"] == "mutate" and e.get("input")]
    r.check(not mut, "inputs unchanged", what, mut[0]["loc"] if mut else None, dict(input=mut[0]["input"]) if mut else None)
    return True
def read(r, w, what, fname, rname, nout):
    f = fun(w, rname)
    n0 = len(w.I.unsup); w.I.events.clear() if hasattr(w.I.events, "clear") else None
    v, dead, pend = w.attempt(f, fname)
    if dead:
        a = [a for a in pend if a.kind == "raise"]
        if a and len(w.I.unsup) == n0: r.bad("reads back", "%s: the reader raises %s on the file the writer wrote" % (what, exc_names(a[-1].val)[0]), a[-1].loc, dict(args=[str(x)[:80] for x in a[-1].val.args]))
        else: r.undecided("reads back", what, "no normal completion %s" % w.I.unsup[n0:n0 + 1])
        return None
    glued = [e for e in w.I.events if e["kind"] == "glued"]
    r.check(not glued, "fields stay separated", what, glued[0]["loc"] if glued else None, dict(before=show_p(glued[0]["before"]), after=show_p(glued[0]["after"])) if glued else None)
    v = w.I.resolve(v)
    items = w.I.items(v) if isinstance(v, (tuple, Lst)) else None
    if items is None or len(items) != nout:
        if items is None: r.undecided("reads back", what, "result not resolved %s" % w.I.unsup[n0:n0 + 1])
        else: r.bad("reads back", "%s: %d values returned instead of %d" % (what, len(items), nout), floc(f))
        return None
    if glued: return None
    return items
def show_p(p): return str(p[0]) + ":" + (show(p[1]) if isinstance(p[1], T) else str(p[1])) if isinstance(p, tuple) else repr(p)
def grid(r, w, g, what, z, loc):
    sn = w.snap(z)
    if not r.shape(what + ": grid shape", sn, (num(g["ny"]), num(g["nx"])), loc): return
    for i in range(g["ny"]):
        for j in range(g["nx"]):
            if not r.eq("cell values", "%s: cell (%d, %d)" % (what, i, j), sn.at((num(i), num(j))), g["want"](i, j), w.I.S.facts, loc): return
def axis(r, w, g, what, a, n, o, d, loc):
    sn = w.snap(a)
    if not r.shape(what + " length", sn, (num(n),), loc): return
    for k in range(n):
        if not r.eq("coordinates", "%s [%d]" % (what, k), sn.at((num(k),)), add(o, scale(d, k)), w.I.S.facts, loc): return
def scalar(r, w, rule, what, v, want, loc):
    v = w.I.resolve(v)
    if isinstance(v, Arr): v = w.I.snap(v).at(()) if not v.shape else v
    if isinstance(v, str) and isinstance(want, str): r.check(v == want, rule, what, loc, dict(computed=v, expected=want)); return
    if isinstance(want, str) and isinstance(v, (SStr,)): r.undecided(rule, what, "not resolved"); return
    if isinstance(v, Unk): r.undecided(rule, what, v.why); return
    if not isinstance(v, T): r.bad(rule, what, loc, dict(computed=repr(v)[:80], expected=show(want) if isinstance(want, T) else want)); return
    r.eq(rule, what, v, want, w.I.S.facts, loc)
def asc(r, ny, nx, style, mask, arange, column=False, nodefault=True):
    fs = FS(); fs.arange = arange
    w, g = setup(r, ny, nx, same=style == 2, column=column, mask=mask, fs=fs)
    what = "%dx%d grid, style %d%s%s" % (ny, nx, style, ", mask: " + mask if mask else "", ", column coordinates" if column else "")
    fname = "scratch/out.asc"
    if not write(r, w, g, "write_asc_grid: " + what, fname, no_data=g["ND"], style=num(style), wname="write_asc_grid", ok_spec=lambda k, n: k == "exact" or k == "abs" and n >= 2): return
    it = read(r, w, "read_asc_grid: " + what, fname, "read_asc_grid", 5)
    if it is None: return
    loc = floc(fun(w, "write_asc_grid"))
    grid(r, w, g, what, it[0], loc)
    axis(r, w, g, what + ": x", it[1], nx, g["x0"], g["dx"], loc); axis(r, w, g, what + ": y", it[2], ny, g["y0"], g["dy"], loc)
    c = w.I.resolve(it[3])
    cs = w.I.items(c) if isinstance(c, (tuple, Lst)) else None
    if cs is not None and len(cs) == 2:
        scalar(r, w, "spacing", what + ": x cell size", cs[0], g["dx"], loc); scalar(r, w, "spacing", what + ": y cell size", cs[1], g["dy"], loc)
    elif isinstance(c, T) and style == 2: scalar(r, w, "spacing", what + ": cell size", c, g["dx"], loc)
    elif isinstance(c, Unk): r.undecided("spacing", what, c.why)
    else: r.bad("spacing", what + ": cell size not returned", loc, dict(computed=repr(c)[:80]))
    scalar(r, w, "no-data value", what + ": no-data value", it[4], g["ND"], loc)
def foreign(r, hdr, rows, expect):
    """files other programs write: every header layout the reader documents"""
    fs = FS(); fs.arange = 2 if any("corner" in k for k, v in hdr) else 1; w = World(r, load=None, **fs.install({}))
    s = {n: sym(n) for n in ("A", "B", "NDV")}; d = {n: sym(n, "R", nonneg=True) for n in ("DX", "DY", "CS")}
    w.I.assume(*[gt(x, ZERO) for x in d.values()])
    s.update(d)
    parts = []
    for k, v in hdr: parts += [k + "  ", ("", s[v]) if isinstance(v, str) else str(v), "\n"]
    ny, nx = rows
    for i in range(ny):
        for j in range(nx): parts += [("", sel("Zf", num(i), num(j))), " "]
        parts.append("\n")
    fs.put(w.I, "in.asc", SStr(parts))
    what = "file with header " + " ".join(k for k, v in hdr)
    it = read(r, w, what, "in.asc", "read_asc_grid", 5)
    if it is None: return
    loc = floc(fun(w, "read_asc_grid"))
    g = dict(ny=ny, nx=nx, want=lambda i, j: sel("Zf", num(ny - 1 - i), num(j)))
    grid(r, w, g, what, it[0], loc)
    e = {k: v(s) for k, v in expect.items()}
    axis(r, w, g, what + ": x", it[1], nx, e["x0"], e["dx"], loc); axis(r, w, g, what + ": y", it[2], ny, e["y0"], e["dy"], loc)
    scalar(r, w, "no-data value", what + ": no-data value", it[4], s["NDV"], loc)
def half(a, d): return lambda s: add(s[a], div(s[d], num(2)))
def at(a): return lambda s: s[a]
FOREIGN = [
    ([("NCOLS", 3), ("NROWS", 2), ("XLLCENTER", "A"), ("YLLCENTER", "B"), ("DX", "DX"), ("DY", "DY"), ("NODATA_VALUE", "NDV")], dict(x0=at("A"), y0=at("B"), dx=at("DX"), dy=at("DY"))),
    ([("ncols", 3), ("nrows", 2), ("xllcorner", "A"), ("yllcorner", "B"), ("dx", "DX"), ("dy", "DY"), ("nodata_value", "NDV")], dict(x0=half("A", "DX"), y0=half("B", "DY"), dx=at("DX"), dy=at("DY"))),
    ([("ncols", 3), ("nrows", 2), ("xllcorner", "A"), ("yllcorner", "B"), ("cellsize", "CS"), ("NODATA_value", "NDV")], dict(x0=half("A", "CS"), y0=half("B", "CS"), dx=at("CS"), dy=at("CS"))),
    ([("nodatavalue", "NDV"), ("cell_size", "CS"), ("yllcenter", "B"), ("xllcenter", "A"), ("nrows", 2), ("ncols", 3)], dict(x0=at("A"), y0=at("B"), dx=at("CS"), dy=at("CS"))),
]
SHAPES = [(2, 2), (2, 3), (3, 2), (4, 3)]
def jobs(tier):
    out = []
    for (ny, nx) in SHAPES:
        for st in (1, 2):
            for m in (None, "some", "all", "none"):
                if m in ("all", "none") and (ny, nx) != (2, 3): continue
                for ar in (1, 2):
                    if ar == 2 and m: continue
                    out.append(("asc:%dx%d:style%d:%s:%s" % (ny, nx, st, m, "exact axes" if ar == 1 else "axes one too long before trimming"), asc, (ny, nx, st, m, ar)))
        out.append(("asc:%dx%d:column" % (ny, nx), asc, (ny, nx, 1, None, 1, True)))
    for h, e in FOREIGN:        # the header entries may come in any order
        os_ = [h, h[::-1]] + [q[k:] + q[:k] for k in range(1, len(h)) for q in (h, h[::-1])]
        out += [("reader:" + " ".join(k for k, v in q), foreign, (q, (2, 3), e)) for q in os_]
    return out
