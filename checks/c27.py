"""C27: what the ZMAP writer writes is what the reader reconstructs."""
from c26 import *
EXPLANATION = EXPLANATION.replace("every listed shape", "every listed shape, rows shorter, equal to and longer than the line length")
NAMES = ("<null>", "WGS 84 / UTM zone 33N", "urn:ogc:def:crs:EPSG::4326", "@Grid, local: 1", "")
def spec_ok(k, n): return k == "exact" or k == "abs" and n >= 4 or k == "rel" and n >= 8
def zmap(r, ny, nx, mask, nan, crs, column=False, big=None):
    fs = FS()
    w, g = setup(r, ny, nx, mask=mask, nan=nan, column=column, fs=fs)
    what = "%dx%d grid%s%s%s%s" % (ny, nx, ", mask: " + mask if mask else "", ", NaN cells" if nan else "", ", column coordinates" if column else "", ", coordinate system %r" % crs if crs is not None else "")
    fname = "scratch/out.zmap"
    kw = dict(coord_sys=crs) if crs is not None else {}
    if not write(r, w, g, "write_zmap_grid: " + what, fname, no_data=g["ND"], wname="write_zmap_grid", ok_spec=spec_ok, **kw): return
    it = read(r, w, "read_zmap_grid: " + what, fname, "read_zmap_grid", 6)
    if it is None: return
    loc = floc(fun(w, "write_zmap_grid"))
    grid(r, w, g, what, it[0], loc)
    axis(r, w, g, what + ": x", it[1], nx, g["x0"], g["dx"], loc); axis(r, w, g, what + ": y", it[2], ny, g["y0"], g["dy"], loc)
    c = w.I.resolve(it[3]); cs = w.I.items(c) if isinstance(c, (tuple, Lst)) else None
    if cs is not None and len(cs) == 2:
        scalar(r, w, "spacing", what + ": x cell size", cs[0], g["dx"], loc); scalar(r, w, "spacing", what + ": y cell size", cs[1], g["dy"], loc)
    elif isinstance(c, Unk): r.undecided("spacing", what, c.why)
    else: r.bad("spacing", what + ": cell size not returned", loc, dict(computed=repr(c)[:80]))
    scalar(r, w, "no-data value", what + ": no-data value", it[4], g["ND"], loc)
    scalar(r, w, "coordinate system", what + ": coordinate system name", it[5], "<null>" if crs is None else crs, loc)
SHAPES = [(2, 2), (3, 2), (2, 3), (5, 2), (6, 3), (11, 2)]
def jobs(tier):
    out = []
    for (ny, nx) in SHAPES:
        for m in (None, "some", "all"):
            if m == "all" and (ny, nx) != (3, 2): continue
            out.append(("zmap:%dx%d:%s" % (ny, nx, m), zmap, (ny, nx, m, (), None)))
        out.append(("zmap:%dx%d:nan" % (ny, nx), zmap, (ny, nx, None, ((0, 0), (1, 1), (ny - 1, 0)), None)))
        if (ny, nx) != (2, 2): out.append(("zmap:%dx%d:nan+mask" % (ny, nx), zmap, (ny, nx, "some", ((0, 1), (1, 0)), None)))
    out.append(("zmap:3x2:column", zmap, (3, 2, None, (), None, True)))
    out += [("zmap:3x2:crs=%r" % c, zmap, (3, 2, None, (), c)) for c in NAMES]
    return out
