"""Reference terms: what the documentation promises, as closed terms over the caller's data."""
from fractions import Fraction as F
from terms import *
import terms as TM
from values import *

NPAR = {"linear": 2, "power": 3, "gaussian": 3, "spherical": 3, "exponential": 3, "hole-effect": 3}
def nonneg_sel(name, *ix): return fn("abs", sel(name, *ix))

def variogram(name, p, d):
    if name == "linear": return add(mul(p[0], d), p[1])
    if name == "power": return add(mul(p[0], powt(d, p[1])), p[2])
    s, r, n = p
    if name == "gaussian": g = sub(ONE, fn("exp", neg(div(power(d, 2), power(scale(r, F(4, 7)), 2)))))
    elif name == "exponential": g = sub(ONE, fn("exp", neg(div(d, scale(r, F(1, 3))))))
    elif name == "spherical":
        x = div(d, r)
        g = ite(le(d, r), sub(scale(x, F(3, 2)), scale(power(x, 3), F(1, 2))), ONE)
    elif name == "hole-effect":
        x = div(d, scale(r, F(1, 3)))
        g = sub(ONE, mul(sub(ONE, x), fn("exp", neg(x))))
    return add(mul(s, g), n)

def euclid(p, q):
    return sqrt(add(*[power(sub(a, b), 2) for a, b in zip(p, q)]))
def rad(x): return mul(x, div(PI, num(180)))
def great_circle(p, q):
    """arc in degrees between (lon, lat) pairs in degrees"""
    l1, b1, l2, b2 = map(rad, (p[0], p[1], q[0], q[1]))
    d = sub(l1, l2)
    s1, c1, s2, c2 = fn("sin", b1), fn("cos", b1), fn("sin", b2), fn("cos", b2)
    y = sqrt(add(power(mul(c2, fn("sin", d)), 2), power(sub(mul(c1, s2), mul(mul(s1, c2), fn("cos", d))), 2)))
    x = add(mul(s1, s2), mul(mul(c1, c2), fn("cos", d)))
    return mul(div(num(180), PI), fn("arctan2", y, x))
def sphere(p):
    l, b = rad(p[0]), rad(p[1])
    return [mul(fn("cos", l), fn("cos", b)), mul(fn("sin", l), fn("cos", b)), fn("sin", b)]
def anis(p, center, scal, ang):
    """subtract the centre, rotate by minus the angles (about x, y, z in turn), stretch y (and z), add the centre"""
    v = [sub(a, c) for a, c in zip(p, center)]
    A = [rad(a) for a in ang]
    def cs(a): return fn("cos", a), fn("sin", a)
    if len(p) == 2:
        c, s = cs(A[0])
        v = [add(mul(c, v[0]), mul(s, v[1])), add(neg(mul(s, v[0])), mul(c, v[1]))]
    else:
        c, s = cs(A[0]); v = [v[0], add(mul(c, v[1]), mul(s, v[2])), add(neg(mul(s, v[1])), mul(c, v[2]))]
        c, s = cs(A[1]); v = [add(mul(c, v[0]), neg(mul(s, v[2]))), v[1], add(mul(s, v[0]), mul(c, v[2]))]
        c, s = cs(A[2]); v = [add(mul(c, v[0]), mul(s, v[1])), add(neg(mul(s, v[0])), mul(c, v[1])), v[2]]
    v = [v[0]] + [mul(k, a) for k, a in zip(scal, v[1:])]
    return [add(a, c) for a, c in zip(v, center)]
def bilinear(E, EX, EY, nx, ny, x, y, tr=False):
    """bilinear interpolation between the enclosing grid nodes, node values on nodes; axes in any order"""
    def val(j, i): return sel(E, i, j) if tr else sel(E, j, i)
    def brk(ax, n, q):
        """(index of the enclosing node below-or-at q, index above-or-at q)"""
        lo = find("first", n, lambda i: and_(le(sel(ax, i), q), not_(any_(n, lambda k: and_(lt(sel(ax, i), sel(ax, k)), le(sel(ax, k), q))))))
        hi = find("first", n, lambda i: and_(ge(sel(ax, i), q), not_(any_(n, lambda k: and_(lt(sel(ax, k), sel(ax, i)), ge(sel(ax, k), q))))))
        return lo, hi
    i1, i2 = brk(EX, nx, x); j1, j2 = brk(EY, ny, y)
    def lin(f, ax, a, b, q):
        va, vb = sel(ax, a), sel(ax, b)
        return ite(eq(va, vb), f(a), div(add(mul(f(a), sub(vb, q)), mul(f(b), sub(q, va))), sub(vb, va)))
    return lin(lambda j: lin(lambda i: val(j, i), EX, i1, i2, x), EY, j1, j2, y)
