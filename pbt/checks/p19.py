"""P19 point location and segment intersection"""
import numpy as np
from itertools import combinations
from hypothesis import strategies as st, assume
from ..core import Property, expect
from ..util import pure
from .. import gen, geom as G

from .p12 import NULL

import pyqcstrc.ico2.numericalc as ni
import pyqcstrc.dode2.numericalc as nd
import pyqcstrc.ico2.math1 as mi
import pyqcstrc.dode2.math1 as md
import pyqcstrc.ico2.intsct as xi
import pyqcstrc.dode2.intsct as xd
import pyqcstrc.ico2.utils as ui

P = Property("P19", "Point location and segment intersection",
             rule="non-trivial: the point or crossing is exactly on a boundary, or strictly inside, or outside by a clear margin "
                  "(cases within 1e-4 of a boundary but not on it are generated but not judged)",
             assumptions=["the library decides with a tolerance of 1e-6: only exact contacts and clear misses are judged",
                          "cells with measure above 1e-3, coordinates of a few units"])
A = gen.arr
BW = [[0, 0, 1], [0, 0, 1], [1, 0, 1], [1, 0, 2], [1, 0, 3], [1, 0, 4], [-1, 0, 4], [2, 0, 1], [-1, 1, 1], [2, -1, 1],
      [-1, 0, 80], [-1, 0, 2000], [-1, 0, 50000], [1, 0, 3000]]
BD = [[0, 0, 1], [0, 0, 1], [1, 0, 1], [1, 0, 2], [1, 0, 3], [1, 0, 4], [-1, 0, 4], [2, 0, 1], [-1, 2, 1], [0, 1, 1],
      [-1, 0, 80], [-1, 0, 2000], [-1, 0, 50000], [1, 0, 3000]]


@st.composite
def point_near(draw, S, c, fine=True):
    """a point given by barycentric coordinates of simple numbers, or any point"""
    if draw(st.integers(0, 4)) == 0:
        return draw(S.vs(2, (1, 2)))
    if draw(st.integers(0, 2)) == 0:                    # strictly inside
        k = [draw(st.integers(1, 4)) for _ in c]
        return S.lin([S.F(x, 0, sum(k)) for x in k], c)
    bs = BW if S is gen.ICO else BD
    if not fine:                                        # crossing points of finer ones do not fit in 64 bits
        bs = bs[:-4]
    w = [S.F(*draw(st.sampled_from(bs))) for _ in range(len(c) - 1)]
    last = S.F(1)
    for x in w:
        last = last - x
    w.append(last)
    p = list(draw(st.permutations(range(len(c)))))
    return S.lin([w[i] for i in p], c)


def disguised(draw, S, v):
    """the same point, sometimes with another physical-space component"""
    return S.lin([S.F(1), S.F(1)], [v, draw(st.sampled_from(NULL[S.name]))]) if draw(st.integers(0, 2)) == 0 else v


@st.composite
def located(draw, S):
    o = draw(gen.any_obj(S, 2, gen.cell(S, 2, (1, 2))))
    i = draw(st.integers(0, len(o) - 1))
    p = disguised(draw, S, draw(point_near(S, o[i])))
    *o, (p,) = draw(gen.placed(S, st.just(o + [[p]])))
    return dict(o=o, i=i, p=p)


def excess(S, p, t):
    """(sum of the measures seen from p) / measure - 1"""
    def ms(x):
        return G.tet_vol(x) if S is gen.ICO else G.tri_area2d(x)
    r = S.F(0)
    for i in range(len(t)):
        q = list(t)
        q[i] = p
        r = r + ms(q)
    return float(r / ms(t)) - 1.0


def where(S, p, t):
    s = (G.in_tet if S is gen.ICO else G.in_tri)(p, t)
    if s < 0 and excess(S, p, t) < 1e-5:
        return None
    return s


def run_located(S, n, c):
    p = S.perp(c["p"])
    cells = [S.pts(t) for t in c["o"]]
    loc = [where(S, p, t) for t in cells]
    one = n.inside_outside_tetrahedron_tau if S is gen.ICO else n.inside_outside_triangle_tau
    i = c["i"]
    names = {1: "inside", 0: "on the boundary", -1: "outside"}
    if loc[i] is not None:
        r = pure(one, A(c["p"]), A(c["o"][i]))
        expect(bool(r) == (loc[i] >= 0), "%s: a point %s a cell is reported %s", S.name, names[loc[i]], "in" if r else "out")
    if any(x is None for x in loc):
        return "-near"
    best = max(loc)
    r = pure(n.inside_outside_obj_tau, A(c["p"]), A(c["o"]))
    expect(bool(r) == (best >= 0), "%s: a point %s the domain is reported %s", S.name, names[best], "in" if r else "out")
    return names[best]


# --- on a triangle, on a segment, coplanar --------------------------------------

def norm2(v):
    return G.dot(v, v)


def area3(a, b, c):
    return float(norm2(G.cross(G.sub(b, a), G.sub(c, a)))) ** 0.5 / 2


@st.composite
def flat(draw, S):
    c = draw(gen.cell(S, 2, (1, 2)))
    tri = disguised(draw, S, draw(st.one_of(point_near(S, c[:3]), point_near(S, c))))
    seg = disguised(draw, S, draw(st.one_of(point_near(S, c[:2]), point_near(S, c[:3]))))
    more = [draw(st.one_of(point_near(S, c[:3]), point_near(S, c[:3]), point_near(S, c))) for _ in range(draw(st.integers(1, 3)))]
    c, (tri,), (seg,), more = draw(gen.placed(S, st.just([c, [tri], [seg], more])))
    return dict(c=c, tri=tri, seg=seg, more=more)


def run_flat(S, n, m, c):
    cell = c["c"]
    T = [S.perp3(v) for v in cell[:3]]
    lab = []
    # triangle
    p = S.perp3(c["tri"])
    nn = G.cross(G.sub(T[1], T[0]), G.sub(T[2], T[0]))
    inplane = not G.dot(nn, G.sub(p, T[0]))
    inside = False
    if inplane:
        s = [G.dot(G.cross(G.sub(T[(i + 1) % 3], T[i]), G.sub(p, T[i])), nn).sign() for i in range(3)]
        inside = all(x >= 0 for x in s)
    ex = area3(p, T[1], T[2]) + area3(T[0], p, T[2]) + area3(T[0], T[1], p) - area3(*T)
    if inside or ex > 1e-5:
        r = pure(n.on_out_surface, A(c["tri"]), A(cell[:3]))
        expect(bool(r) == inside, "%s: a point %s a triangle is reported %s", S.name, "on" if inside else "off", "on" if r else "off")
        lab.append("on triangle" if inside else "off triangle")
    # segment
    p = S.perp3(c["seg"])
    a, b = T[0], T[1]
    pa, ba = G.sub(p, a), G.sub(b, a)
    w = G.cross(pa, ba)
    d = float(G.dot(pa, ba))
    lb = float(norm2(ba)) ** 0.5
    on = not any(bool(x) for x in w) and d >= 0 and (norm2(ba) - norm2(pa)).sign() >= 0
    off = float(norm2(w)) ** 0.5 / lb                 # distance from the line
    if on or off > 1e-4 or d / lb < -1e-4 or d / lb > lb + 1e-4:
        r = pure(n.point_on_segment, A(c["seg"]), A(cell[:2]))
        expect(bool(r) == on, "%s: a point %s a segment is reported %s", S.name, "on" if on else "off", "on" if r else "off")
        lab.append("on segment" if on else "off segment")
    # coplanar (always so in the dodecagonal plane)
    pts6 = cell[:3] + c["more"]
    pts = [S.perp3(v) for v in pts6]
    det = max([abs(float(G.det3(G.sub(q[1], q[0]), G.sub(q[2], q[0]), G.sub(q[3], q[0])))) for q in combinations(pts, 4)])
    ref = all(not G.det3(G.sub(q[1], q[0]), G.sub(q[2], q[0]), G.sub(q[3], q[0])) for q in combinations(pts, 4))
    if ref or det > 1e-4:
        for f in (m.coplanar_check, n.coplanar_check_numeric_tau):
            r = pure(f, A(pts6))
            expect(bool(r) == ref, "%s: %d points %s coplanar are reported otherwise", S.name, len(pts), "that are" if ref else "that are not")
        if S is gen.ICO:
            lab.append("coplanar" if ref else "spatial")
    return " ".join(lab[:2]) or "-near"


# --- segments -----------------------------------------------------------------------

@st.composite
def crossing(draw, S):
    """a segment through (or past) a chosen point of a triangle, resp. two segments in the plane"""
    c = draw(gen.cell(S, 2, (1, 2)))
    t = c[:3]
    q = draw(point_near(S, t, False))
    a = draw(S.vs(2, (1, 2))) if draw(st.booleans()) or S.k == 3 else c[3]
    f = S.F(*draw(st.sampled_from([[1, 0, 1], [2, 0, 1], [3, 0, 1], [1, 0, 2], [0, 1, 1], [3, 0, 2], [-1, 0, 1]])))
    b = S.lin([S.F(1) - f, f], [a, q])                  # q = a + (b-a)/f
    seg = [a, b]
    if draw(st.booleans()):
        seg = [b, a]
    if draw(st.integers(0, 5)) == 0:
        seg[1] = draw(S.vs(2, (1, 2)))
    assume(S.perp(seg[0]) != S.perp(seg[1]))
    t, seg = draw(gen.placed(S, st.just([t, seg])))
    return dict(tri=[S.lin([S.F(1)], [v]) for v in t], seg=[S.lin([S.F(1)], [v]) for v in seg])


def ref_segtri(c):
    """('hit', point) / ('miss', None) / ('parallel', None) / (None, None) when too close to judge"""
    S = gen.ICO
    T, L = S.pts(c["tri"]), S.pts(c["seg"])
    nn = G.cross(G.sub(T[1], T[0]), G.sub(T[2], T[0]))
    ab = G.sub(L[1], L[0])
    den = G.dot(nn, ab)
    if not den:
        return "parallel", None
    if abs(float(den)) < 1e-4:
        return None, None
    t = G.dot(nn, G.sub(T[0], L[0])) / den
    q = G.add(L[0], G.scal(ab, t))
    n2 = G.dot(nn, nn)
    bar = [t, S.F(1) - t] + [G.dot(G.cross(G.sub(T[(i + 1) % 3], T[i]), G.sub(q, T[i])), nn) / n2 for i in range(3)]
    if all(x.sign() >= 0 for x in bar):
        return "hit", q
    return ("miss", None) if min(float(x) for x in bar) < -1e-4 else (None, None)


def run_segtri(c):
    S = gen.ICO
    kind, q = ref_segtri(c)
    if kind is None:
        return "-near"
    r = pure(ni.check_intersection_segment_surface_numerical_6d_tau, A(c["seg"]), A(c["tri"]))
    expect(bool(r) == (kind == "hit"), "segment and triangle (%s): crossing = %s", kind, r)
    p = pure(xi.intersection_segment_surface, A(c["seg"]), A(c["tri"]))
    if kind != "hit":
        expect(p is None, "segment and triangle (%s): a point is returned", kind)
        return kind
    expect(p is not None and np.shape(p) == (1, 6, 3), "segment and triangle that cross: %s", np.shape(p))
    expect(S.perp(p[0].tolist()) == q, "the point of intersection is not exact: %s", p[0].tolist())
    return kind


@st.composite
def two_segments(draw, S):
    a, b, c = draw(gen.cell(S, 2, (1, 2)))[:3]
    q = draw(point_near(S, [a, b], False))
    f = S.F(*draw(st.sampled_from([[1, 0, 1], [2, 0, 1], [3, 0, 1], [1, 0, 2], [0, 2, 1], [3, 0, 2], [-1, 0, 1]])))
    e = S.F(1, 0, draw(st.sampled_from([3000, 1500, 400])))
    how = draw(st.integers(0, 9))
    if how == 0:                                # passes the end of the first one
        q = S.lin([S.F(1) + e, -e], draw(st.permutations([a, b])))
        f = S.F(draw(st.sampled_from([2, 3])))
    elif how == 1:                              # stops short of the first one
        q = S.lin([S.F(1, 0, 2), S.F(1, 0, 2)], [a, b])
        f = S.F(1) - e
    d = S.lin([S.F(1) - f, f], [c, q])
    s2 = [c, d]
    if draw(st.integers(0, 5)) == 0:
        s2[1] = draw(S.vs(2, (1, 2)))
    if draw(st.integers(0, 3)) == 0:            # at a narrow angle
        s2 = [S.lin([S.F(1) - e, e], [v, s2[0]]) for v, e in zip((a, b), [S.F(*draw(st.sampled_from(gen.SMALL[S.name]))) for _ in range(2)])]
    assume(S.perp(s2[0]) != S.perp(s2[1]))
    (a, b), s2 = draw(gen.placed(S, st.just([[a, b], s2])))
    return dict(s1=[S.lin([S.F(1)], [v]) for v in draw(st.permutations([a, b]))],
                s2=[S.lin([S.F(1)], [v]) for v in draw(st.permutations(s2))])


def ref_segseg(L1, L2):
    F = gen.DODE.F
    ab, cd, ac = G.sub(L1[1], L1[0]), G.sub(L2[1], L2[0]), G.sub(L2[0], L1[0])
    den = G.cross2(ab, cd)
    if not den:
        return "parallel", None
    if abs(float(den)) < 1e-4 * (float(G.dot(ab, ab)) * float(G.dot(cd, cd))) ** 0.5:
        return None, None
    s, t = G.cross2(ac, cd) / den, G.cross2(ac, ab) / den
    bar = [s, F(1) - s, t, F(1) - t]
    lo = min(float(x) for x in bar)
    if lo > 1e-6:
        return "hit", G.add(L1[0], G.scal(ab, s))
    if lo > -1e-4:
        return None, None
    return "miss", None


def run_segseg(c):
    S = gen.DODE
    kind, q = ref_segseg(S.pts(c["s1"]), S.pts(c["s2"]))
    if kind is None:
        return "-near"
    r = pure(nd.check_intersection_two_segment_numerical_6d_tau, A(c["s1"]), A(c["s2"]))
    expect(bool(r) == (kind == "hit"), "two segments (%s): crossing = %s", kind, r)
    p = pure(xd.intersection_two_segment, A(c["s1"]), A(c["s2"]))
    if kind != "hit":
        expect(p is None, "two segments (%s): a point is returned", kind)
        return kind
    expect(p is not None and np.shape(p) == (6, 3), "two segments that cross: %s", np.shape(p))
    expect(S.perp(p.tolist()) == q, "the point of intersection is not exact: %s", p.tolist())
    return kind


def run_segseg3(c):
    """icosahedral: two segments in three dimensions"""
    S = gen.ICO
    L1, L2 = S.pts(c["s1"]), S.pts(c["s2"])
    ab, cd, ac = G.sub(L1[1], L1[0]), G.sub(L2[1], L2[0]), G.sub(L2[0], L1[0])
    n = G.cross(ab, cd)
    n2 = G.dot(n, n)
    if not n2:
        kind, q = "parallel", None
    else:
        if float(n2) < 1e-6 * float(G.dot(ab, ab)) * float(G.dot(cd, cd)) or max(abs(float(x)) for x in n) < 1e-4:
            return "-near"
        s, t = G.dot(G.cross(ac, cd), n) / n2, G.dot(G.cross(ac, ab), n) / n2
        lo = min(float(x) for x in (s, S.F(1) - s, t, S.F(1) - t))
        exact = all(x.sign() >= 0 for x in (s, S.F(1) - s, t, S.F(1) - t))
        skew = G.dot(ac, n)
        if skew and abs(float(skew)) < 1e-3 or (not exact and lo > -1e-4):
            return "-near"
        kind, q = ("skew", None) if skew else ("hit", G.add(L1[0], G.scal(ab, s))) if exact else ("miss", None)
    r = pure(ni.check_intersection_two_segment_numerical_6d_tau, A(c["s1"]), A(c["s2"]))
    expect((int(r) != 3) == (kind == "hit"), "two segments (%s): crossing = %s", kind, r)
    p = pure(xi.intersection_two_segment, A(c["s1"]), A(c["s2"]))
    if kind != "hit":
        expect(p is None, "two segments (%s): a point is returned", kind)
        return kind
    expect(p is not None and np.shape(p) == (6, 3), "two segments that cross: %s", np.shape(p))
    expect(S.perp(p.tolist()) == q, "the point of intersection is not exact: %s", p.tolist())
    return kind


def run_segtri2(c):
    """dodecagonal: crossings of a segment with the sides of a triangle"""
    S = gen.DODE
    T, L = S.pts(c["tri"]), S.pts(c["seg"])
    ref = [ref_segseg(L, [T[i], T[j]]) for i, j in combinations(range(3), 2)]
    if any(k is None for k, _ in ref):
        return "-near"
    qs = [q for k, q in ref if k == "hit"]
    r = pure(nd.check_intersection_segment_surface_numerical_6d_tau, A(c["seg"]), A(c["tri"]))
    expect(bool(r) == bool(qs), "a segment that crosses %d sides of a triangle: crossing = %s", len(qs), r)
    p = pure(xd.intersection_segment_surface, A(c["seg"]), A(c["tri"]))
    if not qs:
        expect(p is None, "a segment that crosses no side of a triangle: a point is returned")
        return "miss"
    expect(p is not None, "a segment that crosses a triangle: nothing is returned")
    got = [S.perp(v) for v in np.asarray(p).reshape(-1, 6, 3).tolist()]
    expect(len(got) == len(qs) and set(got) == set(qs), "points on the sides of the triangle: %d returned, %d expected", len(got), len(qs))
    return "crosses %d" % len(qs)


for S, n, m in ((gen.ICO, ni, mi), (gen.DODE, nd, md)):
    def mk(S=S, n=n):
        return lambda case: run_located(S, n, case)

    def mk2(S=S, n=n, m=m):
        return lambda case: run_flat(S, n, m, case)
    P.sub(S.name + "_location", located(S), quick=2500, thorough=40000)(mk())
    P.sub(S.name + "_flat", flat(S), quick=2000, thorough=30000)(mk2())
P.sub("ico2_segment_triangle", crossing(gen.ICO), quick=2500, thorough=40000)(run_segtri)
P.sub("ico2_segments", two_segments(gen.ICO), quick=2500, thorough=40000)(run_segseg3)
P.sub("dode2_segments", two_segments(gen.DODE), quick=2500, thorough=40000)(run_segseg)
P.sub("dode2_segment_triangle", crossing(gen.DODE), quick=2500, thorough=40000)(run_segtri2)
