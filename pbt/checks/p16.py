"""P16 surface, edges and border edges"""
from collections import Counter
from itertools import combinations
import numpy as np
from hypothesis import strategies as st
from ..core import Property, expect
from ..util import pure
from .. import gen, geom as G, sym
from ..field import vec

import pyqcstrc.ico2.occupation_domain as oi
import pyqcstrc.dode2.occupation_domain as odd
import pyqcstrc.ico2.utils as ui
import pyqcstrc.dode2.utils as ud

P = Property("P16", "Surface and border edges",
             rule="a case is non-trivial when the domain has at least two cells; class 'merged' when border edges of several cells form one longer edge",
             assumptions=["cells meet face to face", "vertices that coincide in internal space are given by the same 6D coordinates"])
A = gen.arr


def plane_key(t):
    """canonical plane of a 3D triangle: (normal scaled so that its first non-zero component is 1, offset)"""
    n = G.cross(G.sub(t[1], t[0]), G.sub(t[2], t[0]))
    f = next(x for x in n if x)
    n = tuple(x / f for x in n)
    return n, G.dot(n, t[0])


def once(items):
    c = Counter(items)
    return [k for k, v in c.items() if v == 1]


def edges_of(tris):
    return [frozenset(e) for t in tris for e in combinations(t, 2)]


def between(p, a, b):
    """p strictly between a and b on a line"""
    u, v = G.sub(p, a), G.sub(b, p)
    w = [u[i] * v[j] - u[j] * v[i] for i, j in combinations(range(len(u)), 2)]
    return not any(bool(x) for x in w) and G.dot(u, v).sign() > 0


def merge(edges):
    """maximal straight chains of edges joined at their ends"""
    edges = set(edges)
    n0 = len(edges)
    again = True
    while again:
        again = False
        at = {}
        for e in edges:
            for p in e:
                at.setdefault(p, []).append(e)
        for p, es in at.items():
            for e, f in combinations(es, 2):
                a, = e - {p}
                b, = f - {p}
                if between(p, a, b):
                    edges -= {e, f}
                    edges.add(frozenset([a, b]))
                    again = True
                    break
            if again:
                break
    return edges, len(edges) < n0


def border(S, o):
    """reference border edges as frozensets of internal-space points"""
    cells = [tuple(S.pts(c)) for c in o]
    if S is gen.ICO:
        tris = once(frozenset(t) for c in cells for t in combinations(c, 3))
        groups = {}
        for t in tris:
            groups.setdefault(plane_key(tuple(t)), []).append(tuple(t))
        groups = list(groups.values())
    else:
        tris, groups = cells, [cells]
    edges = set()
    for g in groups:
        edges |= set(once(edges_of(g)))
    return (tris, *merge(edges))


def back(S, arr, m, what):
    """returned cells as sets of internal-space points; every vertex must be one of the given 6D vertices"""
    a = np.asarray(arr)
    expect(a.ndim == 4 and a.shape[1:] == (m, 6, 3), "%s has shape %s", what, a.shape)
    return [frozenset(S.pts(c)) for c in a.tolist()]


def same_set(got, ref, what):
    expect(len(set(got)) == len(got), "%s: an item is returned twice", what)
    g, r = set(got), set(ref)
    expect(g == r, "%s: %d returned, %d expected, %d in common", what, len(g), len(r), len(g & r))


def verts_kept(arr, o, what):
    vs = {str(v) for c in o for v in c}
    expect(all(str(v) in vs for c in np.asarray(arr).tolist() for v in c), "%s: a returned vertex is none of the domain's 6D vertices", what)


def run(S, od, u, o):
    k = S.k
    cells = [tuple(S.pts(c)) for c in o]
    tris, edges, merged = border(S, o)
    w = S.name + " "
    r = pure(od.generate_border_edges, A(o))
    same_set(back(S, r, 2, w + "border edges"), edges, w + "border edges")
    verts_kept(r, o, w + "border edges")
    if S is gen.DODE:
        r = pure(od.outline, A(o))
        same_set(back(S, r, 2, w + "outline"), edges, w + "outline")
        verts_kept(r, o, w + "outline")
    else:
        r = pure(u.generator_surface_1, A(o))
        same_set(back(S, r, 3, w + "surface"), tris, w + "surface")
        verts_kept(r, o, w + "surface")
        r = pure(u.generator_unique_triangles, A(o))
        same_set(back(S, r, 3, w + "triangles"), {frozenset(t) for c in cells for t in combinations(c, 3)}, w + "triangles")
    r = pure(u.generator_unique_edges, A(o))
    same_set(back(S, r, 2, w + "unique edges"), set(edges_of(cells)), w + "unique edges")
    r = pure(u.generator_all_edges, A(o))
    expect(Counter(back(S, r, 2, w + "all edges")) == Counter(edges_of(cells)), "%sall edges: not the edges of every cell", w)
    return "-single" if len(o) == 1 else ("merged" if merged else "plain")


@st.composite
def fans(draw, S):
    """a convex or non-convex fan, or the orbit of a cell under part of the point group"""
    o = draw(gen.any_obj(S, 4, st.one_of(gen.cell(S, 2, (1, 2)), gen.od_cell(S)), True))
    return [list(draw(st.permutations(c))) for c in o]


@st.composite
def wedge(draw, S):
    """cells around a common edge (3D) or vertex (2D): flat faces and hinges continue over several cells"""
    n = draw(st.integers(3, 5))
    v = draw(gen.cell(S, 2, (1, 1, 2)))
    if S is gen.ICO:
        p, q, a, b = v
        rim = [a, b]
        for _ in range(n):
            kind = draw(st.integers(0, 2))
            if kind == 0:       # opposite to an earlier spoke
                rim.append(S.lin([S.F(2), S.F(-1)], [p, draw(st.sampled_from(rim))]))
            else:
                x, y = draw(st.sampled_from([(1, 1), (-1, 1), (1, -1), (-1, -1), (2, -1), (-1, 2)]))
                rim.append(S.lin([S.F(1 - x - y), S.F(x), S.F(y)], [p, a, b]))
    else:
        p, a, b = v
        q = None
        rim = [a, b]
        for _ in range(n):
            x, y = draw(st.sampled_from([(1, 1), (-1, 1), (1, -1), (-1, -1), (-1, 0), (0, -1), (2, -1), (-1, 2)]))
            rim.append(S.lin([S.F(1 - x - y), S.F(x), S.F(y)], [p, a, b]))
    # order the rim by angle in the affine frame (p; a, b) and join neighbours less than half a turn apart
    fr = {}
    for r in rim:
        P_, A_, B_, R_ = (S.perp(z) for z in (p, a, b, r))
        ea, eb, er = G.sub(A_, P_), G.sub(B_, P_), G.sub(R_, P_)
        if S is gen.ICO:
            nn = G.cross(ea, eb)
            d = G.dot(nn, nn)
            x, y = G.dot(G.cross(er, eb), nn) / d, G.dot(G.cross(ea, er), nn) / d
        else:
            d = G.cross2(ea, eb)
            x, y = G.cross2(er, eb) / d, G.cross2(ea, er) / d
        import math
        if not x and not y:
            continue
        fr[round(math.atan2(float(y), float(x)), 9)] = ((x, y), r)
    ks = sorted(fr)
    o = []
    for i, k in enumerate(ks):
        (x, y), r = fr[k]
        (z, w), s = fr[ks[(i + 1) % len(ks)]]
        if (x * w - y * z).sign() > 0 and (len(ks) > 1):
            o.append([p, r, s] + ([q] if q is not None else []))
    from hypothesis import assume
    keep = draw(st.lists(st.sampled_from([True, True, True, False]), min_size=len(o), max_size=len(o)))
    o = [c for c, kk in zip(o, keep) if kk]
    assume(o and all(abs(float(S.meas(c))) > 1e-3 for c in o))
    return [list(draw(st.permutations(c))) for c in o]


def orbit(S, cell, sub=None):
    g = sorted(sym.group(S))
    seen, out = set(), []
    for m in g:
        im = [[list(x.triple()) for x in sym.apply(m, vec(S.F, v), S.F)] for v in cell]
        k = frozenset(map(str, im))
        if k not in seen:
            seen.add(k)
            out.append(im)
    return out


RATIO = {"ico2": [[1, 0, 1], [1, 0, 1], [0, 1, 1], [-1, 1, 1], [1, 0, 2], [2, 0, 1]],
         "dode2": [[1, 0, 1], [1, 0, 1], [0, 2, 1], [-1, 2, 1], [1, 0, 2], [2, 0, 1]]}


def asym_rays(S):
    """6D vectors along the corner rays of a fundamental cone of the point group"""
    if S is gen.ICO:
        return gen.RT_ASYM[1:]
    z = [0, 0, 1]
    e = [[[int(i == j), 0, 1] for j in range(6)] for i in range(4)]
    a = e[0]
    for b in e[1:] + [[[-x[0], 0, 1] for x in v] for v in e[1:]]:
        pa, pb = S.perp(a), S.perp(b)
        if float(G.dot(pa, pb)) > 0.8:
            return [a, S.lin([S.F(1), S.F(1)], [a, b])]
    raise AssertionError


@st.composite
def orbit_part(draw, S):
    """some of the images of a cell that fills a fundamental cone: they meet face to face along mirrors"""
    r = [S.F(*draw(st.sampled_from(RATIO[S.name]))) for _ in range(S.k - 1)]
    zero = [[0, 0, 1]] * 6
    cell = [list(zero)] + [S.lin([x], [v]) for x, v in zip(r, asym_rays(S))]
    o = orbit(S, cell)
    n = draw(st.integers(2, 6 if S is gen.ICO else 8))
    # grow from neighbours so that cells really touch
    keys = [frozenset(map(str, c)) for c in o]
    pick = [draw(st.integers(0, len(o) - 1))]
    for _ in range(n - 1):
        nb = [i for i in range(len(o)) if i not in pick and any(len(keys[i] & keys[j]) == S.k - 1 for j in pick)]
        if not nb:
            break
        pick.append(draw(st.sampled_from(nb)))
    sh = draw(st.one_of(st.just([[0, 0, 1]] * 6), S.vs(2, (1, 2))))
    one = S.F(1)
    return [[S.lin([one, one], [v, sh]) for v in draw(st.permutations(o[i]))] for i in pick]


for S, od, u, q in ((gen.ICO, oi, ui, 350), (gen.DODE, odd, ud, 700)):
    def mk(S=S, od=od, u=u):
        return lambda case: run(S, od, u, case)
    P.sub(S.name, gen.placed(S, fans(S)), quick=q, thorough=q * 12)(mk())
    P.sub(S.name + "_wedge", gen.placed(S, wedge(S)), quick=q, thorough=q * 12)(mk())
    P.sub(S.name + "_orbit", gen.placed(S, orbit_part(S)), quick=q // 2, thorough=q * 6)(mk())
P.sub("ico2_triacontahedron", None, fixed=True, examples=["all"])(lambda _: run(gen.ICO, oi, ui, orbit(gen.ICO, gen.RT_ASYM)))


@P.sub("dode2_dodecagon", None, fixed=True, examples=["all"])
def dodecagon(_):
    S = gen.DODE
    return run(S, odd, ud, orbit(S, [[[0, 0, 1]] * 6] + asym_rays(S)))
