"""P18 duplicates, equivalence, neighbours and merging of two cells"""
import numpy as np
from hypothesis import strategies as st, assume
from ..core import Property, expect
from ..util import pure, same_vec
from .. import gen, geom as G, sym
from ..field import vec
from .p12 import NULL
from .p16 import between

import pyqcstrc.ico2.utils as ui
import pyqcstrc.dode2.utils as ud

P = Property("P18", "Duplicates, equivalence, neighbours",
             rule="a case is non-trivial when duplicates are present (lists), the two items have a vertex in common (pairs)",
             assumptions=["cells are proper; for merging, coinciding vertices are given by the same 6D coordinates"])
A = gen.arr


def disguise(draw, S, v, raw=True):
    """the same internal-space point, written differently"""
    k = draw(st.integers(0, 3))
    if k == 1 and raw:
        f = draw(st.integers(2, 3))
        return [[x * f for x in t] for t in v]
    if k == 2:
        n = draw(st.sampled_from(NULL[S.name]))
        return S.lin([S.F(1), S.F(draw(st.sampled_from([1, -1, 2])))], [v, n])
    return v


def close(draw, S, v):
    """another point: one that differs in the sign of some internal coordinates only, or by little"""
    if draw(st.booleans()):
        return sym.mirrored(S, v, draw(st.integers(0, 7)))
    e = S.F(*draw(st.sampled_from(gen.SMALL[S.name][:6] if draw(st.booleans()) else gen.TINY[S.name])))
    d = draw(st.lists(st.sampled_from([0, 0, 1, -1]), min_size=6, max_size=6))
    if S is gen.DODE:
        d[5] = 0
    return S.lin([S.F(1), e], [v, [[x, 0, 1] for x in d]])


# --- lists --------------------------------------------------------------------

@st.composite
def lists(draw, S):
    base = draw(st.lists(st.one_of(S.vs(1, (1,)), S.vs(2, (1, 2)), S.vs(3, (1, 2, 3))), min_size=1, max_size=6))
    base = [S.lin([S.F(1)], [v]) for v in base]                    # lowest terms
    base += [close(draw, S, draw(st.sampled_from(base))) for _ in range(draw(st.integers(0, 3)))]
    base = draw(gen.placed(S, st.just([base])))[0]
    n = draw(st.integers(0, 6))
    l = base + [disguise(draw, S, draw(st.sampled_from(base))) for _ in range(n)]
    l = draw(gen.crowd(st.just(l), odds=40))
    l = list(draw(st.permutations(l)))
    four = draw(st.booleans()) and len(l) % 2 == 0
    return dict(l=l, four=four)


def run_lists(S, u, c):
    l = c["l"]
    a = A(l)
    if c["four"]:
        a = a.reshape(len(l) // 2, 2, 6, 3)
    raw = {str(v) for v in l}
    r = pure(u.remove_doubling, a)
    expect(np.shape(r)[1:] == (6, 3), "%s duplicates removed: shape %s", S.name, np.shape(r))
    got = [str(v) for v in r.tolist()]
    expect(len(set(got)) == len(got) and set(got) == raw, "%s: removing duplicates gives %d vectors, %d are distinct", S.name, len(got), len(raw))
    r = pure(u.remove_doubling_in_perp_space, a)
    pts = {S.perp3(v) for v in l}
    expect(np.shape(r)[1:] == (6, 3), "%s duplicates removed: shape %s", S.name, np.shape(r))
    got = [S.perp3(v) for v in r.tolist()]
    expect(len(set(got)) == len(got), "%s: a duplicate in internal space is left", S.name)
    expect(set(got) == pts, "%s: removing duplicates in internal space gives %d points instead of %d", S.name, len(got), len(pts))
    expect(all(str(v) in raw for v in r.tolist()), "%s: a vector is returned that was not given", S.name)
    # one vector taken out of a list
    if len(raw) > 1:
        v = l[0]
        r = pure(u.remove_vector, A(l), A(v)).tolist()
        expect(r == [x for x in l if x != v], "%s: taking a vector out of a list", S.name)
        rest = [x for x in l[1:3] if x != l[-1]]
        if rest:
            r = pure(u.remove_vectors, A(l), A(rest)).tolist()
            expect(r == [x for x in l if x not in rest], "%s: taking vectors out of a list", S.name)
    # sorting keeps the vectors and orders them by the first internal coordinate
    r = pure(u.sort_vctors, A(l)).tolist()
    expect(sorted(map(str, r)) == sorted(map(str, l)), "%s: sorting changes the vectors", S.name)
    x = [float(S.perp3(v)[0]) for v in r]
    expect(all(p <= q + 1e-9 for p, q in zip(x, x[1:])), "%s: vectors are not in order: %s", S.name, x)
    # middle positions
    m = pure(u.middle_position, A(l[0]), A(l[-1]))
    h = S.F(1, 0, 2)
    same_vec(S.F, m, [(p + q) * h for p, q in zip(vec(S.F, l[0]), vec(S.F, l[-1]))], S.name + " middle position")
    return "duplicates" if len(pts) < len(l) else "-distinct"


# --- equivalence of two items ---------------------------------------------------

def alike(draw, S, a):
    """other points that have much in common with a: the centroid, the edge vectors, or the values of each coordinate"""
    k, n, one = draw(st.integers(0, 3)), len(a), S.F(1)
    if k == 0:
        d = draw(S.vs(2, (1, 2)))
        i, j = draw(st.permutations(range(n)))[:2]
        return [S.lin([one, S.F((x == i) - (x == j))], [v, d]) for x, v in enumerate(a)]
    if k == 1:
        h = S.F(2, 0, n)
        return [S.lin([h] * n + [S.F(-1)], a + [v]) for v in a]
    if k == 2:
        d = draw(S.vs(2, (1, 2)))
        return [S.lin([one, one], [v, d]) for v in a]
    cols = [draw(st.permutations(range(n))) for _ in range(6)]
    return [S.lin([one], [[a[cols[c][i]][c] for c in range(6)]]) for i in range(n)]


@st.composite
def pairs(draw, S):
    n = draw(st.integers(1, S.k))
    a = draw(gen.cell(S, 2, (1, 2)))[:n]
    a = [S.lin([S.F(1)], [v]) for v in a]
    k = draw(st.integers(0, n))
    b = [disguise(draw, S, v) for v in list(draw(st.permutations(a)))[:k]]
    pa = {S.perp3(v) for v in a}
    while len(b) < n:
        v = draw(S.vs(2, (1, 2))) if draw(st.booleans()) else close(draw, S, draw(st.sampled_from(a)))
        assume(S.perp3(v) not in {S.perp3(x) for x in b})
        b.append(S.lin([S.F(1)], [v]))
    if n > 1 and draw(st.integers(0, 3)) == 0:
        b = alike(draw, S, a)
        assume(len({S.perp3(v) for v in b}) == n)
    a, b = draw(gen.placed(S, st.just([a, b])))
    return [a, list(draw(st.permutations(b)))]


def run_pairs(S, u, c):
    a, b = c
    n = len(a)
    pa, pb = {S.perp3(v) for v in a}, {S.perp3(v) for v in b}
    ref = pa == pb
    if n == 1:
        r = pure(u.equivalent_vertices, A(a[0]), A(b[0]))
        r2 = pure(u.equivalent, A(a[0]), A(b[0]))
    else:
        f = {2: "equivalent_edges", 3: "equivalent_triangles", 4: "equivalent_tetrahedra"}[n]
        r = pure(getattr(u, f), A(a), A(b))
        r2 = pure(u.equivalent, A(a), A(b))
        r3 = pure(u.equivalent, A([a]), A([b]))
        expect(bool(r3) == ref, "%s: domains of one item with %d vertices: equivalent = %s", S.name, n, r3)
    expect(bool(r) == ref, "%s: items with %d vertices, %d in common: equivalent = %s", S.name, n, len(pa & pb), r)
    expect(bool(r2) == ref, "%s: items with %d vertices, %d in common: equivalent = %s (general form)", S.name, n, len(pa & pb), r2)
    return "%d of %d" % (len(pa & pb), n) if pa & pb else "-apart"


# --- neighbours -------------------------------------------------------------------

@st.composite
def neighbours(draw, S):
    a = draw(gen.cell(S, 2, (1, 2)))
    a = [S.lin([S.F(1)], [v]) for v in a]
    k = draw(st.sampled_from([S.k - 1] * 6 + list(range(S.k + 1))))
    common = list(draw(st.permutations(a)))[:k]
    kind = draw(st.integers(0, 2))
    b = list(common)
    if k == S.k - 1 and kind:
        # the last vertex on the extension of an edge: the two cells form one cell
        lone, = [v for v in a if v not in common]
        q = draw(st.sampled_from(common))
        f = S.F(*draw(st.sampled_from([[1, 0, 1], [1, 0, 2], [2, 0, 1], [0, 1, 1], [1, 0, 3]])))
        b.append(S.lin([S.F(1) + f, S.F(0) - f], [q, lone]))
    while len(b) < S.k:
        b.append(S.lin([S.F(1)], [draw(S.vs(2, (1, 2))) if draw(st.booleans()) else close(draw, S, draw(st.sampled_from(a)))]))
    if draw(st.integers(0, 5)) == 0:
        b = alike(draw, S, a)
    assume(abs(float(S.meas(b))) > 1e-3)
    assume(len({S.perp(v) for v in a + b}) == len({str(v) for v in a + b}))
    a, b = draw(gen.placed(S, st.just([a, b])))
    return [a, list(draw(st.permutations(b)))]


def run_neighbours(S, u, c):
    a, b = c
    pa, pb = S.pts(a), S.pts(b)
    com = set(pa) & set(pb)
    ref = len(com) == S.k - 1
    if S is gen.ICO:
        conn, face, merge = u.check_connectivity_tetrahedra, u.get_common_triangle_in_two_tetrahedra, u.merge_two_tetrahedra
    else:
        conn, face, merge = u.check_connectivity_triangles, u.get_common_edge_in_two_triangles, u.merge_two_triangles
    r = pure(conn, A(a), A(b))
    expect(bool(r) == ref, "%s: two cells with %d vertices in common: neighbours = %s", S.name, len(com), r)
    if ref:
        r = pure(face, A(a), A(b))
        expect(r is not None and {S.perp(v) for v in np.asarray(r).tolist()} == com, "%s: common face %s", S.name, r)
    r = pure(merge, A(a), A(b))
    one = False
    if ref:
        p, = [x for x in pa if x not in com]
        q, = [x for x in pb if x not in com]
        mid = [x for x in com if between(x, p, q)]
        one = bool(mid)
    if not one:
        expect(r is None, "%s: two cells that form no cell were merged: %s", S.name, np.shape(r))
        return "neighbours" if ref else ("-far" if not com else "touch")
    expect(np.shape(r) == (S.k, 6, 3), "%s merged cell has shape %s", S.name, np.shape(r))
    expect({S.perp(v) for v in r.tolist()} == (com - {mid[0]}) | {p, q}, "%s: merged cell has other vertices", S.name)
    return "merged"


# --- two segments -------------------------------------------------------------------

@st.composite
def segments(draw, S):
    a = draw(gen.cell(S, 2, (1, 2)))
    p, q, x = [S.lin([S.F(1)], [v]) for v in a[:3]]
    kind = draw(st.integers(0, 3))
    f = S.F(*draw(st.sampled_from([[1, 0, 1], [1, 0, 2], [2, 0, 1], [0, 1, 1], [1, 0, 3]])))
    if kind == 0:
        r = S.lin([S.F(1) + f, S.F(0) - f], [q, p])      # beyond q: one longer segment
    elif kind == 1:
        r = S.lin([S.F(1) - f, f], [q, p])               # back over the first one
        assume(S.perp(r) != S.perp(q))
    else:
        r = x
    s1, s2 = [p, q], [disguise(draw, S, q, raw=False), r]
    if kind == 3 and draw(st.booleans()):
        s2[0] = S.lin([S.F(1)], [draw(S.vs(2, (1, 2)))])
    assume(len({S.perp(v) for v in s2}) == 2)
    s1, s2 = draw(gen.placed(S, st.just([s1, s2])))
    return [list(draw(st.permutations(s1))), list(draw(st.permutations(s2)))]


def run_segments(S, u, c):
    s1, s2 = c
    p1, p2 = S.pts(s1), S.pts(s2)
    com = set(p1) & set(p2)
    ref = None
    for m in com:
        x, = [v for v in p1 if v != m]
        y, = [v for v in p2 if v != m]
        if x != y and between(m, x, y):
            ref = {x, y}
    r = pure(u.two_segment_into_one, A(s1), A(s2))
    if ref is None:
        expect(r is None, "%s: two segments that form no segment were joined", S.name)
        return "corner" if com else "-apart"
    expect(r is not None, "%s: two segments in line with a common end were not joined", S.name)
    expect({S.perp(v) for v in np.asarray(r).tolist()} == ref, "%s: the joined segment has other ends", S.name)
    return "joined"


for S, u in ((gen.ICO, ui), (gen.DODE, ud)):
    for name, strat, fn, q in (("lists", lists, run_lists, 1500), ("pairs", pairs, run_pairs, 1500),
                               ("neighbours", neighbours, run_neighbours, 1500), ("segments", segments, run_segments, 1500)):
        def mk(S=S, u=u, fn=fn):
            return lambda case: fn(S, u, case)
        P.sub(S.name + "_" + name, strat(S), quick=q, thorough=q * 12)(mk())
