"""P08 intersection of icosahedral domains"""
from hypothesis import strategies as st
from ..core import Property, expect, sut
from ..util import pure
from ..region import check_intersection, judge, near_case
from .. import gen, sym
from ..field import vec
from ..gen import ICO as S

import pyqcstrc.ico2.two_occupation_domains as tod

P = Property("P08", "Intersection of icosahedral domains",
             rule="a case is non-trivial when the exact common volume is positive",
             assumptions=["domains are sets of interior-disjoint tetrahedra",
                          "vertices with integer or half-integer components (some with a tau part) up to 2, plus their midpoints, "
                          "centroids and the published occupation-domain vertices"])
A = gen.arr


def run(o1, o2):
    return judge(S, [(o1, o2)], lambda: run1(o1, o2))


def run1(o1, o2):
    r = pure(tod.intersection, A(o1), A(o2))
    ref, n = check_intersection(S, r, o1, o2, "ico2 intersection")
    if not ref:
        return "-disjoint"
    if n == 1 and len(o1) == 1 and len(o2) == 1 and r.tolist()[0] in (o1[0], o2[0]):
        return "contained"
    return "cut %d" % min(n, 9)


@P.sub("cells", gen.pair_cells(S), quick=3000, thorough=60000)
def cells(case):
    return run(*case)


@P.sub("cells_irrational", gen.pair_cells(S, 1, (1,)), quick=1500, thorough=30000)
def cells_irr(case):
    return run(*case)


@P.sub("near", gen.pair_near(S), quick=800, thorough=12000)
def near(case):
    """cells that nearly share vertices, edges or faces"""
    return near_case(S, lambda c: run(*c), case)


@P.sub("thin", gen.pair_objs(S, 2, (1,), True), quick=600, thorough=9000)
def thin(case):
    """domains with thin cells"""
    return near_case(S, lambda c: run(*c), case)


@P.sub("domains", gen.pair_objs(S, 2), quick=1200, thorough=20000)
def domains(case):
    return run(*case)


@P.sub("elsewhere", gen.elsewhere(S, st.one_of(gen.pair_cells(S), gen.pair_cells(S, 1, (1,)), gen.pair_objs(S, 1))), quick=1000, thorough=15000)
def elsewhere(case):
    """domains of other sizes, far from the origin"""
    return run(*case)


@st.composite
def published(draw):
    """cells over published occupation-domain vertices; the second one is moved by a point-group
    operation and a translation that brings one of its vertices onto (or half-way to) one of the first"""
    a = draw(gen.od_cell(S)) if draw(st.integers(0, 2)) else gen.RT_ASYM
    b = draw(gen.od_cell(S)) if draw(st.booleans()) else a
    if draw(st.booleans()):
        g = sorted(sym.group(S))
        m = g[draw(st.integers(0, len(g) - 1))]
        b = [[list(t.triple()) for t in sym.apply(m, vec(S.F, v), S.F)] for v in b]
    w = draw(st.sampled_from([None, S.F(1), S.F(1), S.F(1, 0, 2)]))
    if w is not None:
        x, y = a[draw(st.integers(0, 3))], b[draw(st.integers(0, 3))]
        b = [S.lin([S.F(1), w, -w], [v, x, y]) for v in b]
    return [[a], [b]]


@P.sub("published", published(), quick=1200, thorough=12000)
def pub(case):
    return run(*case)


_RT = []


def rt_cells():
    """the rhombic triacontahedron: 120 images of its asymmetric part (reference group)"""
    if not _RT:
        for m in sorted(sym.group(S)):
            _RT.append([[list(t.triple()) for t in sym.apply(m, vec(S.F, v), S.F)] for v in gen.RT_ASYM])
    return _RT


@st.composite
def triacontahedra(draw):
    rt = rt_cells()
    i = draw(st.lists(st.integers(0, 119), min_size=1, max_size=3, unique=True))
    j = draw(st.lists(st.integers(0, 119), min_size=2, max_size=10, unique=True))
    e = [[draw(st.sampled_from([0, 0, 0, 1, -1])), 0, 1] for _ in range(6)]
    return [[rt[k] for k in i], [[S.lin([S.F(1), S.F(1)], [v, e]) for v in rt[k]] for k in j]]


@P.sub("triacontahedra", triacontahedra, quick=800, thorough=8000)
def rts(case):
    """parts of two triacontahedra at lattice-vector distance: the library's intended use"""
    return run(*case)
