"""P09 intersection of dodecagonal domains"""
from hypothesis import strategies as st
from ..core import Property, expect, sut
from ..util import pure
from ..region import check_intersection, judge, near_case
from .. import gen, sym
from ..field import vec
from ..gen import DODE as S

import pyqcstrc.dode2.two_occupation_domains as tod

P = Property("P09", "Intersection of dodecagonal domains",
             rule="a case is non-trivial when the exact common area is positive",
             assumptions=["domains are sets of interior-disjoint triangles",
                          "vertices with integer or half-integer components (some with an irrational part) up to 2, plus their midpoints, "
                          "and centroids"])
A = gen.arr


def run(o1, o2):
    return judge(S, [(o1, o2)], lambda: run1(o1, o2))


def run1(o1, o2):
    r = pure(tod.intersection, A(o1), A(o2))
    ref, n = check_intersection(S, r, o1, o2, "dode2 intersection")
    if not ref:
        return "-disjoint"
    if n == 1 and len(o1) == 1 and len(o2) == 1 and r.tolist()[0] in (o1[0], o2[0]):
        return "contained"
    return "cut %d" % min(n, 9)


@P.sub("cells", gen.pair_cells(S), quick=6000, thorough=120000)
def cells(case):
    return run(*case)


@P.sub("cells_irrational", gen.pair_cells(S, 1, (1,)), quick=3000, thorough=60000)
def cells_irr(case):
    return run(*case)


@P.sub("near", gen.pair_near(S), quick=2000, thorough=30000)
def near(case):
    """cells that nearly share vertices, edges or faces"""
    return near_case(S, lambda c: run(*c), case)


@P.sub("elsewhere", gen.elsewhere(S, st.one_of(gen.pair_cells(S), gen.pair_cells(S, 1, (1,)), gen.pair_objs(S, 1))), quick=2000, thorough=30000)
def elsewhere(case):
    """domains of other sizes, far from the origin"""
    return run(*case)


@P.sub("thin", gen.pair_objs(S, 2, (1,), True), quick=1500, thorough=22500)
def thin(case):
    """domains with thin cells"""
    return near_case(S, lambda c: run(*c), case)


@P.sub("domains", gen.pair_objs(S, 2), quick=2500, thorough=50000)
def domains(case):
    return run(*case)
