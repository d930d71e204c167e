"""P11 intersection of convex domains"""
from ..core import Property, expect
from ..util import pure
from ..region import check_intersection, judge, near_case
from .. import gen
from hypothesis import strategies as st

import pyqcstrc.ico2.two_occupation_domains as ti
import pyqcstrc.dode2.two_occupation_domains as td

P = Property("P11", "Convex intersection",
             rule="a case is non-trivial when the exact common part has positive measure",
             assumptions=["both domains are convex and given by face-to-face cells"])
A = gen.arr


def run(S, mod, case):
    return judge(S, [case], lambda: run1(S, mod, case))


def run1(S, mod, case):
    o1, o2 = case
    r = pure(mod.intersection_convex, A(o1), A(o2))
    ref, n = check_intersection(S, r, o1, o2, S.name + " convex intersection")
    if not ref:
        return "-disjoint"
    for o, lab in ((o1, "first"), (o2, "second")):
        if ref == S.cells(o).measure():
            return lab + " inside"
    return "cut %d" % min(n, 9)


@st.composite
def convex_pair(draw, S):
    a = draw(gen.cell(S))
    o1 = draw(gen.convex_obj(S, 2, st.just(a)))
    k = draw(st.integers(0, 3))
    if k == 0:
        b = draw(gen.cell(S))
    elif k == 1:
        b = a
    else:
        b = draw(gen.related_cell(S, a))
    o2 = draw(gen.convex_obj(S, 2, st.just(b)))
    return [o1, o2]


for S, mod, q in ((gen.ICO, ti, 800), (gen.DODE, td, 2000)):
    def mk(S=S, mod=mod):
        return lambda case: run(S, mod, case)

    def mkn(S=S, mod=mod):
        return lambda case: near_case(S, lambda c: run(S, mod, c), case)
    P.sub(S.name + "_subdivided", convex_pair(S), quick=q, thorough=q * 12)(mk())
    P.sub(S.name + "_elsewhere", gen.elsewhere(S, st.one_of(gen.pair_cells(S), convex_pair(S))), quick=q // 2, thorough=q * 8)(mk())
    P.sub(S.name + "_near", gen.pair_near(S), quick=q, thorough=q * 12)(mkn())
    P.sub(S.name + "_cells", gen.pair_cells(S), quick=q, thorough=q * 12)(mk())
