"""P10 'simple' intersection: same region, never more cells"""
from ..core import Property, expect
from ..util import pure, obj_shape
from ..region import check_intersection, judge, near_case
from .. import gen
from hypothesis import strategies as st

import pyqcstrc.ico2.two_occupation_domains as ti
import pyqcstrc.dode2.two_occupation_domains as td

P = Property("P10", "Simple intersection",
             rule="a case is non-trivial when the exact common part has positive measure; class 'merged' when the simple "
                  "form has fewer cells than the standard one",
             assumptions=["domains are sets of interior-disjoint cells"])
A = gen.arr


def run(S, mod, case):
    return judge(S, [case], lambda: run1(S, mod, case))


def run1(S, mod, case):
    o1, o2 = case
    simple = pure(mod.intersection, A(o1), A(o2), "simple")
    std = pure(mod.intersection, A(o1), A(o2), "standard")
    ref, n = check_intersection(S, simple, o1, o2, S.name + " simple intersection")
    ref, m = check_intersection(S, std, o1, o2, S.name + " standard intersection", ref=ref)
    expect(n <= m, "%s: simple form has %d cells, standard form %d", S.name, n, m)
    # a cell of the first domain that lies completely in the second comes back as it is
    B = S.cells(o2)
    got = [sorted(map(str, c)) for c in obj_shape(simple, S.k, "simple")]
    for c in o1:
        if B.common1(S.pts(c)) == S.meas(c):
            expect(sorted(map(str, c)) in got, "%s: a cell covered by the second domain is not kept whole", S.name)
    return "-disjoint" if not ref else ("merged" if n < m else "same")


@st.composite
def covered(draw, S):
    """a cell and a subdivided domain that covers it"""
    a = draw(gen.cell(S))
    o1 = draw(gen.convex_obj(S, 1, st.just(a)))
    k = draw(st.integers(0, 2))
    b = a
    if k:                                   # the same cell, k+1 times as large about one vertex
        i = draw(st.integers(0, S.k - 1))
        b = [S.lin([S.F(-k), S.F(k + 1)], [a[i], v]) for v in a]
    o2 = draw(gen.convex_obj(S, 3, st.just(b)))
    return [o1, o2]


FACT = {"ico2": [[1, 0, 2], [0, 1, 1], [-1, 1, 1], [2, -1, 1], [2, 0, 1], [0, 1, 2], [-1, 2, 1], [1, 1, 1], [1, 1, 2], [-1, 1, 2],
                 [1, -1, 1], [0, -1, 1], [-1, 1, 3], [3, -1, 1]],
        "dode2": [[1, 0, 2], [0, 1, 1], [2, -2, 1], [-1, 2, 1], [2, 0, 1], [0, 2, 1], [0, 4, 3], [1, 2, 2], [0, 1, 2], [0, 2, 3],
                  [0, -2, 1], [1, -2, 1], [2, -1, 1]]}


@st.composite
def stretched(draw, S):
    """cells that cover part of each other, in proportions of the quadratic field: one to three vertices of a cell
    are moved along the edges from a common vertex"""
    vs = draw(st.sampled_from(["simple", "free"]))
    if vs == "simple":
        n = 6 if S.k == 4 else 4
        idx = draw(st.lists(st.integers(0, n - 1), min_size=S.k - 1, max_size=S.k - 1, unique=True))
        z = [[0, 0, 1]] * 6
        a = [list(z)] + [[[int(i == j), 0, 1] for j in range(6)] for i in idx]
    else:
        a = draw(gen.cell(S, 1, (1,)))
    f = [S.F(*draw(st.sampled_from(FACT[S.name] + [[1, 0, 1]] * 8))) for _ in range(S.k - 1)]
    b = [a[0]] + [S.lin([S.F(1) - x, x], [a[0], v]) for x, v in zip(f, a[1:])]
    o1, o2 = ([a], [b]) if draw(st.booleans()) else ([b], [a])
    if draw(st.booleans()):
        o2 = gen.subdivide(S, o2[0], draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from([0, 1]), st.integers(0, 3),
                                                             st.integers(0, 3)), min_size=1, max_size=2)))
        keep = draw(st.lists(st.booleans(), min_size=len(o2), max_size=len(o2)))
        o2 = [c for c, k in zip(o2, keep) if k] or o2
    return [o1, o2]


for S, mod, q in ((gen.ICO, ti, 500), (gen.DODE, td, 1500)):
    def mk(S=S, mod=mod):
        return lambda case: run(S, mod, case)

    def mkn(S=S, mod=mod):
        return lambda case: near_case(S, lambda c: run(S, mod, c), case)
    P.sub(S.name + "_domains", gen.pair_objs(S, 2), quick=q, thorough=q * 12)(mk())
    P.sub(S.name + "_covered", covered(S), quick=q, thorough=q * 12)(mk())
    P.sub(S.name + "_stretched", stretched(S), quick=2 * q, thorough=q * 24)(mk())
    P.sub(S.name + "_elsewhere", gen.elsewhere(S, st.one_of(gen.pair_cells(S), gen.pair_objs(S, 1), stretched(S))), quick=q, thorough=q * 12)(mk())
    P.sub(S.name + "_near", gen.pair_near(S), quick=q, thorough=q * 12)(mkn())
    P.sub(S.name + "_cells", gen.pair_cells(S), quick=q, thorough=q * 12)(mk())
