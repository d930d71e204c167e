"""P20 filling the hull of points with cells"""
import numpy as np
from hypothesis import strategies as st
from ..core import Property, expect
from ..util import pure, obj_shape
from ..region import check_cells
from .. import gen, geom as G
from .p19 import point_near
from .p17 import hull_measure

import pyqcstrc.ico2.utils as ui
import pyqcstrc.dode2.utils as ud

P = Property("P20", "Division of a hull into cells",
             rule="a case is non-trivial when there are more points than a cell has and their hull has positive measure",
             assumptions=["points are distinct in internal space", "sets flatter than 1e-3 but not flat are not judged"])
A = gen.arr


@st.composite
def points(draw, S):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        l = draw(st.lists(S.vs(2, (1, 2)), min_size=S.k, max_size=9))
    else:
        c = draw(gen.cell(S, 2, (1, 2)))
        l = list(c) if kind < 3 else c[:3] if S.k == 4 else c[:2]
        for _ in range(draw(st.integers(0 if kind < 3 else 2, 6))):
            q = draw(st.integers(0, 3))
            if kind < 3 and q == 0:       # the fourth corner of a parallelogram: points on one circle or sphere
                i, j, k = (draw(st.integers(0, len(l) - 1)) for _ in range(3))
                l.append(S.lin([S.F(1), S.F(1), S.F(-1)], [l[i], l[j], l[k]]))
            elif q == 1:                  # close to an earlier one
                e = S.F(*draw(st.sampled_from(gen.FINE[S.name])))
                i, j = draw(st.integers(0, len(l) - 1)), draw(st.integers(0, len(l) - 1))
                l.append(S.lin([S.F(1) - e, e], [l[i], l[j]]))
            else:
                l.append(draw(point_near(S, l[:S.k])))
    l = draw(gen.crowd(st.just(l), sizes=(14, 20, 30), odds=60))
    seen, out = set(), []
    for v in l:
        p = S.perp(v)
        if p not in seen:
            seen.add(p)
            out.append(S.lin([S.F(1)], [v]))
    return list(draw(st.permutations(draw(gen.placed(S, st.just([out])))[0])))


def run(S, u, l):
    pts = S.pts(l)
    if len(pts) < S.k:
        return "-too few"
    h = hull_measure(S, pts)
    if h and float(h) < 1e-3:
        return "-nearly flat"
    f = u.tetrahedralization_points if S is gen.ICO else u.triangulation_points
    w = S.name + " division of a hull"
    r = obj_shape(pure(f, A(l)), S.k, w)
    if not h:
        expect(not r, "%s: %d cells for points in a flat set", w, len(r))
        return "flat"
    R = check_cells(S, r, w)
    expect(R.measure() == h, "%s: the cells measure %s, the hull %s", w, float(R.measure()), float(h))
    vs = {str(v) for v in l}
    expect(all(str(v) in vs for c in r for v in c), "%s: a vertex is none of the points", w)
    return "cells" if len(l) > S.k else "-one cell"


for S, u, q in ((gen.ICO, ui, 3000), (gen.DODE, ud, 4000)):
    def mk(S=S, u=u):
        return lambda case: run(S, u, case)
    P.sub(S.name, points(S), quick=q, thorough=q * 15)(mk())
