"""P12 an intersection depends on the two regions only"""
from ..core import Property, expect
from ..util import pure, obj_shape, fresh
from ..region import check_intersection, judge
from .. import gen, sym
from ..field import vec
from hypothesis import strategies as st
import math
import random
import numpy as np

import pyqcstrc.ico2.two_occupation_domains as ti
import pyqcstrc.dode2.two_occupation_domains as td
import pyqcstrc.ico2.occupation_domain as oi
import pyqcstrc.dode2.occupation_domain as odd

P = Property("P12", "Intersection: invariances and histories",
             rule="a case is non-trivial when the exact common part has positive measure",
             assumptions=["domains are sets of interior-disjoint cells"])
A = gen.arr

# 6D vectors whose perp-space component is zero (the second one in each list differs only by that)
NULL = {"ico2": [[[1, 0, 1], [0, 1, 1], [0, 1, 1], [0, 0, 1], [-1, 0, 1], [0, 0, 1]],
                 [[0, 1, 1], [0, 0, 1], [0, 0, 1], [1, 0, 1], [0, 1, 1], [1, 0, 1]],
                 [[0, 0, 1], [1, 0, 1], [-1, 0, 1], [0, -1, 1], [0, 0, 1], [0, 1, 1]]],
        "dode2": [[[0, 0, 1], [0, 0, 1], [0, 0, 1], [0, 0, 1], [1, 0, 1], [0, 0, 1]],
                  [[1, 0, 1], [0, 1, 1], [1, 0, 2], [0, 0, 1], [0, 0, 1], [0, 0, 1]],
                  [[0, 0, 1], [1, 0, 2], [0, 1, 1], [1, 0, 1], [0, 0, 1], [0, 0, 1]]]}


def rewrite(draw, S, o):
    """the same region, written differently"""
    o = list(draw(st.permutations(o)))
    out = []
    for c in o:
        c = list(draw(st.permutations(c)))
        d = []
        for v in c:
            k = draw(st.integers(0, 3))
            if k == 1:                      # not in lowest terms
                f = draw(st.integers(2, 4))
                v = [[x * f for x in t] for t in v]
            elif k == 2:                    # other parallel-space component
                n = NULL[S.name][draw(st.integers(0, 2))]
                v = S.lin([S.F(1), S.F(draw(st.sampled_from([1, -1])))], [v, n])
            d.append(v)
        out.append(d)
    return out


@st.composite
def rewritten(draw, S):
    o1, o2 = draw(st.one_of(gen.pair_objs(S, 2), gen.pair_cells(S)))
    return [o1, o2, rewrite(draw, S, o1), rewrite(draw, S, o2), draw(st.booleans()), draw(st.integers(0, 10 ** 6))]


def run_rewritten(S, mod, case):
    o1, o2, q1, q2, swap, seed = case
    ref = S.cells(o1).common(S.cells(o2))
    # whatever other code did with the random number generators
    random.seed(seed)
    np.random.seed(seed % 2 ** 31)
    a, b = (q2, q1) if swap else (q1, q2)
    r = pure(mod.intersection, A(a), A(b))
    check_intersection(S, r, o1, o2, S.name + " intersection of rewritten domains", ref=ref)
    r2 = pure(mod.intersection, A(a), A(b))
    x, y = obj_shape(r, S.k, "first call"), obj_shape(r2, S.k, "second call")
    expect(S.cells(x).measure() == S.cells(y).measure() if x and y else (not x and not y),
           "%s: a second call with the same domains gives another region", S.name)
    return "swapped" if ref and swap else ("rewritten" if ref else "-disjoint")


@st.composite
def moved(draw, S):
    o1, o2 = draw(st.one_of(gen.pair_objs(S, 1), gen.pair_cells(S)))
    g = sorted(sym.group(S))
    m = draw(st.integers(0, len(g) - 1))
    t = draw(st.one_of(S.vs(3, (1, 2)), S.vs(100, (1, 2))))
    return [o1, o2, m, t]


def run_moved(S, mod, omod, case):
    """g(A)+t ∩ g(B)+t = g(A∩B)+t"""
    o1, o2, m, t = case
    g = sorted(sym.group(S))[m]

    def mv(o):
        return [[S.lin([S.F(1), S.F(1)], [[list(x.triple()) for x in sym.apply(g, vec(S.F, v), S.F)], t]) for v in c]
                for c in o]
    ref = S.cells(o1).common(S.cells(o2))
    r = pure(mod.intersection, A(mv(o1)), A(mv(o2)))
    check_intersection(S, r, mv(o1), mv(o2), S.name + " intersection of moved domains", ref=ref)
    # and moved with the library's own shift
    s1, s2 = pure(omod.shift, A(o1), A(t)), pure(omod.shift, A(o2), A(t))
    r = pure(mod.intersection, s1, s2)
    check_intersection(S, r, s1.tolist(), s2.tolist(), S.name + " intersection of shifted domains", ref=ref)
    return "moved" if ref else "-disjoint"


@st.composite
def repeated(draw, S):
    """the same two domains at several places in turn; many places agree in the sums of their coordinates"""
    o1, o2 = draw(st.one_of(gen.pair_objs(S, 1), gen.pair_cells(S)))
    n = len(sym.group(S))
    steps = []
    f = 1
    if draw(st.booleans()):                    # whole numbers
        f = math.lcm(*[t[2] for o in (o1, o2) for c in o for v in c for t in v])
        o1, o2 = ([[S.lin([S.F(f)], [v]) for v in c] for c in o] for o in (o1, o2))
    for _ in range(draw(st.integers(2, 4))):
        t = [f * x for x in draw(st.lists(st.integers(-3, 3), min_size=6, max_size=6))]
        if S is gen.DODE:
            t[4:] = [0, 0]
        if draw(st.integers(0, 3)):
            t[draw(st.integers(0, 3))] -= sum(t)
        steps.append([draw(st.integers(0, n - 1)) if draw(st.booleans()) else -1, [[x, 0, 1] for x in t], draw(st.booleans()),
                      draw(st.booleans())])
    return [o1, o2, steps]


def run_repeated(S, mod, case):
    o1, o2, steps = case
    mod = fresh(mod)
    ops = sorted(sym.group(S))
    ref = S.cells(o1).common(S.cells(o2))
    a1, a2 = A(o1), A(o2)
    for i, (m, t, same, swap) in enumerate([[-1, [[0, 0, 1]] * 6, False, False]] + steps):
        def mv(o):
            if m >= 0:
                o = [[[list(x.triple()) for x in sym.apply(ops[m], vec(S.F, v), S.F)] for v in c] for c in o]
            return [[S.lin([S.F(1), S.F(1)], [v, t]) for v in c] for c in o]
        m1, m2 = mv(o1), mv(o2)
        if same:                               # new contents in the arrays of the call before
            a1[...], a2[...] = m1, m2
        else:
            a1, a2 = A(m1), A(m2)
        r = pure(mod.intersection, *((a2, a1) if swap else (a1, a2)))
        check_intersection(S, r, m1, m2, "%s intersection at the %dth place in turn" % (S.name, i + 1), ref=ref)
    return "places" if ref else "-disjoint"


@st.composite
def history(draw, S):
    """a sequence of domains intersected one after another"""
    n = draw(st.integers(3, 4))
    if S is gen.ICO:
        base = st.lists(st.sampled_from(gen.ICO_VERTS[:8]), min_size=4, max_size=4, unique_by=str).filter(
            lambda c: float(S.meas(c)) > 1e-2)
    else:
        base = gen.cell(S, 1, (1,))
    out = [[draw(base)] for _ in range(n)]
    for o in out[1:]:
        if draw(st.booleans()):
            i, j = draw(st.integers(0, S.k - 1)), draw(st.integers(0, S.k - 1))
            o[0] = [S.lin([S.F(1), S.F(1), S.F(-1)], [v, out[0][0][i], o[0][j]]) for v in o[0]]
    return out


def run_history(S, mod, case):
    cur = case[0]
    depth = 0
    mod = fresh(mod)
    for o in case[1:]:
        def step():
            r = pure(mod.intersection, A(cur), A(o))
            return (r,) + check_intersection(S, r, cur, o, "%s intersection no. %d of a sequence" % (S.name, depth + 1))
        got = judge(S, [(cur, o)], step)
        if isinstance(got, str):
            return got
        r, ref, n = got
        if not ref or n > 12:
            break
        if r is not None and max(abs(x) for x in np.asarray(r).ravel().tolist()) > 2000:
            break
        cur = obj_shape(r, S.k, "intersection")
        depth += 1
    return "-disjoint" if depth == 0 else "depth %d" % depth


for S, mod, om, q in ((gen.ICO, ti, oi, 500), (gen.DODE, td, odd, 1500)):
    def mk(f, *a):
        return lambda case: f(*a, case)

    def mj(f, S, *a):
        return lambda case: judge(S, [case[:2]], lambda: f(S, *a, case))
    P.sub(S.name + "_rewritten", rewritten(S), quick=q, thorough=q * 12)(mj(run_rewritten, S, mod))
    P.sub(S.name + "_moved", moved(S), quick=q, thorough=q * 12)(mj(run_moved, S, mod, om))
    P.sub(S.name + "_repeated", repeated(S), quick=q // 2, thorough=q * 6)(mj(run_repeated, S, mod))
    P.sub(S.name + "_history", history(S), quick=q, thorough=q * 12)(mk(run_history, S, mod))
