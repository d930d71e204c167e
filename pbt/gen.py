"""Strategies.  Every case is a nested list of ints/strings (JSON-able)."""
from hypothesis import strategies as st, assume
import numpy as np
from .field import Tau, Sin, vec
from . import geom as G

I64 = np.int64


def arr(x):
    try:
        return np.array(x, dtype=np.int64)
    except OverflowError:
        return np.array(x, dtype=object)


# --- scalars -----------------------------------------------------------------

def triple(maxa=6, maxb=6, maxc=6):
    return st.tuples(st.integers(-maxa, maxa), st.integers(-maxb, maxb), st.integers(1, maxc)).map(list)


def scalar(big=10 ** 4):
    """numbers in every regime, not reduced, denominator of either sign"""
    small = st.tuples(st.integers(-4, 4), st.integers(-4, 4), st.sampled_from([1, 1, 2, 3, 4, 6, -1, -2]))
    mid = st.tuples(st.integers(-60, 60), st.integers(-60, 60), st.integers(1, 60))
    large = st.tuples(st.integers(-big, big), st.integers(-big, big), st.integers(1, big))
    return st.one_of(small, mid, large).map(list)


# --- 6D vectors --------------------------------------------------------------

def comp(maxa=2, dens=(1, 1, 2), unred=False):
    """mostly integers, some half-integers, some with an irrational part"""
    b = st.sampled_from([0, 0, 0, 0, 0, 1, -1])
    base = st.tuples(st.integers(-maxa, maxa), b, st.sampled_from(dens)).map(list)
    return base


def vec6(maxa=2, dens=(1, 1, 2)):
    return st.lists(comp(maxa, dens), min_size=6, max_size=6)


def vec6d(maxa=2, dens=(1, 1, 2)):
    """dodecagonal: the sixth coordinate (third internal dimension) is 0"""
    return st.lists(comp(maxa, dens), min_size=4, max_size=4).flatmap(
        lambda v: st.integers(-1, 1).map(lambda z: v + [[z, 0, 1], [0, 0, 1]]))


def wide_vec(n, big=40):
    return st.lists(st.tuples(st.integers(-big, big), st.integers(-big, big), st.integers(1, 12)).map(list),
                    min_size=n, max_size=n)


class Sys:
    """one of the two coordinate systems"""

    def __init__(self, name, F, perp, par, k, vs):
        self.name = name
        self.F = F
        self._perp, self._par = perp, par
        self.k = k                        # vertices per cell
        self.vs = vs                      # strategy factory for a 6D vector

    def v(self, v):
        return vec(self.F, v)

    def perp(self, v):
        p = self._perp(vec(self.F, v))
        return p if self.k == 4 else p[:2]

    def perp3(self, v):
        return self._perp(vec(self.F, v))

    def par(self, v):
        return self._par(vec(self.F, v))

    def pts(self, vs):
        return [self.perp(v) for v in vs]

    def meas(self, cell):
        p = self.pts(cell)
        return G.tet_vol(p) if self.k == 4 else G.tri_area2d(p)

    def cells(self, obj):
        return G.Cells(self.F, [self.pts(c) for c in obj])

    def lin(self, cs, vs):
        """exact affine combination of 6D vectors -> list of triples; cs are field numbers"""
        out = []
        for i in range(6):
            r = self.F(0)
            for c, v in zip(cs, vs):
                r = r + c * self.F(*[int(x) for x in v[i]])
            out.append(list(r.triple()))
        return out


def _ov(v):
    return v


ICO = Sys("ico2", Tau, G.ico_perp, G.ico_par, 4, vec6)
DODE = Sys("dode2", Sin, G.dode_perp, G.dode_par, 3, vec6d)

# vertices that occur in published occupation domains (icosahedral)
ICO_VERTS = [
    [[1, 0, 2], [0, 0, 1], [0, 0, 1], [0, 0, 1], [0, 0, 1], [0, 0, 1]],
    [[0, 0, 1]] * 6,
    [[2, -1, 2], [-2, 1, 2], [-2, 1, 2], [8, -5, 2], [-2, 1, 2], [8, -5, 2]],
    [[2, -1, 2], [-2, 1, 2], [-2, 1, 2], [0, 0, 1], [-2, 1, 2], [0, 0, 1]],
    [[2, -1, 2], [-2, 1, 2], [-2, 1, 2], [2, -1, 2], [-2, 1, 2], [-2, 1, 2]],
    [[0, 1, 2], [2, -1, 2], [2, -1, 2], [2, -1, 2], [2, -1, 2], [2, -1, 2]],
    [[2, -1, 2], [-2, 1, 2], [-2, 1, 2], [-8, 5, 2], [-2, 1, 2], [-2, 1, 2]],
    [[1, 0, 2], [-1, 0, 2], [-1, 0, 2], [-1, 0, 2], [-1, 0, 2], [-1, 0, 2]],
    [[1, 0, 2], [-1, 0, 2], [-1, 0, 2], [1, 0, 2], [-1, 0, 2], [-1, 0, 2]],
    [[1, 0, 2], [-1, 0, 2], [-1, 0, 2], [0, 0, 2], [-1, 0, 2], [0, 0, 2]],
]
# asymmetric unit of the rhombic triacontahedron
RT_ASYM = [ICO_VERTS[1], ICO_VERTS[7], ICO_VERTS[8], ICO_VERTS[9]]


def cell(S, maxa=2, dens=(1, 1, 2), minmeas=0.02):
    def ok(c):
        return abs(float(S.meas(c))) > minmeas
    return st.lists(S.vs(maxa, dens), min_size=S.k, max_size=S.k).filter(ok)


def od_cell(S):
    """cells built from published vertices, moved by small lattice vectors"""
    if S is ICO:
        return st.lists(st.sampled_from(ICO_VERTS), min_size=4, max_size=4, unique_by=str).filter(
            lambda c: float(S.meas(c)) > 1e-3)
    return cell(S, 1, (1, 2))


FINE = {"ico2": [[5, -3, 1], [13, -8, 1], [34, -21, 1]], "dode2": [[2, -2, 1], [7, -8, 1], [26, -30, 1]]}


def subdivide(S, c, ops):
    """stellar subdivision of a simplex; ops = list of (cell index, kind, i, j)"""
    cells_ = [c]
    half = S.F(1, 0, 2)
    for idx, kind, i, j in ops:
        idx %= len(cells_)
        t = cells_[idx]
        n = S.k
        i %= n
        j %= n
        if kind != 1:                       # edge midpoint, or (kind 2..) a point close to an end
            if i == j:
                j = (i + 1) % n
            w = half if kind == 0 else S.F(*FINE[S.name][kind - 2])
            m = S.lin([S.F(1) - w, w], [t[i], t[j]])
            # every cell having this very edge must be split to stay conforming
            new = []
            for u in cells_:
                ku = [str(x) for x in u]
                if str(t[i]) in ku and str(t[j]) in ku:
                    a, b = ku.index(str(t[i])), ku.index(str(t[j]))
                    u1, u2 = list(u), list(u)
                    u1[a] = m
                    u2[b] = m
                    new += [u1, u2]
                else:
                    new.append(u)
            cells_ = new
        else:                               # interior point (centroid): splits into k cells
            w = S.F(1, 0, n)
            m = S.lin([w] * n, t)
            new = []
            for q in range(n):
                u = list(t)
                u[q] = m
                new.append(u)
            cells_ = cells_[:idx] + new + cells_[idx + 1:]
    return cells_


@st.composite
def convex_obj(draw, S, maxops=2, base=None, fine=False):
    """fine: some of the cells are thin"""
    c = draw(base if base is not None else cell(S))
    ops = draw(st.lists(st.tuples(st.integers(0, 7), st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4] if fine and draw(st.booleans()) else [0, 0, 1]), st.integers(0, 3), st.integers(0, 3)),
                        min_size=0, max_size=maxops))
    return subdivide(S, c, ops)


@st.composite
def any_obj(draw, S, maxops=2, base=None, fine=False):
    """interior-disjoint cells; possibly non-convex, possibly disconnected"""
    o = draw(convex_obj(S, maxops, base, fine))
    if len(o) > 1:
        keep = draw(st.lists(st.booleans(), min_size=len(o), max_size=len(o)))
        o2 = [c for c, k in zip(o, keep) if k]
        if o2:
            o = o2
    return o


# --- related pairs -----------------------------------------------------------

BARY = [[0, 0, 1], [0, 0, 1], [1, 0, 1], [1, 0, 2], [-1, 0, 1], [2, 0, 1]]


@st.composite
def related_cell(draw, S, c, bary=None, minmeas=0.02):
    """a cell whose vertices are affine combinations of the vertices of c: vertices on faces,
    edges, extensions of edges, collinear and coplanar arrangements"""
    bary = bary or BARY
    out = []
    n = S.k
    for _ in range(n):
        kind = draw(st.integers(0, 3))
        if kind == 0:
            out.append(c[draw(st.integers(0, n - 1))])
            continue
        if kind == 1:
            i = draw(st.integers(0, n - 1))
            j = draw(st.integers(0, n - 1))
            w = S.F(*draw(st.sampled_from([[1, 0, 2], [-1, 0, 1], [2, 0, 1], [-1, 0, 2], [3, 0, 2]])))
            out.append(S.lin([S.F(1) - w, w], [c[i], c[j]]))
            continue
        if kind == 2:
            i, j, k = (draw(st.integers(0, n - 1)) for _ in range(3))
            a = S.F(*draw(st.sampled_from([[1, 0, 2], [1, 0, 1], [-1, 0, 1]])))
            b = S.F(*draw(st.sampled_from([[1, 0, 2], [1, 0, 1], [-1, 0, 2]])))
            out.append(S.lin([S.F(1) - a - b, a, b], [c[i], c[j], c[k]]))
            continue
        out.append(draw(S.vs(2, (1, 1, 2))))
    assume(abs(float(S.meas(out))) > minmeas)
    return out


@st.composite
def pair_cells(draw, S, maxa=2, dens=(1, 1, 2)):
    a = draw(cell(S, maxa, dens))
    kind = draw(st.integers(0, 5))
    if kind == 0:
        b = draw(cell(S, maxa, dens))
    elif kind == 1:                    # shared vertices
        b = draw(cell(S, maxa, dens))
        m = draw(st.integers(1, S.k - 1))
        b = a[:m] + b[m:]
        assume(abs(float(S.meas(b))) > 0.02)
    elif kind == 2:                    # same cell, reordered
        b = draw(st.permutations(a))
    else:
        b = draw(related_cell(S, a))
    b = list(draw(st.permutations(b)))
    return [[a], [b]]


@st.composite
def pair_objs(draw, S, maxops=2, dens=(1,), fine=False):
    """two many-celled domains that overlap in many ways"""
    a = draw(cell(S, 2, dens))
    o1 = draw(any_obj(S, maxops, st.just(a), fine))
    kind = draw(st.integers(0, 3))
    if kind == 0:
        o2 = draw(any_obj(S, maxops, cell(S, 2, dens), fine))
    elif kind == 1:
        o2 = draw(any_obj(S, maxops, st.just(a), fine))     # two subdivisions of the same cell
    elif kind == 2:
        o2 = draw(any_obj(S, maxops, related_cell(S, a), fine))
    else:
        o2 = o1 if len(o1) < 2 else o1[1:] + o1[:1]
        if draw(st.booleans()):
            o2 = [list(draw(st.permutations(c))) for c in o2]
    return [o1, o2]


# small numbers of the field: tau^-k and (2-sqrt(3))^k
SMALL = {"ico2": [[5, -3, 1], [-8, 5, 1], [13, -8, 1], [-21, 13, 1], [34, -21, 1], [-55, 34, 1], [89, -55, 1]],
         "dode2": [[2, -2, 1], [7, -8, 1], [26, -30, 1], [97, -112, 1]]}


def _tiny(name):
    """units of the field, down to 5e-8: both a+b*w"""
    out, a, b = [], 1, 0
    for _ in range(35 if name == "ico2" else 13):
        if name == "ico2":
            a, b = b - a, a                      # times 1/tau = tau-1:  (a+b*t)(t-1) = (b-a) + a*t
        else:
            a, b = 2 * a - 3 * b // 2, 2 * b - 2 * a    # times 2-sqrt(3), with w=sqrt(3)/2
        out.append([a, b, 1])
    return out


TINY = {n: _tiny(n) for n in ("ico2", "dode2")}
NEAR = {"ico2": 4, "dode2": 4}


@st.composite
def near_cell(draw, S, b, level=None):
    """cell b with some vertices moved a little (by 0.005 to 0.3); the exact intersections of finer ones do not fit in 64 bits
    or come near the tolerance of the library"""
    eps = SMALL[S.name][:NEAR[S.name]] if level is None else SMALL[S.name][level:level + 1]
    out = [list(v) for v in b]
    idx = draw(st.lists(st.integers(0, S.k - 1), min_size=1, max_size=S.k, unique=True))
    for i in idx:
        e = S.F(*draw(st.sampled_from(eps)))
        d = draw(st.lists(st.sampled_from([0, 0, 1, -1]), min_size=6, max_size=6))
        if S.k == 3:
            d[5] = 0
        out[i] = S.lin([S.F(1), e], [out[i], [[x, 0, 1] for x in d]])
    assume(abs(float(S.meas(out))) > 0.02)
    return out


@st.composite
def pair_near(draw, S, level=None):
    """two cells that nearly share vertices, edges or faces"""
    a = draw(cell(S, 2, (1, 1, 2)))
    k = draw(st.integers(0, 2))
    b = a
    if k == 1:
        m = draw(st.integers(1, S.k - 1))
        b = a[:m] + draw(cell(S, 2, (1, 1, 2)))[m:]
    elif k == 2:
        b = draw(related_cell(S, a))
    b = draw(near_cell(S, b, level))
    return [[a], [list(draw(st.permutations(b)))]]


# --- the same pair elsewhere and at another size -------------------------------------

FACTORS = {"ico2": [[5, -3, 1], [2, -1, 1], [-1, 1, 1], [1, 0, 1], [0, 1, 1], [1, 1, 1], [3, 0, 1], [7, 0, 2], [1, 0, 5]],
           "dode2": [[7, -8, 1], [2, -2, 1], [-1, 2, 1], [1, 0, 1], [0, 2, 1], [2, 2, 1], [3, 0, 1], [7, 0, 2], [1, 0, 5]]}


@st.composite
def placing(draw, S):
    """(factor, vector): enlarged or reduced, and moved by a vector that may be long"""
    f = draw(st.sampled_from(FACTORS[S.name]))
    big = draw(st.sampled_from([0, 3, 20, 100]))
    t = [[draw(st.integers(-big, big)), draw(st.sampled_from([0, 0, 1, -1])), draw(st.sampled_from([1, 1, 2]))] for _ in range(6)]
    if S is DODE:
        t[5] = [0, 0, 1]
    return f, t


def place(S, o, ft):
    f, t = ft
    return [[S.lin([S.F(*f), S.F(1)], [v, t]) for v in c] for c in o]


@st.composite
def elsewhere(draw, S, pair):
    """a pair of domains (or several), all enlarged or reduced by one factor and moved by one vector"""
    os = draw(pair)
    ft = draw(placing(S))
    return [place(S, o, ft) for o in os]


@st.composite
def placed(draw, S, obj):
    """one domain, half of the time elsewhere and of another size"""
    o = draw(obj)
    return place(S, o, draw(placing(S))) if draw(st.booleans()) else o


# --- long lists ---------------------------------------------------------------

def moved_on(x, j):
    """item (vector, cell, ...) moved by the j-th of many whole vectors"""
    if isinstance(x[0][0], list):
        return [moved_on(y, j) for y in x]
    d = [j % 5, j // 5 % 5, j // 25 % 5, j // 125 % 5, 0, 0]
    return [[t[0] + k * t[2], t[1], t[2]] for t, k in zip(x, d)]


@st.composite
def crowd(draw, items, sizes=(17, 33, 70, 130, 260), odds=25):
    """a list of items, now and then a long one"""
    l = draw(items)
    if draw(st.integers(0, odds - 1)) == odds - 1:
        n = draw(st.sampled_from(sizes))
        l = [moved_on(l[i % len(l)], i // len(l)) for i in range(n)]
    return l
