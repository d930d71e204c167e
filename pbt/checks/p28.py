"""P28 the Cython packages intersect domains exactly"""
import itertools
import math
import numpy as np
from hypothesis import assume, strategies as st
from ..core import Property, expect
from ..field import vec
from ..util import pure
from .. import gen, region, geom as G
from ..gen import ICO, DODE
from .p24 import setup, mod

P = Property("P28", "Cython packages intersect domains exactly",
             rule="a case is non-trivial when the common part is neither empty nor one of the two domains",
             assumptions=["cells without volume in the result do not count",
                          "domains whose edges cross at parameters needing integers above 100 (dodecagonal) or 1000 (icosahedral; 30000 for two cells) are "
                          "not judged: the 64-bit integers of the packages overflow not far beyond"], setup=setup)

EDGES = list(itertools.combinations(range(4), 2))
FACES = list(itertools.combinations(range(4), 3))


def judge(S, r, a, b, what):
    return region.judge(S, [(a, b)], lambda: judge1(S, r, a, b, what))


def judge1(S, r, a, b, what):
    r = np.asarray(r)
    got = [] if r.size == 1 else [c for c in r.tolist() if S.meas(c)]
    ref, n = region.check_intersection(S, gen.arr(got) if got else None, a, b, what)
    if not ref:
        return "-empty"
    return "common" if ref < S.cells(a).measure() and ref < S.cells(b).measure() else "-contained"


def crossing_size(a, b):
    """largest integer in the crossing parameters of two edges"""
    m = 1
    pa = [[G.dode_perp(vec(DODE.F, v)) for v in t] for t in a]
    pb = [[G.dode_perp(vec(DODE.F, v)) for v in t] for t in b]
    for p in pa:
        for q in pb:
            for i in range(3):
                for j in range(3):
                    A, C = p[i], q[j]
                    AB, CD, AC = G.sub(p[(i + 1) % 3], A), G.sub(q[(j + 1) % 3], C), G.sub(C, A)
                    den = G.cross2(AB, CD)
                    if not den:
                        continue
                    s, t = G.cross2(AC, CD) / den, G.cross2(AC, AB) / den
                    if -1e-9 <= float(s) <= 1 + 1e-9 and -1e-9 <= float(t) <= 1 + 1e-9:
                        m = max([m] + [abs(x) for y in (s, t) for x in y.triple()])
    return m


LIMIT = 2 ** 48


class Steps:
    """(a + b sin 60)/c with integers multiplied out as the package does before it divides by the common factor; the package passes
    through floating-point numbers there, which are exact up to 2**53"""

    def __init__(self):
        self.top = 0

    def norm(self, a, b, c):
        self.top = max(self.top, abs(a), abs(b), abs(c))
        g = math.gcd(a, b, c) or 1
        if c < 0:
            g = -g
        return a // g, b // g, c // g

    def add(self, p, q, s=1):
        return self.norm(p[0] * q[2] + s * q[0] * p[2], p[1] * q[2] + s * q[1] * p[2], p[2] * q[2])

    def mul(self, p, q):
        return self.norm(4 * p[0] * q[0] + 3 * p[1] * q[1], 4 * (p[0] * q[1] + p[1] * q[0]), 4 * p[2] * q[2])

    def div(self, p, q):
        return self.norm(q[2] * (4 * p[0] * q[0] - 3 * p[1] * q[1]), -4 * q[2] * (p[0] * q[1] - p[1] * q[0]), p[2] * (4 * q[0] ** 2 - 3 * q[1] ** 2))

    def dot(self, u, v):
        t = (0, 0, 1)
        for x, y in zip(u, v):
            t = self.add(t, self.mul(x, y))
        return t


def strain(L1, L2):
    """largest integer met when the crossing of two segments is computed through scalar products"""
    w = Steps()
    ab, cd, ac = ([x.triple() for x in v] for v in (G.sub(L1[1], L1[0]), G.sub(L2[1], L2[0]), G.sub(L2[0], L1[0])))
    a, b, c, d, f = w.dot(ac, cd), w.dot(cd, ab), w.dot(cd, cd), w.dot(ac, ab), w.dot(ab, ab)
    den = w.add(w.mul(b, b), w.mul(f, c), -1)
    if not any(den[:2]):
        return w.top
    s = w.div(w.add(w.mul(a, b), w.mul(c, d), -1), den)
    t = w.div(w.add(w.mul(s, b), a, -1), c)
    for x, y, z in zip(ab, cd, ac):
        w.mul(*[w.add(w.add(z, w.mul(s, x), -1), w.mul(t, y))] * 2)
    return w.top


def strains(a, b):
    m = 0
    for p in (DODE.pts(t) for t in a):
        for q in (DODE.pts(t) for t in b):
            m = max([m] + [strain([p[i - 1], p[i]], [q[j - 1], q[j]]) for i in range(3) for j in range(3)])
    return m


def crossing_size3(a, b):
    """the same for edges and faces of tetrahedra"""
    m = 1
    pa = [[G.ico_perp(vec(ICO.F, v)) for v in t] for t in a]
    pb = [[G.ico_perp(vec(ICO.F, v)) for v in t] for t in b]
    for X, Y in ((pa, pb), (pb, pa)):
        for u in Y:
            for f in FACES:
                A = u[f[0]]
                n = G.cross(G.sub(u[f[1]], A), G.sub(u[f[2]], A))
                for t in X:
                    h = [G.dot(n, G.sub(v, A)) for v in t]
                    for i, j in EDGES:
                        den = h[i] - h[j]
                        if den:
                            s = h[i] / den
                            if -1e-9 <= float(s) <= 1 + 1e-9:
                                m = max([m] + [abs(x) for x in s.triple()])
    return m


def run_dode(case):
    a, b = case
    if crossing_size(a, b) > 100 or strains(a, b) > LIMIT:
        return "-not judged"
    r = pure(mod("dode.occupation_domain").intersection, gen.arr(a), gen.arr(b), 0)
    return judge(DODE, r, a, b, "dode.intersection")


def run_ico(case):
    a, b, how = case
    if crossing_size3(a, b) > (1000 if len(a) + len(b) > 2 or how > 1 else 30000):
        return "-not judged"
    T = mod("ico.two_occupation_domains")
    A, B = gen.arr(a), gen.arr(b)
    if how < 2:
        r = pure(T.intersection, A, B, how, 0)
    elif how == 2:
        r = pure(T.intersection_2, A, B, 0)
    else:
        r = pure(T.intersection_3, A, B, 0)
    return judge(ICO, r, a, b, "ico intersection, kind %d" % how)


def with_kind(s):
    return st.tuples(s, st.integers(0, 3)).map(lambda t: [t[0][0], t[0][1], t[1]])


@st.composite
def near_pair(draw, S, big=False):
    """two cells with vertices at dyadic positions of one frame, so that many edges cross at small fractions; big: the second may be much larger"""
    a = draw(gen.cell(S, 2, (1,)))
    n = S.k
    out = []
    W = [0, 0, 0, 1, 2, 4, -1, -2]
    for k in range(2):
        t = []
        w4 = st.sampled_from(W + [20, -20, 40, 40] if k and big else W)
        for i in range(n):
            w = [S.F(x, 0, 4) for x in draw(st.lists(w4, min_size=n - 1, max_size=n - 1))]
            t.append(S.lin([S.F(1) - sum(w[1:], w[0])] + w, a))
        assume(abs(float(S.meas(t))) > 0.02)
        out.append([t])
    return out if draw(st.booleans()) else out[::-1]


P.sub("dode_near", near_pair(DODE), quick=800, thorough=15000)(run_dode)
P.sub("dode_big", near_pair(DODE, True), quick=1500, thorough=15000)(run_dode)
P.sub("ico_big", with_kind(near_pair(ICO, True)), quick=300, thorough=5000)(run_ico)
P.sub("ico_near", with_kind(near_pair(ICO)), quick=700, thorough=10000)(run_ico)
P.sub("dode_cells", gen.pair_cells(DODE), quick=1600, thorough=30000)(run_dode)
P.sub("dode_lattice_cells", gen.pair_cells(DODE, 1, (1,)), quick=800, thorough=10000)(run_dode)
P.sub("dode_objects", gen.pair_objs(DODE), quick=500, thorough=8000)(run_dode)
P.sub("ico_cells", with_kind(gen.pair_cells(ICO)), quick=480, thorough=6000)(run_ico)
P.sub("ico_objects", with_kind(gen.pair_objs(ICO)), quick=80, thorough=1200)(run_ico)
