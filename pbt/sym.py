"""Reference point groups, found from geometry alone.

icosahedral: all signed permutation matrices of the six basis vectors that keep the
length of every projected vector in both spaces (there are 120);
dodecagonal: multiplication of Z[zeta12] by the 12 roots of unity, with and without
complex conjugation (24), acting on the first four coordinates only.
"""
import functools
import itertools
from .field import Tau, Sin
from . import geom as G


def _gram(par, F):
    es = []
    for i in range(6):
        e = [F(0)] * 6
        e[i] = F(1)
        es.append(par(tuple(e)))
    return [[G.dot(a, b) for b in es] for a in es]


@functools.lru_cache(None)
def ico_group():
    """set of 6x6 integer matrices (tuples of rows, acting on column coordinate vectors)"""
    ga, gb = _gram(G.ico_par, Tau), _gram(G.ico_perp, Tau)
    out = set()

    def rec(img):
        k = len(img)
        if k == 6:
            m = [[0] * 6 for _ in range(6)]
            for j, (i, s) in enumerate(img):
                m[i][j] = s
            out.add(tuple(map(tuple, m)))
            return
        used = {i for i, _ in img}
        for i in range(6):
            if i in used:
                continue
            for s in (1, -1):
                ok = True
                for j, (p, sp) in enumerate(img):
                    if ga[i][p] * (s * sp) != ga[k][j] or gb[i][p] * (s * sp) != gb[k][j]:
                        ok = False
                        break
                if ok:
                    rec(img + [(i, s)])
    rec([])
    assert len(out) == 120
    return frozenset(out)


@functools.lru_cache(None)
def dode_group():
    """4D lattice vectors n0..n3 <-> isometries preserving the length in both planes"""
    # basis images are found among the 12 shortest vectors (equal length in both planes)
    par4 = lambda v: G.dode_par(tuple(Sin(x) for x in v) + (Sin(0), Sin(0)))[:2]
    perp4 = lambda v: G.dode_perp(tuple(Sin(x) for x in v) + (Sin(0), Sin(0)))[:2]
    dot = G.dot
    L = []
    for v in itertools.product((-1, 0, 1), repeat=4):
        if dot(par4(v), par4(v)) == 1 and dot(perp4(v), perp4(v)) == 1:
            L.append(v)
    assert len(L) == 12
    e = [tuple(int(i == j) for j in range(4)) for i in range(4)]
    out = set()
    for img in itertools.product(L, repeat=4):
        if all(dot(par4(img[i]), par4(img[j])) == dot(par4(e[i]), par4(e[j])) and
               dot(perp4(img[i]), perp4(img[j])) == dot(perp4(e[i]), perp4(e[j]))
               for i in range(4) for j in range(i)):
            m = [[0] * 6 for _ in range(6)]
            for j in range(4):
                for i in range(4):
                    m[i][j] = img[j][i]
            m[4][4] = m[5][5] = 1
            out.add(tuple(map(tuple, m)))
    assert len(out) == 24
    return frozenset(out)


def group(S):
    return ico_group() if S.name == "ico2" else dode_group()


def apply(m, v, F):
    """integer matrix on a vector of field numbers"""
    out = []
    for row in m:
        r = F(0)
        for a, x in zip(row, v):
            if a:
                r = r + x * a
        out.append(r)
    return tuple(out)


def act(m, v, c, F):
    return G.add(apply(m, G.sub(v, c), F), c)


@functools.lru_cache(None)
def mirrors(name):
    """operations that change only the signs of internal-space coordinates: a vector and its image agree in the others"""
    from . import gen
    S = gen.ICO if name == "ico2" else gen.DODE
    out = []
    for m in sorted(group(S)):
        sg = []
        for i in range(4 if S is gen.DODE else 6):
            e = [S.F(int(i == j)) for j in range(6)]
            a, b = S._perp(tuple(e)), S._perp(apply(m, e, S.F))
            sg.append([1 if x == y else -1 if x == S.F(0) - y else 0 for x, y in zip(a, b)])
        if all(0 not in r for r in sg):
            out.append(m)
    return out


def mirrored(S, v, k):
    from .field import vec
    ms = mirrors(S.name)
    return [list(x.triple()) for x in apply(ms[k % len(ms)], vec(S.F, v), S.F)]
