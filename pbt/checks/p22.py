"""P22 site symmetry and coset representatives (dodecagonal)"""
import contextlib
import io
import itertools
import math
import numpy as np
from hypothesis import strategies as st
from ..core import Property, expect, need, sut
from ..field import vec
from ..util import pure
from .. import gen, sym, geom as G

import pyqcstrc.dode2.symmetry as dsy

P = Property("P22", "Site symmetry and equivalent sites are complete",
             rule="a case is non-trivial when the site symmetry is more than the identity",
             assumptions=["the site lies in the unit cell, coordinates at least 0 and below 1",
                          "coordinates with denominators up to 12 (rational) or half sums of numbers up to 4/4",
                          "a site is exactly on a symmetry element or off it by more than 1e-5 (the library decides with 1e-6)"])
S, F, A = gen.DODE, gen.DODE.F, gen.arr


def frac(x):
    n = math.floor(float(x) + 1e-9)
    y = x - n
    while y.sign() < 0:
        y = y + 1
    while (y - 1).sign() >= 0:
        y = y - 1
    return y


@st.composite
def site(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        d = draw(st.sampled_from((2, 3, 2, 3, 4, 6, 12)))
        x = [F(draw(st.integers(0, d - 1)), 0, d) for _ in range(4)]
    elif kind == 1:
        x = [F(*draw(gen.triple(4, 4, 4))) for _ in range(4)]
    else:                        # a position on a mirror line or about a two-fold point
        inv = sorted(m for m in sym.dode_group() if all(
            sum(m[i][k] * m[k][j] for k in range(4)) == int(i == j) for i in range(4) for j in range(4)))
        g = draw(st.sampled_from(inv))
        p = tuple(F(*draw(gen.triple(4, 4, 4))) for _ in range(4)) + (F(0), F(0))
        q = G.add(p, sym.apply(g, p, F))
        t = [draw(st.integers(0, 1)) for _ in range(4)] if kind == 3 else [0] * 4
        x = [(q[i] + F(t[i])) / F(2) for i in range(4)]
    if draw(st.integers(0, 4)) == 0:                 # a little off a special position
        e = F(*draw(st.sampled_from(gen.TINY["dode2"][:8])))
        i = draw(st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True))
        x = [c + e if j in i else c for j, c in enumerate(x)]
    z = [F(draw(st.integers(0, 3)), 0, 4), F(0)]
    return [list(frac(c).triple()) for c in x + z]


def ints(d):
    return all(x.b == 0 and x.d == 1 for x in d)


def case_st():
    return st.tuples(site(), st.sampled_from((4, 4, 5)), st.sampled_from((0, 0, 1))).map(list)


HALVES = [[[[x, 0, d] for x in t] + [[0, 0, 1]] * 2, 4, 0] for d in (2, 3) for t in itertools.product(range(d), repeat=4)]


def run(case):
    s, nd, verbose = case
    v = vec(F, s)
    raw = [tuple(tuple(int(x) for x in row) for row in m) for m in sut(dsy.dodesymop)]
    n = len(raw)

    def keep(m):
        d = G.sub(sym.apply(m, v, F), v)
        return ints(d[:nd]) and not any(d[nd:])
    ref = {i for i in range(n) if keep(raw[i])}

    def group_ok(l, w):
        l = [int(i) for i in l]
        expect(len(set(l)) == len(l), "%s: an operation is listed twice", w)
        expect(set(l) == ref, "%s: operations %s leave the site where it is, %s were found", w, sorted(ref), sorted(l))

    def images():
        """classes of operations that bring the site to the same place"""
        cl = []
        for i in range(n):
            q = sym.apply(raw[i], v, F)
            for c in cl:
                d = G.sub(q, c[0])
                if ints(d[:nd]) and not any(d[nd:]):
                    c[1].add(i)
                    break
            else:
                cl.append((q, {i}))
        return [c[1] for c in cl]

    def coset_ok(l, w):
        l = [int(i) for i in l]
        expect(len(l) * len(ref) == n, "%s: %d representatives for a site symmetry of order %d", w, len(l), len(ref))
        for c in images():
            k = [i for i in l if i in c]
            expect(len(k) == 1, "%s: %d of the representatives %s lead to the same equivalent site", w, len(k), l)

    group_ok(pure(need(dsy, "site_symmetry"), A(s), nd), "site symmetry")
    coset_ok(pure(need(dsy, "coset"), A(s), nd), "coset")
    with contextlib.redirect_stdout(io.StringIO()):
        a, b = pure(need(dsy, "site_symmetry_and_coset"), A(s), nd, verbose)
    group_ok(a, "site symmetry (with coset)")
    coset_ok(b, "coset (with site symmetry)")
    return "order %d" % len(ref) if len(ref) > 1 else "-general position"


P.sub("special", None, examples=HALVES, fixed=True, shards=8)(run)


def off_sites():
    """special sites moved by 0.0001 to 0.01: no longer special, or less so"""
    r = []
    for k, t in enumerate([(0, 0, 0, 0), (1, 0, 1, 0), (1, 1, 1, 1), (0, 1, 0, 0), (1, 1, 0, 0)]):
        for j, d in enumerate((10000, 3000, 1000, 150)):
            for h in range(2):
                i = ((0,), (1, 2), (0, 1, 2, 3), (3,), (0, 2))[(k + j + 2 * h) % 5]
                x = [F(a, 0, 2) + F(int(n in i), 0, d) for n, a in enumerate(t)]
                r.append([[list(c.triple()) for c in x] + [[0, 0, 1]] * 2, 4, 0])
    return r


P.sub("off", None, examples=off_sites(), fixed=True, shards=8)(run)
P.sub("random", case_st, quick=160, thorough=6000)(run)
