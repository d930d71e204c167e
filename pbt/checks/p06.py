"""P06 shift"""
from hypothesis import strategies as st
import numpy as np
from ..core import Property, expect, sut
from ..field import vec
from ..util import pure, same_vec
from .. import gen, geom as G
from ..gen import ICO, DODE

import pyqcstrc.ico2.occupation_domain as iod
import pyqcstrc.dode2.occupation_domain as dod

P = Property("P06", "Shifting a domain",
             rule="a case is non-trivial when the shift and at least one vertex are not zero",
             assumptions=["vertices and shifts with components up to 10**6 and denominators up to 12, or components up to 50 and denominators up to 1000; up to 12 cells"])


def v6():
    t = st.one_of(gen.triple(3, 2, 2), gen.triple(40, 40, 6), gen.triple(10 ** 6, 10 ** 6, 12), gen.triple(50, 50, 1000), st.just([0, 0, 1]), st.sampled_from([[1, 1, -2], [3, 0, -1]]))
    return st.lists(t, min_size=6, max_size=6)


def make(S, O, tag):
    F, A, k = S.F, gen.arr, S.k

    @P.sub(tag, st.tuples(gen.crowd(st.lists(st.lists(v6(), min_size=k, max_size=k), min_size=1, max_size=12)), v6(), v6()).map(list),
           quick=800, thorough=15000)
    def shift(case):
        o, s, t = case
        r = pure(O.shift, A(o), A(s))
        expect(r is not None and np.shape(r) == (len(o), k, 6, 3), "%s.shift returned shape %s", tag, np.shape(r))
        x = vec(F, s)
        for a, b in zip(r, o):
            for p, q in zip(a, b):
                same_vec(F, p, G.add(vec(F, q), x), tag + ".shift")
        # there and back, and in two steps
        m = [[-q[0], -q[1], q[2]] for q in s]
        back = pure(O.shift, r, A(m))
        for a, b in zip(back, o):
            for p, q in zip(a, b):
                same_vec(F, p, vec(F, q), tag + ": shift there and back")
        two = pure(O.shift, r, A(t))
        y = G.add(x, vec(F, t))
        for a, b in zip(two, o):
            for p, q in zip(a, b):
                same_vec(F, p, G.add(vec(F, q), y), tag + ": two shifts")
        return "moved" if any(x) else "-null shift"


make(ICO, iod, "ico")
make(DODE, dod, "dode")
