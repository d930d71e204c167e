"""P30 the Cython packages export domains for drawing and refinement correctly too"""
import os
from hypothesis import strategies as st
from ..core import Property
from ..util import pure
from .. import gen
from ..gen import ICO, DODE
from . import p14, p15
from .p24 import setup, mod

P = Property("P30", "Cython packages: VESTA, pod and atm files",
             rule="a case is non-trivial when the domain has at least two cells that share a vertex; lists of tetrahedra always are",
             assumptions=["domains are conforming subdivisions of a cell or parts of them", "coordinates compared to the decimals written",
                          "edges longer than the bond reach the package uses (5, or the one asked for) may be left out of the drawing of single cells"],
             setup=setup)


def ico(M, o, path, c):
    if c["write"] and c["select"] == "normal":
        return pure(M.write, o, path, "x", "vesta", c["color"]), 4.9
    return pure(M.write_vesta, o, path, "x", c["color"], c["select"]), 4.9


def dode(M, o, path, c):
    kw = {} if c["dmax"] is None else dict(dmax=c["dmax"])
    if c["write"]:
        return pure(M.write, o, path, "x", "vesta", c["color"], **kw), c["dmax"] or 4.9
    os.makedirs(path, exist_ok=True)
    return pure(M.write_vesta, o, path, "x", c["color"], **kw), c["dmax"] or 4.9


def cut(c):
    """the package compares every vertex with every other for the merged drawings: seconds for twenty cells"""
    return c if c["select"] == "normal" else dict(c, obj=c["obj"][:8])


@P.sub("ico_vesta", p14.cases(ICO).filter(lambda c: c["select"] != "egdes").map(cut), quick=1500, thorough=15000)
def ico_vesta(c):
    return p14.run(ICO, mod("ico.occupation_domain"), c, ico)


@P.sub("dode_vesta", st.builds(lambda c, d, col: dict(c, select="normal", dmax=d, color=col), p14.cases(DODE).filter(lambda c: c["select"] != "egdes"),
                               st.sampled_from([None, None, 1.0, 12.5]), st.sampled_from("kkrbp")), quick=1200, thorough=15000)
def dode_vesta(c):
    return p14.run(DODE, mod("dode.occupation_domain"), c, dode)


@P.sub("ico_lists", p15.lists(), quick=1000, thorough=15000)
def ico_lists(c):
    return p15.run_lists(mod("ico.occupation_domain"), c)
