"""P01 exact scalar arithmetic"""
from hypothesis import strategies as st
import numpy as np
from ..core import Property, sut, expect
from ..field import Tau, Sin, from_triple, canonical
from .. import gen

import pyqcstrc.ico2.math1 as im
import pyqcstrc.dode2.math1 as dm

P = Property("P01", "Exact number arithmetic",
             rule="a case is non-trivial when neither operand is zero and at least one has an irrational part",
             assumptions=["operands with integers up to 10**30, of either sign, reduced or not; those that do not fit in 64 bits are passed as "
                          "Python integers, the form in which the library itself returns them"])

def sizes():
    """bit sizes: many small, some at the edge of what 64-bit integers can hold"""
    def t(n):
        m = st.integers(-n, n)
        d = st.integers(1, max(1, n))
        return st.tuples(m, m, d).map(list)
    neg = st.tuples(st.integers(-5, 5), st.integers(-5, 5), st.integers(-6, -1)).map(list)
    # around the sizes at which 32-bit, double-precision and 64-bit arithmetic stop being exact
    near = st.tuples(st.sampled_from([15, 26, 30, 31, 32, 52, 53, 54, 61, 62, 63, 64]), st.integers(-2, 2), st.sampled_from([1, -1])).map(
        lambda x: x[2] * (2 ** x[0] + x[1]))
    m0 = st.one_of(near, st.integers(-9, 9))
    edge = st.tuples(m0, m0, st.one_of(near.map(abs), st.integers(1, 9), near)).map(list)
    # far from lowest terms
    common = st.tuples(st.integers(-12, 12), st.integers(-12, 12), st.integers(1, 12), st.integers(2, 10 ** 7)).map(
        lambda x: [x[0] * x[3], x[1] * x[3], x[2] * x[3]])
    return st.one_of(t(3), t(12), neg, t(100), t(10 ** 4), t(10 ** 6), t(10 ** 9), t(10 ** 9),
                     edge, t(10 ** 18), t(10 ** 30), common,
                     st.tuples(st.integers(-9, 9), st.just(0), st.integers(1, 9)).map(list),
                     st.tuples(st.just(0), st.integers(-9, 9), st.integers(1, 9)).map(list))


def pair():
    free = st.tuples(sizes(), sizes()).map(list)
    same = st.tuples(sizes(), st.sampled_from([1, -1]), st.integers(1, 3)).map(
        lambda t: [t[0], [t[1] * t[2] * t[0][0], t[1] * t[2] * t[0][1], t[2] * t[0][2]]])
    conj = sizes().map(lambda a: [a, [a[0] + a[1], -a[1], a[2]]])
    return st.one_of(free, free, free, same, conj)


def make(F, mod, tag):
    def one(op, a, b):
        x, y = from_triple(F, a), from_triple(F, b)
        A, B = gen.arr(a), gen.arr(b)
        ka, kb = A.copy(), B.copy()
        fn = getattr(mod, op)
        r = sut(fn, A, B)
        expect((A == ka).all() and (B == kb).all(), "%s.%s changed its operands", tag, op)
        if op == "div" and not y:
            expect(r is None, "%s: %s/0 gave %s", tag, a, r)
            return "-division by zero"
        ref = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x / y}[op]()
        expect(r is not None and len(r) == 3, "%s.%s(%s,%s) returned %s", tag, op, a, b, r)
        t = tuple(int(v) for v in r)
        expect(t[2] != 0 and from_triple(F, t) == ref, "%s.%s(%s,%s)=%s, exact value %s", tag, op, a, b, t, ref)
        expect(canonical(t), "%s.%s(%s,%s)=%s is not in lowest terms with positive denominator", tag, op, a, b, t)
        if not x or not y:
            return "-zero operand"
        return "irrational" if (x.b or y.b) else "-rational"

    for op in ("add", "sub", "mul", "div"):
        def run(case, op=op):
            a, b = case
            return one(op, a, b)
        P.sub("%s_%s" % (tag, op), pair(), quick=8000, thorough=200000)(run)

    def ring(case):
        """chains: values produced by one operation feed the next one"""
        start, ops = case
        cur = gen.arr(start)
        x = from_triple(F, start)
        done = 0
        for op, b in ops:
            y = from_triple(F, b)
            if op == "div" and not y:
                continue
            if max(abs(int(v)) for v in cur) > 10 ** 60:
                break
            cur = sut(getattr(mod, op), cur, gen.arr(b))
            x = {"add": x + y, "sub": x - y, "mul": x * y}[op] if op != "div" else x / y
            t = tuple(int(v) for v in cur)
            expect(t == x.triple(), "%s: after %d operations of %s from %s: %s, exact %s", tag, done + 1, ops, start, t, x)
            done += 1
        return "chain %d" % min(done, 5) if done >= 2 else "-short"

    P.sub("%s_chain" % tag, st.tuples(sizes(), st.lists(st.tuples(st.sampled_from(["add", "sub", "mul", "div"]),
          st.one_of(gen.triple(9, 9, 9), sizes())).map(list), min_size=2, max_size=8)).map(list), quick=6000, thorough=80000)(ring)


make(Tau, im, "ico")
make(Sin, dm, "dode")
