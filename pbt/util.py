"""helpers shared by the checks"""
import numpy as np
from .core import Violation, expect, sut
from .field import canonical


def tri(t):
    return tuple(int(x) for x in t)


def as_num(F, t, what):
    expect(t is not None and len(t) == 3, "%s returned %s", what, t)
    a, b, c = tri(t)
    expect(c != 0, "%s returned a zero denominator: %s", what, (a, b, c))
    return F(a, b, c)


def same_num(F, got, ref, what, lowest=True):
    x = as_num(F, got, what)
    expect(x == ref, "%s = %s, exact value %s", what, tri(got), ref)
    if lowest:
        expect(canonical(tri(got)), "%s = %s is not in lowest terms with positive denominator", what, tri(got))


def same_vec(F, got, ref, what, lowest=True):
    expect(got is not None, "%s returned None", what)
    expect(len(got) == len(ref), "%s has %d components instead of %d", what, len(got), len(ref))
    for i, (g, r) in enumerate(zip(got, ref)):
        same_num(F, g, r, "%s[%d]" % (what, i), lowest)


def same_mat(F, got, ref, what, lowest=True):
    expect(got is not None, "%s returned None", what)
    expect(len(got) == len(ref), "%s has %d rows instead of %d", what, len(got), len(ref))
    for i, (g, r) in enumerate(zip(got, ref)):
        same_vec(F, g, r, "%s[%d]" % (what, i), lowest)


def close(got, ref, what, tol=1e-9, scale=1.0):
    g = float(got)
    expect(abs(g - ref) <= tol * max(1.0, abs(ref), scale), "%s = %r, expected %r", what, g, ref)


def close_vec(got, ref, what, tol=1e-9, scale=1.0):
    expect(got is not None, "%s returned None", what)
    expect(len(got) == len(ref), "%s has %d components instead of %d", what, len(got), len(ref))
    for i, (g, r) in enumerate(zip(got, ref)):
        close(g, r, "%s[%d]" % (what, i), tol, scale)


def pure(fn, *args, **kw):
    """call library code and require that array arguments come back unchanged"""
    what = kw.get("_what") or getattr(fn, "__name__", str(fn))
    keep = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
    r = sut(fn, *args, **kw)
    for a, k in zip(args, keep):
        if isinstance(a, np.ndarray):
            expect(a.shape == k.shape and (a == k).all(), "%s changed an array it was given", what)
    return r


def obj_shape(o, k, what):
    """(n,k,6,3) integer array or nothing"""
    if o is None:
        return []
    a = np.asarray(o)
    if a.size == 0:
        return []
    expect(a.ndim == 4 and a.shape[1:] == (k, 6, 3), "%s has shape %s instead of (n,%d,6,3)", what, a.shape, k)
    expect(np.issubdtype(a.dtype, np.integer), "%s is not an integer array (%s)", what, a.dtype)
    expect((a[..., 2] != 0).all(), "%s contains a zero denominator", what)
    return a.tolist()


def fresh(mod):
    """a new instance of a module of the library (and of those it imports), as in a new process: a history starts from a known state"""
    import importlib
    import sys

    def ours():
        return [k for k in sys.modules if k == "pyqcstrc" or k.startswith("pyqcstrc.")]
    saved = {k: sys.modules.pop(k) for k in ours()}
    try:
        return importlib.import_module(mod.__name__)
    finally:
        for k in ours():
            del sys.modules[k]
        sys.modules.update(saved)
