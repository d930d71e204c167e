"""Builds the Cython packages of /repo/src_cython outside /repo and makes them importable
as pyqcstrc.dode and pyqcstrc.ico.

The result is kept in /verif/.build (ignored by git) under a name that is a hash of every
source file that went into it, so an unchanged tree is not compiled twice and a changed
one never uses an old build.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

from .core import REPO, VERIF

SKIP = {"ico/strc1.pyx", "ico/reciprocal.pyx", "ico/strc1.pxd", "ico/reciprocal.pxd"}    # do not compile at the pinned commit
SETUP = """
import sys
from setuptools import setup, Extension
from numpy import get_include
from Cython.Build import cythonize
ex = [Extension(p[:-4].replace('/', '.'), [p], include_dirs=['.', get_include()]) for p in sys.argv.pop(1).split(',')]
setup(name='legacy', packages=[], py_modules=[],
      ext_modules=cythonize(ex, compiler_directives={'language_level': 3}, nthreads=8, quiet=True))
"""


def sources(pkg):
    d = os.path.join(REPO, "src_cython", pkg)
    out = []
    for p in sorted(glob.glob(d + "/*")):
        n = os.path.basename(p)
        if n.endswith((".py", ".pyx", ".pxd")) and n != "setup.py" and "%s/%s" % (pkg, n) not in SKIP:
            out.append(p)
    return out


def build(pkg):
    h = hashlib.sha256(("%s %s" % (sys.version, SETUP)).encode())
    src = sources(pkg)
    for p in src:
        h.update(os.path.basename(p).encode() + b"\0" + open(p, "rb").read() + b"\0")
    base = os.path.join(VERIF, ".build")
    os.makedirs(base, exist_ok=True)
    dst = os.path.join(base, "%s-%s" % (pkg, h.hexdigest()[:20]))
    with open(os.path.join(base, "lock-" + pkg), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.isdir(dst):
            for old in glob.glob(os.path.join(base, pkg + "-*")):
                shutil.rmtree(old, ignore_errors=True)
            tmp = tempfile.mkdtemp(prefix="vp_legacy_")
            try:
                d = os.path.join(tmp, "pyqcstrc", pkg)
                os.makedirs(d)
                open(os.path.join(tmp, "pyqcstrc", "__init__.py"), "w").close()
                for p in src:
                    shutil.copyfile(p, os.path.join(d, os.path.basename(p)))
                pyx = sorted("pyqcstrc/%s/%s" % (pkg, os.path.basename(p)) for p in src if p.endswith(".pyx"))
                r = subprocess.run([sys.executable, "-c", SETUP, ",".join(pyx), "-q", "build_ext", "--inplace", "-j8"],
                                   cwd=tmp, env=dict(os.environ, CFLAGS="-O1 -w -g0", HOME=tmp), stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    sys.stderr.write(r.stdout[-4000:])
                    raise RuntimeError("the Cython package %s does not build" % pkg)
                shutil.rmtree(os.path.join(tmp, "build"), ignore_errors=True)
                for c in glob.glob(d + "/*.c"):
                    os.remove(c)
                shutil.copytree(tmp, dst + ".tmp%d" % os.getpid())
                os.rename(dst + ".tmp%d" % os.getpid(), dst)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
    import pyqcstrc
    p = os.path.join(dst, "pyqcstrc")
    if p not in pyqcstrc.__path__:
        pyqcstrc.__path__.append(p)
