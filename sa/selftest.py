"""Sanity of the engine itself: equal programs agree, different ones do not."""
import os, shutil, sys, tempfile
sys.setrecursionlimit(60000)
from . import conform as cf

A = """import jax.numpy as np
def f(x, y, n=3):
    z = np.einsum("ij,j->i", x, y)
    if n > 2:
        return z * 2.0 + y
    return z - y
"""
B = """import jax.numpy as np
def g(x, y):
    return np.einsum("b,ab->a", y, x)
def f(x, y, n=3):
    out = -y
    z = g(x, y)
    if not n <= 2:
        out = y + z
    return out + z
"""
C = A.replace("z - y", "y - z")


def main():
    d = tempfile.mkdtemp(prefix="sa_self_")
    try:
        for n, s in (("a", A), ("b", B), ("c", C)):
            os.makedirs(os.path.join(d, n, "feax"))
            open(os.path.join(d, n, "feax", "__init__.py"), "w").write("")
            open(os.path.join(d, n, "feax", "m.py"), "w").write(s)
        rb = cf.run(os.path.join(d, "b"), os.path.join(d, "a"), procs=1)
        rc = cf.run(os.path.join(d, "c"), os.path.join(d, "a"), procs=1)
        ok = rb["feax.m.f"]["status"] == "same" and rc["feax.m.f"]["status"] == "diff"
    finally:
        shutil.rmtree(d)
    print("selftest", "ok" if ok else "FAILED")
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main())
