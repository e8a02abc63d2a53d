"""Checks that the toolchain is there; nothing has to be built."""
import shutil, sys
if not shutil.which("quint"):
    sys.exit("quint is not on PATH")
import jax, numpy  # noqa: E401,F401
print("ok: quint", shutil.which("quint"), "jax", jax.__version__)
