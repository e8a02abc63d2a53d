"""The real library, called the way a user calls it."""
import os, sys, threading
os.environ.setdefault("JAX_PLATFORMS", "cpu")
REPO = os.environ.get("RIPPLE_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True
import warnings
import numpy as np
import jax
if os.environ.get("VERIF_X64", "1") == "1":
    jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import ripplegw
from ripplegw.waveforms import IMRPhenomD, IMRPhenomXAS, TaylorF2, IMRPhenomD_NRTidalv2, IMRPhenomPv2
assert os.path.realpath(ripplegw.__file__).startswith(os.path.realpath(REPO)), ripplegw.__file__

FUN = {
    ("D", "h"): IMRPhenomD.gen_IMRPhenomD, ("D", "pol"): IMRPhenomD.gen_IMRPhenomD_hphc,
    ("X", "h"): IMRPhenomXAS.gen_IMRPhenomXAS, ("X", "pol"): IMRPhenomXAS.gen_IMRPhenomXAS_hphc,
    ("T", "h"): TaylorF2.gen_TaylorF2, ("T", "pol"): TaylorF2.gen_TaylorF2_hphc,
    ("N", "h"): IMRPhenomD_NRTidalv2.gen_IMRPhenomD_NRTidalv2, ("N", "pol"): IMRPhenomD_NRTidalv2.gen_IMRPhenomD_NRTidalv2_hphc,
    ("P", "mass"): IMRPhenomPv2.gen_IMRPhenomPv2, ("P", "pol"): IMRPhenomPv2.gen_IMRPhenomPv2_hphc,
}
_cache = {}


def bound(model, fn, tilde, taper):
    """f(fs, params, fref) with the options of the call fixed."""
    k = (model, fn, tilde, taper)
    if k not in _cache:
        g = FUN[(model, fn)]
        if model == "T":
            _cache[k] = lambda fs, p, fr: g(fs, p, fr, tilde)
        elif model == "N":
            _cache[k] = lambda fs, p, fr: g(fs, p, fr, use_lambda_tildes=tilde, no_taper=not taper)
        else:
            _cache[k] = g
    return _cache[k]


def transformed(kind, model, fn, tilde, taper, fref=None):
    k = (kind, model, fn, tilde, taper, fref)
    if k not in _cache:
        g = bound(model, fn, tilde, taper)
        if fref is not None:                      # reference frequency fixed at trace time
            h = lambda fs, p: g(fs, p, fref)
            _cache[k] = {"jit": lambda: jax.jit(h), "vmap": lambda: jax.vmap(h, in_axes=(None, 0)),
                         "jitvmap": lambda: jax.jit(jax.vmap(h, in_axes=(None, 0))),
                         "fvmap": lambda: jax.vmap(h, in_axes=(0, None))}[kind]()
        else:
            _cache[k] = {"jit": lambda: jax.jit(g), "vmap": lambda: jax.vmap(g, in_axes=(None, 0, None)),
                         "jitvmap": lambda: jax.jit(jax.vmap(g, in_axes=(None, 0, None))),
                         "fvmap": lambda: jax.jit(jax.vmap(g, in_axes=(0, None, None)))}[kind]()
    return _cache[k]


def threaded(g, fs, p, ff, fn):
    """The request twice in each of two threads, while two more evaluate other binaries; the answer that stands out, if any does."""
    other = [p.copy(), p.copy()]
    other[0][0] *= 1.31
    other[1][0] *= 1.17
    other[1][1] *= 0.9 if fn != "mass" else 1.0
    gate, got = threading.Barrier(4), []

    def work(q, keep):
        gate.wait()
        for _ in range(2):
            try:
                o = g(jnp.array(fs), jnp.array(q), ff)
                o = [np.asarray(x) for x in o] if isinstance(o, (tuple, list)) else [np.asarray(o)]
            except Exception:           # noqa: BLE001
                o = None
            if keep:
                got.append(o)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=a) for a in ((p, True), (other[0], False), (p, True), (other[1], False))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if any(o is None for o in got):
        raise RuntimeError("the call failed while other threads were calling")
    far = [max(float(np.max(np.nan_to_num(np.abs(a - b), nan=0 if np.array_equal(a, b, equal_nan=True) else 1e300))) for b, a in zip(got[0], o)) for o in got]
    k = int(np.argmax(far))
    # of two different answers, the one fewer calls gave
    if far[k] > 0 and sum(x == far[k] for x in far) > 2:
        k = 0
    return tuple(got[k]) if len(got[k]) > 1 else got[k][0]


def evaluate(model, fn, mode, tilde, taper, p, fs, fref):
    """Returns (list of complex arrays, flag): flag is 1 when an argument came back modified."""
    g = bound(model, fn, tilde, taper)
    ff = float(fref)
    static = ff if model == "T" else None
    fs0, p0 = np.array(fs, dtype=float), np.array(p, dtype=float)
    flag = 0
    if mode == "numpy":
        a, b = fs0.copy(), p0.copy()
        out = g(a, b, ff)
        flag = int(not (np.array_equal(a, fs0) and np.array_equal(b, p0)))
    elif mode == "eager":
        out = g(jnp.array(fs0), jnp.array(p0), ff)
    elif mode == "jit":
        if static is None:
            out = transformed("jit", model, fn, tilde, taper)(jnp.array(fs0), jnp.array(p0), ff)
        else:
            out = transformed("jit", model, fn, tilde, taper, static)(jnp.array(fs0), jnp.array(p0))
    elif mode == "jitfref":
        out = transformed("jit", model, fn, tilde, taper, ff)(jnp.array(fs0), jnp.array(p0))
    elif mode in ("vmap", "jitvmap"):
        # a batch of three binaries, the one asked for in the middle
        q = np.stack([p0, p0, p0])
        q[0, 0] *= 0.83
        q[2, 0] *= 1.31
        q[0, 1] = 0.8 * q[0, 1] if fn != "mass" else q[0, 1]
        if static is None:
            out = transformed(mode, model, fn, tilde, taper)(jnp.array(fs0), jnp.array(q), ff)
        else:
            out = transformed(mode, model, fn, tilde, taper, static)(jnp.array(fs0), jnp.array(q))
        out = tuple(o[1] for o in out) if isinstance(out, (tuple, list)) else out[1]
    elif mode == "fvmap":                         # vectorised over frequencies: the function sees one number at a time
        if static is None:
            out = transformed(mode, model, fn, tilde, taper)(jnp.array(fs0), jnp.array(p0), ff)
        else:
            out = transformed(mode, model, fn, tilde, taper, static)(jnp.array(fs0), jnp.array(p0))
    elif mode == "threads":
        out = threaded(g, fs0, p0, ff, fn)
    elif mode == "scalar":
        g = transformed("jit", model, fn, tilde, taper) if static is None else g
        parts = [g(jnp.float64(f), jnp.array(p0), ff) for f in fs0]
        if isinstance(parts[0], (tuple, list)):
            out = tuple(jnp.stack([x[i] for x in parts]) for i in range(2))
        else:
            out = jnp.stack(parts)
    elif mode == "elem":
        if model == "X":                          # eager IMRPhenomXAS takes seconds per call
            g = transformed("jit", model, fn, tilde, taper)
        parts = [g(jnp.array([f]), jnp.array(p0), ff) for f in fs0]
        if isinstance(parts[0], (tuple, list)):
            out = tuple(jnp.concatenate([x[i] for x in parts]) for i in range(2))
        else:
            out = jnp.concatenate(parts)
    else:
        raise ValueError(mode)
    if not isinstance(out, (tuple, list)):
        out = (out,)
    return [np.asarray(o) for o in out], flag
