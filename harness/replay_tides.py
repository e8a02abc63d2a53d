"""Sweeps through the tidal building blocks (tides.qnt) against the library."""
import numpy as np
from calls import dbl, num
from fxio import fx

NAMES = ["multipoles", "kappa", "merger frequency", "taper", "multipole derivatives", "taper derivative", "merger frequency scaling"]


def replay(states):
    import impl  # noqa: F401
    import jax
    import jax.numpy as jnp
    from ripplegw.waveforms import IMRPhenom_tidal_utils as U, IMRPhenomD_NRTidalv2 as N
    quad = getattr(U, "get_quadparam_octparam", None)
    kappa = getattr(U, "get_kappa", None)
    merger = getattr(N, "_get_merger_frequency", None)
    taper = getattr(N, "get_planck_taper", None)
    cache = {}

    def j(name, f):
        if name not in cache:
            cache[name] = jax.jit(f)
        return cache[name]
    groups, last = [], None
    for st in states:
        p, mode = st["pt"], st["mode"]
        kind = p["kind"]
        if kind < 0:
            continue
        lam, m1, m2, l1, l2, x, y = (dbl(p[k]) for k in ("lam", "m1", "m2", "l1", "l2", "x", "y"))
        th = jnp.array([m1, m2, 0.1, -0.2, l1, l2])
        err = None
        need = {0: quad, 4: quad, 1: kappa, 2: merger, 6: merger, 3: taper, 5: taper}[kind]
        if need is None:                 # an internal helper that is not there any more
            continue
        try:
            if kind in (0, 4):
                if kind == 4:
                    f = jax.jacfwd(quad) if mode == 0 else jax.jacrev(quad)
                else:
                    f = quad
                if mode == 2:
                    o = j(("q", kind), jax.vmap(f))(jnp.array([lam * 0.5 + 0.1, lam, lam + 3.0]))
                    o = [float(v[1]) for v in o]
                else:
                    o = [float(v) for v in (j(("q", kind, 1), f) if mode == 1 else f)(jnp.asarray(lam))]
            elif kind == 1:
                o = [float((j("k", kappa) if mode == 1 else kappa)(th)), 0.0]
            elif kind in (2, 6):
                o = [float((j("m", merger) if mode == 1 else merger)(th)), 0.0]
            elif kind == 3:
                o = [float(taper(jnp.array([x * 0.3, x, x * 2]), y)[1]) if mode != 1 else float(j("t", taper)(jnp.array([x, y]), y)[0]), 0.0]
            else:
                g = jax.grad(taper) if mode == 0 else (lambda a, b: jax.jvp(lambda z: taper(z, b), (a,), (1.0,))[1])
                o = [float(g(jnp.asarray(x), jnp.asarray(y))), 0.0]
        except Exception as e:          # noqa: BLE001
            o, err = [float("nan")] * 2, f"{type(e).__name__}: {e}"[:300]
        ev = [kind, st["sid"]] + [fx(v) for v in (lam, m1, m2, l1, l2, x, y)] + [num(v) for v in o]
        if st["sid"] != last:
            last = st["sid"]
            groups.append([])
        groups[-1].append((ev, dict(act=NAMES[kind], lam=lam, m1=m1, m2=m2, l1=l1, l2=l2, x=x, y=y, out=o, error=err)))
    return [g for g in groups if g]
