"""Histories of sine-Gaussian bursts (burst.qnt) against the library."""
import numpy as np
from calls import dbl, num
from fxio import fx

NAMES = ["points", "whole burst", "ellipse axes"]


def replay(states):
    import impl  # noqa: F401
    import jax
    import jax.numpy as jnp
    from ripplegw.waveforms import SineGaussian as G
    jitted = jax.jit(G.gen_SineGaussian_hphc)
    vm = jax.vmap(G.gen_SineGaussian_hphc, in_axes=(None, 0))
    groups, sid = [], None
    for st in states:
        a, b, mode = st["act"], st["b"], st["mode"]
        if a < 0:
            continue
        q, f, hrss, ph, e = (dbl(b[k]) for k in ("q", "f", "hrss", "phase", "ecc"))
        kind, dt, err = {7: 1, 8: 2}.get(a, 0), 0.0, None
        if kind == 1:                   # resolves the burst and holds its tails
            q = min(q, 12.0)
            dt = 1 / (f * (8 + 24 / q))
            n = int(np.ceil(1.05 * q / f / dt))
            t = np.arange(-n, n + 1) * dt
        else:
            t = np.array([dbl(x) for x in st["times"]])
        th = np.array([q, f, hrss, ph, e])
        try:
            if kind == 2:
                o = G.semi_major_minor_from_e(jnp.asarray(e))
                obs = [num(o[0]), num(o[1])]
            else:
                if mode == 0:
                    p, c = G.gen_SineGaussian_hphc(jnp.array(t), jnp.array(th))
                elif mode == 1:
                    p, c = jitted(jnp.array(t), jnp.array(th))
                else:
                    p, c = (x[1] for x in vm(jnp.array(t), jnp.array([th * 0.9, th, th * 0.8])))
                p, c = np.asarray(p), np.asarray(c)
                assert p.shape == t.shape and c.shape == t.shape, (p.shape, c.shape)
                obs = [num(x) for x in p] + [num(x) for x in c]
        except Exception as ex:          # noqa: BLE001
            err = f"{type(ex).__name__}: {ex}"[:300]
            obs = [num(np.nan)] * (2 if kind == 2 else 2 * len(t))
        ev = [kind, st["sid"]] + [fx(x) for x in th] + [0 if kind == 2 else len(t), fx(dt)] + ([] if kind == 2 else [fx(x) for x in t]) + obs
        if st["sid"] != sid:
            sid = st["sid"]
            groups.append([])
        groups[-1].append((ev, dict(act=NAMES[kind], theta=th.tolist(), t=t[:8].tolist(), n=len(t), mode=mode, error=err)))
    return groups
