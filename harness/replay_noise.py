"""Readings of detector noise curves (noise.qnt) against the library."""
import numpy as np
from calls import dbl
from fxio import fx
from fractions import Fraction

CURVES = ["LIGOI", "aLIGO", "ce", "et", "aLIGOZeroDetHighPower", "O3a", "O2"]
INF, NANV = 45 * 10 ** 58, 4 * 10 ** 59


def rec(x):
    x = float(x)
    if np.isnan(x) or x == -np.inf:
        return NANV
    return INF if np.isinf(x) else fx(Fraction(x) * 10 ** 40)


def replay_curve(curve, states):
    import impl  # noqa: F401
    import jax
    import jax.numpy as jnp
    from ripplegw import noise
    fn, rng = getattr(noise, "Sn_" + curve), getattr(noise, "f_range_" + curve)
    jf = jax.jit(fn)
    out = []
    for st in states:
        if st["act"] < 0:
            continue
        if st["act"] == 1:
            out.append(([1, 0, fx(float(rng[0])), fx(float(rng[1]))], dict(act="range", curve=curve, range=[float(x) for x in rng])))
            continue
        f, mode, err = np.array([dbl(x) for x in st["fs"]]), st["mode"], None
        try:
            v = [fn(jnp.array(f)), [fn(x) for x in f], jf(jnp.array(f)), jax.vmap(fn)(jnp.array(f).reshape(4, 4))][mode]
            v = np.asarray(v, dtype=float).ravel()
            assert v.shape == f.shape
        except Exception as e:          # noqa: BLE001
            v, err = np.full(f.shape, np.nan), f"{type(e).__name__}: {e}"[:300]
        ev = [0, len(f)] + st["fs"] + st["rows"] + [rec(x) for x in v]
        out.append((ev, dict(act="read", curve=curve, mode=mode, f=f.tolist(), value=v.tolist(), error=err)))
    return [out]


def table(curve):
    import os
    import quint
    return {"noise_table.qnt": open(os.path.join(quint.SPEC, "noise", curve + ".qnt")).read()}


def work(a):
    """One curve: readings out of the machine, replayed and judged."""
    import quint
    curve, steps, seed = a
    states, _ = quint.simulate("noise", "step", steps, seed, files=table(curve))
    g = replay_curve(curve, states)
    return curve, len(states), g, quint.validate_one("trace_noise", [e for e, _ in g[0]], files=table(curve))
