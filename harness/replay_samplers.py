"""Histories of draws (samplers.qnt) against the library."""
import numpy as np
from calls import dbl
from fxio import fx
NAMES = ["Draw", "Again", "Vary"]
B = 6


def histogram(s, x):
    if s["kind"] == 0:
        box = [(s["lo1"], s["hi1"]), (s["lo2"], s["hi2"])]
    else:
        box = [(min(s["lo1"], s["lo2"]), max(s["hi1"], s["hi2"]))] * 2
    k = [np.clip(np.floor((x[:, c] - dbl(lo)) / (dbl(hi) - dbl(lo)) * B).astype(int), 0, B - 1) for c, (lo, hi) in enumerate(box)]
    return np.bincount(k[0] * B + k[1], minlength=B * B).tolist()


def replay(states):
    import impl
    import jax
    lib = impl.ripplegw
    made, compiled, out = {}, {}, []
    for st in states:
        if st["act"] in ("init", "Make"):
            continue
        q = st["req"]
        s = q["s"]
        key = tuple(s[k] for k in ("kind", "lo1", "hi1", "lo2", "hi2"))
        x, err = None, None
        try:
            if key not in made:
                a, b = (dbl(s["lo1"]), dbl(s["hi1"])), (dbl(s["lo2"]), dbl(s["hi2"]))
                made[key] = (lib.get_M_eta_sampler if s["kind"] == 0 else lib.get_m1_m2_sampler)(a, b)
                compiled[key] = jax.jit(made[key], static_argnums=1)
            f, seed = q["form"], np.uint64(q["seed"])
            k = jax.random.key(seed) if f == 1 else jax.random.PRNGKey(seed)
            k = jax.random.split(k)[0] if f == 2 else jax.random.fold_in(k, 7) if f == 3 else k
            x = np.asarray((compiled if q["jit"] else made)[key](k, q["n"]))
        except Exception as ex:          # noqa: BLE001
            err = f"{type(ex).__name__}: {ex}"[:300]
        ev = [NAMES.index(st["act"])] + list(key) + [q["seed"], q["form"], q["n"], int(q["jit"])]
        if x is None or x.ndim != 2 or x.shape[1] != 2 or not np.isfinite(x).all():
            ev += [-1 if x is None else 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0]
        else:
            n, m = len(x), min(len(x), 24)
            ev += [n, 2, int(x.dtype == np.float64), len(np.unique(x, axis=0))]
            ev += [fx(v) for v in ([x[:, 0].min(), x[:, 0].max(), x[:, 1].min(), x[:, 1].max(), (x[:, 0] - x[:, 1]).min()] if n else [0.0] * 5)]
            big = int(n >= 1000)
            ev += [big, m] + [fx(v) for v in x[:m].ravel()]
            if big:
                for part in (x, x[n // 2:], x[1::2]):
                    ev += histogram(s, part)
        out.append((ev, dict(act=st["act"], request=q, error=err, first=None if x is None else x[:2].tolist())))
    return [out]
