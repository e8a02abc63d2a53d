"""Histories of grids to pad (pads.qnt) against the library."""
import warnings
import numpy as np
from fxio import fx

NAMES = ["New", "ExtendTop", "ExtendBottom", "Respace", "Rewrite", "Spoil", "Repair", "Misalign"]
SPACINGS = [0.25, 0.5, 1.0, 0.0625, 0.1, 0.2, 1 / 3, 0.3, 0.05, 0.7, np.pi / 10, 0.015]


def build(g):
    df, k0, k1 = SPACINGS[g["spacing"]], g["k0"], g["k1"]
    off = df / 2 if g["offset"] else 0.0
    n = k1 - k0 + 1
    how = g["how"]
    if how == 0:
        fs = df * np.arange(k0, k1 + 1)
    elif how == 1:
        fs = np.linspace(k0 * df, k1 * df, n)
    elif how == 2:
        fs = np.arange(k0 * df, (k1 + 0.5) * df, df)[:n]
    elif how == 3:
        fs = k0 * df + np.concatenate([[0.0], np.cumsum(np.full(n - 1, df))])
    else:
        fs = (df * np.arange(k0, k1 + 1)).astype(np.float32)
    fs = fs + (np.float32(off) if how == 4 else off)
    if g["bump"] >= 0:
        fs[g["bump"] - k0] += fs.dtype.type(0.2 * df)
    return fs, df


def replay(states):
    import impl
    import jax.numpy as jnp
    lib = impl.ripplegw
    groups, sid = [], None
    for st in states:
        if st["act"] == "init":
            continue
        g = st["g"]
        fs, df = build(g)
        low = high = nz = -1
        raised, msgs = 0, []
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                a, b = lib.get_eff_pads(jnp.array(fs))
                low, high = int(a.shape[0]), int(b.shape[0])
                nz = int(np.count_nonzero(np.asarray(a)) + np.count_nonzero(np.asarray(b))) + (a.ndim != 1) + (b.ndim != 1)
            except Exception as ex:          # noqa: BLE001
                raised = 1
                msgs.append(f"{type(ex).__name__}: {ex}"[:200])
        texts = [str(w.message) for w in ws]
        ev = [NAMES.index(st["act"]), st["sid"], g["k0"], g["k1"], g["spacing"], g["how"], g["bump"], int(g["offset"]),
              fx(float(fs[0])), fx(float(fs[-1])), fx(df), low, high, nz, int(any("evenly spaced" in t for t in texts)),
              int(any("integer" in t and "multiples" in t for t in texts)), raised]
        if st["sid"] != sid:
            sid = st["sid"]
            groups.append([])
        groups[-1].append((ev, dict(act=st["act"], grid=g, df=df, low=low, high=high, warnings=texts, error=msgs)))
    return groups
