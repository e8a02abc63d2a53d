"""Histories of requests to dispatchers (dispatch.qnt) against the library."""
import numpy as np
from calls import Call, num
ACTS = ["Make", "Ask", "Again", "Vary", "Unknown"]
NAMES = ["XAS", "D", "D_NRTidalv2", "Pv2"]
UNKNOWN = ["", "d", "D ", "xas", "XP", "IMRPhenomD", "IMRPhenomPv2", "Pv3", "D_NRTidal", "TaylorF2", "NRTidalv2", "gen_IMRPhenomD_hphc"]


def numbers(out):
    a, b = [np.asarray(o) for o in out]
    return [num(x) for x in np.stack([a.real, a.imag, b.real, b.imag], axis=-1).ravel()]


def replay(states):
    import impl
    import jax.numpy as jnp
    from ripplegw.FD_waveform import FD_waveform_generator
    owned, out, seen = [], [], set()
    for st in states:
        if st["act"] == "init":
            continue
        if st["act"] == "Make":
            owned.append(FD_waveform_generator())
            out.append(([0] * 8, dict(act="Make")))
            continue
        q, c = st["asked"], Call(st["call"])
        arr = np.array if c.mode == "numpy" else jnp.array
        args = lambda: (arr(c.f), arr(c.params()), c.fref)
        v, w, kind, err = [], [], 0, None
        try:
            v = numbers(owned[q["who"]].generate_waveform(q["name"], *args()))
        except Exception as ex:          # noqa: BLE001
            err = f"{type(ex).__name__}: {ex}"[:200]
            kind = 3 if not isinstance(ex, ValueError) else 1 if q["name"] in str(ex) else 2
        direct = int(q["name"] in NAMES and kind == 0 and (q["name"], q["r"], q["tw"]) not in seen)
        if direct:
            w = numbers(impl.FUN[(c.model, c.fn)](*args()))
            seen.add((q["name"], q["r"], q["tw"]))
        name = NAMES.index(q["name"]) if q["name"] in NAMES else -1 - UNKNOWN.index(q["name"])
        ev = [ACTS.index(st["act"]), q["who"], name, q["r"] % 10 ** 58, q["tw"], kind, direct, len(v)] + v + w
        out.append((ev, dict(c.describe(), act=st["act"], name=q["name"], dispatcher=q["who"], change=q["tw"], error=err)))
    return [out]
