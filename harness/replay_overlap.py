"""Histories of waveform comparisons (overlap.qnt) against the library."""
import warnings
import numpy as np
from calls import dbl, num
from fxio import fx

NAMES = ["new", "scale first", "scale second", "scale noise", "exchange", "shift by samples", "self", "offset", "new second"]


def replay(states):
    import impl
    import jax.numpy as jnp
    lib = impl.ripplegw
    groups, sid = [], None
    for st in states:
        a, p = st["act"], st["p"]
        if a < 0:
            continue
        n, k0 = len(p["h1"]), p["k0"]
        hs, ns = 10.0 ** -p["hexp"], 10.0 ** -p["sexp"]
        df = dbl(p["df"])
        fs = df * np.arange(k0, k0 + n)
        t = dbl(p["t"])
        sn = np.array([dbl(x) * ns if x else np.inf for x in p["sn"]])
        h1, h2 = (np.array([complex(dbl(x[0]), dbl(x[1])) for x in p[k]]) * hs for k in ("h1", "h2"))
        err = None
        # strains as amplitude and phase functions of a model; with the second model's functions left out the
        # second waveform is the first model at other parameters
        A1, P1, A2, P2 = np.abs(h1), np.angle(h1), np.abs(h2), np.angle(h2)
        amp = lambda f, th: jnp.where(th[0] > 0, A2, A1)                                  # noqa: E731
        psi = lambda f, th: jnp.where(th[0] > 0, P2, P1)                                  # noqa: E731
        # with a function left out the other model's has to do, at the second parameters
        only = lambda x: lambda f, th: jnp.array(x)                                        # noqa: E731
        z = st["nones"]
        fns = (amp if z in (1, 2) else only(A1), psi if z in (1, 3) else only(P1),
               None if z in (1, 2) else only(A2), None if z in (1, 3) else only(P2))
        th1, th2 = jnp.array([0.0]), jnp.array([1.0])
        Sn = lambda f: jnp.array(sn)                                                       # noqa: E731
        out = [np.nan] * 4
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                lo, hi = lib.get_eff_pads(jnp.array(fs))
            J = jnp.array
            out = [lib.get_phase_maximized_inner_product_arr(t, J(fs), J(sn), J(h1), J(h2)), lib.get_match_arr(lo, hi, J(sn), J(h1), J(h2)),
                   lib.get_phase_maximized_inner_product(t, J(fs), Sn, th1, th2, *fns), lib.get_match(J(fs), lo, hi, Sn, th1, th2, *fns)]
        except Exception as ex:          # noqa: BLE001
            err = f"{type(ex).__name__}: {ex}"[:300]
        ev = [a, st["sid"], k0, n, fx(df), fx(t)] + [num(x) for x in out] + [fx(x) for x in fs]
        from fractions import Fraction as F
        H, N = 10 ** p["hexp"], 10 ** p["sexp"]
        ev += [fx(F(float(x)) * N) if np.isfinite(x) else 0 for x in sn]
        for x, y in zip(h1, h2):
            ev += [fx(F(float(v)) * H) for v in (x.real, x.imag, y.real, y.imag)]
        if st["sid"] != sid:
            sid = st["sid"]
            groups.append([])
        groups[-1].append((ev, dict(act=NAMES[a], k0=k0, n=n, df=df, t=t, sn=sn.tolist(), h1=[str(x) for x in h1], h2=[str(x) for x in h2],
                                    second_model_left_out=st["nones"], out=[float(x) for x in out], error=err)))
    return groups
