"""Histories of parameter conversions (convert.qnt) against the library."""
import numpy as np
from calls import dbl, num
from fxio import fx

NAMES = ["New", "ms_to_Mc_eta", "Mc_eta_to_ms", "unit", "exchange", "get_chi_eff", "get_f_isco", "lambdas_to_lambda_tildes",
         "lambdas_to_lambda_tildes_from_q", "lambda_tildes_to_lambdas", "lambda_tildes_to_lambdas_from_q"]
MSUN = 1.988409902147041637325262574352366540e30


def call(fn, args, mode):
    """One function of a parameter vector, called the ways users call it; two numbers."""
    import jax
    import jax.numpy as jnp
    if mode == 0:
        out = fn(jnp.array(args))
    elif mode == 1:
        out = fn(tuple(float(a) for a in args))
    elif mode == 2:
        rows = np.stack([np.array(args) * 0.9, np.array(args), np.array(args) * np.linspace(1.1, 1.2, len(args))], axis=1)
        out = fn([jnp.array(r) for r in rows])
        return tuple(float(o[1]) for o in out) if isinstance(out, tuple) else (float(out[1]), 0.0)
    else:
        out = jax.jit(fn)(jnp.array(args))
    return tuple(float(o) for o in out) if isinstance(out, tuple) else (float(out), 0.0)


def replay(states):
    import impl
    lib = impl.ripplegw
    groups, cur, sid = [], None, None
    for st in states:
        a, s, mode = st["act"], st["sys"], st["mode"]
        if a < 0:
            continue
        err = None
        if a == 0:
            m = [dbl(s["x"]), dbl(s["y"])]
            lam = [dbl(s["u"]), dbl(s["v"])]
            chi = [dbl(s["c1"]), dbl(s["c2"])]
            cur, tid = list(m), list(lam)
            groups.append([])
            ev = [0, st["sid"], 0, fx(1)] + [fx(x) for x in lam + chi + m]
            d = dict(act="New", masses=m, lambdas=lam, chi=chi)
        elif a in (3, 4):
            k = dbl(st["k"])
            if a == 3:
                cur = [cur[0] * k, cur[1] * k if mrep == 0 else cur[1]]
            else:
                cur, chi = cur[::-1], chi[::-1]
            ev = [a, st["sid"], 0, fx(k), 0, 0, 0, 0] + [fx(x) for x in cur]
            d = dict(act=NAMES[a], k=k, value=cur)
        else:
            q = [m[0], m[1]]
            fn, args, ins = {
                1: lambda: (lib.ms_to_Mc_eta, cur, cur + chi),
                2: lambda: (lib.Mc_eta_to_ms, cur, cur + chi),
                5: lambda: (lib.get_chi_eff, cur + chi, cur + chi),
                6: lambda: (lambda x: lib.get_f_isco(x[0]), [cur[0] * MSUN], cur + chi),
                7: lambda: (lib.lambdas_to_lambda_tildes, tid + q, tid + q),
                8: lambda: (lib.lambdas_to_lambda_tildes_from_q, tid + [q[1] / q[0]], tid + q),
                9: lambda: (lib.lambda_tildes_to_lambdas, tid + q, tid + q),
                10: lambda: (lib.lambda_tildes_to_lambdas_from_q, tid + [q[1] / q[0]], tid + q),
            }[a]()
            try:
                out = call(fn, args, mode)
            except Exception as e:          # noqa: BLE001
                out, err = (float("nan"),) * 2, f"{type(e).__name__}: {e}"[:300]
            ev = [a, st["sid"], mode, fx(1)] + [fx(x) for x in ins] + [num(x) for x in out]
            d = dict(act=NAMES[a], mode=mode, args=args, out=out, error=err)
            if a in (1, 2):
                cur = list(out)
            elif a >= 7:
                tid = list(out)
        mrep = s["mrep"]
        groups[-1].append((ev, d))
        if not all(np.isfinite(cur + tid)):
            cur = [1.0, 1.0] if mrep == 0 else [0.8, 0.25]
            tid = [100.0, 100.0]
    return groups
