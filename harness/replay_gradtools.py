"""Automatic derivatives of the library's tools (gradtools.qnt)."""
import numpy as np
from calls import dbl, num
from fxio import fx

NAMES = ["ms_to_Mc_eta", "Mc_eta_to_ms", "lambdas_to_lambda_tildes", "lambdas_to_lambda_tildes_from_q", "lambda_tildes_to_lambdas",
         "lambda_tildes_to_lambdas_from_q", "get_chi_eff", "get_f_isco", "multipoles", "kappa", "merger frequency", "taper", "sine-Gaussian"]
MSUN = 1.988409902147041637325262574352366540e30


def replay(states):
    import impl
    import jax
    import jax.numpy as jnp
    from ripplegw.waveforms import IMRPhenom_tidal_utils as U, IMRPhenomD_NRTidalv2 as N, SineGaussian as G
    lib = impl.ripplegw

    def pair(f):
        return lambda x: jnp.stack([jnp.asarray(v) for v in f(x)])

    def one(f):
        return lambda x: jnp.stack([f(x), jnp.zeros(())])
    quad, kappa = getattr(U, "get_quadparam_octparam", None), getattr(U, "get_kappa", None)
    merger, taper = getattr(N, "_get_merger_frequency", None), getattr(N, "get_planck_taper", None)

    def bns(f):
        return lambda x: f(jnp.array([x[0], x[1], 0.1, -0.2, x[2], x[3]]))
    T = [pair(lib.ms_to_Mc_eta), pair(lib.Mc_eta_to_ms), pair(lib.lambdas_to_lambda_tildes), pair(lib.lambdas_to_lambda_tildes_from_q),
         pair(lib.lambda_tildes_to_lambdas), pair(lib.lambda_tildes_to_lambdas_from_q), one(lib.get_chi_eff),
         one(lambda x: lib.get_f_isco(x[0] * MSUN)), quad and pair(lambda x: quad(x[0])), kappa and one(bns(kappa)), merger and one(bns(merger)),
         taper and one(lambda x: taper(x[0], x[1])), pair(lambda x: [v[0] for v in G.gen_SineGaussian_hphc(jnp.stack([x[5]]), x[:5])])]
    cache = {}
    groups, last = [], None
    for st in states:
        k, mode = st["kind"], st["mode"]
        if k < 0 or T[k] is None:
            continue
        x = [dbl(v) for v in st["args"]]
        n = len(x)
        err = None
        if (k, mode) not in cache:
            f = T[k]
            d = jax.jacrev(f) if mode % 2 else jax.jacfwd(f)
            cache[k, mode] = d if mode < 2 else jax.jit(d) if mode == 3 else jax.jit(jax.vmap(d))
        try:
            a = jnp.array(x)
            v = np.asarray(T[k](a)) if mode < 2 else np.zeros(2)
            if mode == 2:
                J = cache[k, mode](jnp.stack([a, a * 1.001, a * 0.999]))[0]
            else:
                J = cache[k, mode](a)
            J = np.asarray(J, dtype=float)
        except Exception as e:          # noqa: BLE001
            v, J, err = np.zeros(2), np.full((2, n), np.nan), f"{type(e).__name__}: {e}"[:300]
        pad = [0] * (6 - n)
        ev = [k, st["sid"], mode] + [fx(y) for y in x] + pad + [num(y) for y in v] + [num(y / 2**20) for y in J[0]] + pad + [num(y / 2**20) for y in J[1]] + pad
        if st["sid"] != last:
            last = st["sid"]
            groups.append([])
        groups[-1].append((ev, dict(tool=NAMES[k], args=x, mode=mode, jacobian=J.tolist(), error=err)))
    return [g for g in groups if g]
