"""Sweeps through merger remnants (remnant.qnt) against the library."""
from calls import dbl, num
from fxio import fx

NAMES = ["New", "Rescale", "Exchange", "SpinUp", "Tilt"]
ABSENT = -1e300


def replay(states):
    import impl  # noqa: F401
    import jax
    import jax.numpy as jnp
    from ripplegw.waveforms import IMRPhenomD_utils as D, IMRPhenomPv2_utils as P, IMRPhenomX_utils as X

    def split(f, n):
        """The numbers of one helper; None each when the library does not have it (any more) under that name and signature."""
        def g(*a):
            r = f(*a)
            return list(r) if isinstance(r, (tuple, list)) else [r]
        try:
            r = g(30.0, 20.0, 0.1, 0.2, 0.1)
            if len(r) >= n and all(jnp.ndim(x) == 0 for x in r[:n]):
                return lambda *a: g(*a)[:n]
        except (AttributeError, TypeError, ValueError, IndexError):
            pass
        return None

    def joins(m1, m2, c1, c2, _):
        th = jnp.array([m1, m2, c1, c2])
        co = D.get_coeffs(th)
        return D.get_transition_frequencies(th, co[5], co[6])
    parts = [(split(f, n), n) for f, n in (
        (lambda m1, m2, c1, c2, _: D.FinalSpin0815_s(m1 * m2 / (m1 + m2) ** 2, (m1 * m1 * c1 + m2 * m2 * c2) / (m1 + m2) ** 2), 1),
        (lambda m1, m2, c1, c2, _: D.EradRational0815(m1 * m2 / (m1 + m2) ** 2, c1, c2), 1),
        (lambda m1, m2, c1, c2, _: D.get_fRD_fdamp(m1, m2, c1, c2), 2),
        (lambda m1, m2, c1, c2, p: P.FinalSpin_inplane(m1, m2, c1, c2, p), 1),
        (lambda m1, m2, c1, c2, p: P.phP_get_fRD_fdamp(m1, m2, c1, c2, p), 2),
        (lambda m1, m2, c1, c2, _: X.get_cutoff_fMs(m1, m2, c1, c2), 4),
        (joins, 4))]

    def remnant(*a):
        out = []
        for f, n in parts:
            out += f(*a) if f else [jnp.asarray(ABSENT)] * n
        return out
    jitted = jax.jit(remnant)
    batch = jax.jit(jax.vmap(remnant))
    groups, last = [], None
    for st in states:
        if st["act"] == "init":
            continue
        v = [dbl(st["pt"][k]) for k in ("m1", "m2", "c1", "c2", "chip")]
        err = None
        try:
            a = [jnp.asarray(x) for x in v]
            if st["mode"] == 2:
                out = [o[1] for o in batch(*(jnp.array([0.9 * x, x, 0.5 * x]) for x in v))]
            else:
                out = (jitted if st["mode"] == 1 else remnant)(*a)
            out = [float(x) for x in out]
        except Exception as e:          # noqa: BLE001
            out, err = [float("nan")] * 15, f"{type(e).__name__}: {e}"[:300]
        ev = [NAMES.index(st["act"]), st["sid"]] + [fx(x) for x in v] + [-4 * 10**59 if x == ABSENT else num(x) for x in out]
        if st["sid"] != last:
            last = st["sid"]
            groups.append([])
        groups[-1].append((ev, dict(act=st["act"], point=v, mode=st["mode"], out=out, error=err)))
    return groups
