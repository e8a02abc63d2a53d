"""Derivatives of the strain with respect to every parameter and to frequency, by automatic differentiation."""
import numpy as np
from calls import Call, num
from quint import NAN
_fns = {}


def real_parts(model, fn, tilde, taper, fref):
    import impl
    import jax.numpy as jnp
    g = impl.bound(model, fn, tilde, taper)

    def out(p, f, fr):
        o = g(f, p, fr if model != "T" else fref)
        o = o if isinstance(o, (tuple, list)) else (o,)
        return jnp.stack([x for c in o for x in (c.real, c.imag)])
    return out


def derivative(c):
    """(components, parameters + 1, frequencies)"""
    import jax
    import jax.numpy as jnp
    key = (c.model, c.fn, c.tilde, c.taper, c.mode, c.fref if c.model == "T" else None)
    if key not in _fns:
        out = real_parts(*key[:4], key[5])
        if c.mode.endswith("fwd"):
            def both(p, f, fr):
                return jax.jacfwd(out)(p, f, fr), jax.jvp(lambda x: out(p, x, fr), (f,), (jnp.ones_like(f),))[1]
        else:
            def both(p, f, fr):
                return jax.jacrev(out)(p, f, fr), jax.jacrev(lambda x: out(p, x, fr).sum(-1))(f)
        g = jax.vmap(both, in_axes=(0, None, None)) if c.mode[0] == "v" else both
        _fns[key] = g if c.model == "T" else jax.jit(g)
    p, f = jnp.array(c.params()), jnp.array(c.f)
    if c.mode[0] == "v":
        q = jnp.stack([p, p, p]).at[0, 0].multiply(0.83).at[2, 1].multiply(0.9)
        a, b = (x[1] for x in _fns[key](q, f, c.fref))
    else:
        a, b = _fns[key](p, f, c.fref)
    return np.concatenate([np.moveaxis(np.asarray(a), 2, 1), np.asarray(b)[:, None, :]], axis=1)


def replay(states):
    groups = []
    for st in states:
        if st["act"] == "init":
            continue
        c = Call(st["call"])
        n, err = len(c.f), None
        npar, ncomp = len(c.params()) + 1, 2 if c.fn == "h" else 4
        try:
            d = derivative(c)
            assert d.shape == (ncomp, npar, n), d.shape
        except Exception as e:              # noqa: BLE001
            d, err = np.full((ncomp, npar, n), np.nan), f"{type(e).__name__}: {e}"[:300]
        ev = c.event("New", st["sid"], [np.zeros(n, complex)] * (ncomp // 2), 0)
        ev = ev[:27 + 2 * n] + [num(d[q, j, k]) for j in range(npar) for k in range(n) for q in range(ncomp)]
        groups.append([(ev, dict(c.describe(), act=st["act"], error=err))])
    return groups
