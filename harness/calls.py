"""From the specification's calls to the library's arguments, and from observations to events."""
import numpy as np
from fxio import fx, S
from quint import NAN
MODEL = {"D": 1, "X": 2, "T": 3, "N": 4, "P": 5}
FN = {"h": 0, "pol": 1, "mass": 2}
MODES = ["jit", "eager", "vmap", "jitvmap", "elem", "numpy", "jitfref", "other", "jacfwd", "jacrev", "vjacfwd", "vjacrev", "scalar", "fvmap", "threads"]
ACTS = {"New": 0, "SetDist": 1, "SetTc": 2, "SetPhic": 3, "SetIota": 4, "SetFn": 5, "SetFref": 6, "Rescale": 7, "Swap": 8,
        "SetMode": 9, "SetGrid": 10, "SetDense": 11, "Interlude": 12, "Enrich": 13, "Tide": 14,
        "Turn": 15, "HalfTurn": 16, "FullTurn": 17, "Mirror": 18}


def dbl(v):
    return v / S if abs(v) < 2 ** 53 else float(__import__("fractions").Fraction(v, S))


def num(x):
    """Recorded form of an observed number."""
    x = float(x)
    return fx(x) if np.isfinite(x) and abs(x) < 4e8 else NAN


class Call:
    """A call of the library, in doubles."""
    def __init__(self, c):
        b = c["b"]
        self.model, self.fn, self.mode, self.tilde, self.taper = c["model"], c["fn"], c["mode"], c["tilde"], c["taper"]
        if self.model == "P" and self.fn == "h":
            self.fn = "pol"
        for k in ("mc", "eta", "l1", "l2", "dist", "tc", "phic", "iota", "fref"):
            setattr(self, k, dbl(b[k]))
        self.s1, self.s2 = [dbl(x) for x in b["s1"]], [dbl(x) for x in b["s2"]]
        self.sc = c["sc"]
        self.idx = list(c["grid"])
        self.f = [dbl(c["univ"][k] * S // c["sc"]) for k in self.idx]
        self.dense = c["dense"]
        # component masses in double precision, larger first
        M = self.mc / self.eta ** 0.6
        dl = np.sqrt(max(0.0, 1 - 4 * self.eta))
        self.m1, self.m2 = 0.5 * M * (1 + dl), 0.5 * M * (1 - dl)

    def params(self):
        if self.model == "P":
            a = [self.m1, self.m2] if self.fn == "mass" else [self.mc, self.eta]
            return a + self.s1 + self.s2 + [self.dist, self.tc, self.phic, self.iota]
        p = [self.mc, self.eta, self.s1[2], self.s2[2]]
        if self.model in "TN":
            p += [self.l1, self.l2]
        p += [self.dist, self.tc, self.phic]
        return p + [self.iota] if self.fn == "pol" else p

    def describe(self):
        return dict(model=self.model, fn=self.fn, mode=self.mode, tilde=self.tilde, taper=self.taper, params=self.params(),
                    fref=self.fref, f=list(self.f), dense=self.dense)

    def evaluate(self):
        import impl
        if not self.dense:
            return impl.evaluate(self.model, self.fn, self.mode, self.tilde, self.taper, self.params(), self.f, self.fref)
        lo, hi = min(self.f) * (0.0 if self.dense % 2 else 0.7), max(self.f) * 1.2
        grid = np.sort(np.concatenate([np.linspace(lo, hi, self.dense), self.f]))
        pos = np.searchsorted(grid, self.f)
        out, flag = impl.evaluate(self.model, self.fn, self.mode, self.tilde, self.taper, self.params(), grid, self.fref)
        return [o[pos] for o in out], flag

    def event(self, act, sid, out, flag):
        n = len(self.f)
        h = [ACTS[act], sid, MODEL[self.model], FN[self.fn], MODES.index(self.mode), int(self.tilde), int(self.taper), n]
        h += [fx(x) for x in [self.mc, self.eta] + self.s1 + self.s2 + [self.l1, self.l2, self.dist, self.tc, self.phic, self.iota, self.fref]]
        h += [flag, fx(self.m1), fx(self.m2), 0]
        assert len(h) == 27
        ok = all(o.shape == (n,) for o in out) and len(out) == (1 if self.fn == "h" else 2)
        obs = []
        for k in range(n):
            for o in out:
                obs += [num(o[k].real), num(o[k].imag)] if ok else [NAN, NAN]
        if not ok:
            obs = [NAN] * (n * (2 if self.fn == "h" else 4))
        return h + self.idx + [fx(x) for x in self.f] + obs
