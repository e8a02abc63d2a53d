"""Calls in the library's default precision: run in a process that does not select double precision."""
import os
os.environ["VERIF_X64"] = "0"
import numpy as np
from calls import Call
import sessions


def replay(states):
    groups = []
    for st in states:
        if st["act"] == "init":
            continue
        c = Call(st["call"])
        r = lambda x: float(np.float32(x))
        for k in ("mc", "eta", "l1", "l2", "dist", "tc", "phic", "iota", "fref"):
            setattr(c, k, r(getattr(c, k)))
        c.s1, c.s2, c.f = [r(x) for x in c.s1], [r(x) for x in c.s2], [r(x) for x in c.f]
        M, dl = c.mc / c.eta ** 0.6, np.sqrt(max(0.0, 1 - 4 * c.eta))
        c.m1, c.m2 = r(0.5 * M * (1 + dl)), r(0.5 * M * (1 - dl))
        if c.mode != "jit" and c.model == "X":
            c.mode = "jit"
        out, _, err = sessions.safely(c, st)
        flag = 0 if err or all(o.dtype == np.complex64 for o in out) else 1
        groups.append([(c.event("New", st["sid"], out, flag), dict(c.describe(), act=st["act"], error=err, dtype=str(out[0].dtype)))])
    return groups
