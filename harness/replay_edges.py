"""Close looks at the seams of the waveform models."""
import numpy as np
from calls import Call, dbl, num
from fxio import fx
import sessions

DELTAS = [3e-4, 3e-5, 3e-6]
STEPS = [-3, -2, -1, 1, 2, 3]
ULPS = [-8192, -1024, -256, -64, -16, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 16, 64, 256, 1024, 8192]


def ulp(x, k):
    return x + k * np.spacing(x)


def replay(states):
    groups = []
    for st in states:
        if st["act"] == "init":
            continue
        k = st["look"]
        c = Call(dict(k["call"], univ=[], grid=[]))
        f = [dbl(x) for x in k["scan"]]
        for b in k["inner"]:
            x = dbl(b)
            f += [ulp(x, j) for j in ULPS] + [x * (1 + s * d) for d in DELTAS for s in STEPS]
        f += [ulp(dbl(k["cut"]), j) for j in ULPS]
        c.f, c.idx = [float(x) for x in f], [0] * len(f)
        out, flag, err = sessions.safely(c, st)
        groups.append([(c.event("New", 0, out, flag), dict(c.describe(), f="%d frequencies" % len(f), error=err))])
    return groups
