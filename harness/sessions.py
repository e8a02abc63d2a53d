"""Session behaviours: generated by the specification, replayed into the library, judged by the specification."""
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import numpy as np
import quint
from fxio import unfx
from calls import Call


def safely(call, c):
    """Evaluates; an exception of the library is an observation, not an error of the check."""
    try:
        out, flag = call.evaluate()
        return [np.asarray(o) for o in out], flag, None
    except Exception as e:              # noqa: BLE001
        n = len(call.f)
        return [np.full(n, np.nan + 0j)] * (1 if call.fn == "h" else 2), 2, f"{type(e).__name__}: {e}"[:300]


def replay(behaviour):
    """Replays one behaviour; a list of sessions, each a list of (event, call description)."""
    groups, sid = [], None
    for st in behaviour:
        if st["act"] == "init":
            continue
        c = Call(st["call"])
        if st["act"] == "Interlude":
            interlude(st["call"])
        out, flag, err = safely(c, st)
        if st["sid"] != sid:
            sid = st["sid"]
            groups.append([])
        groups[-1].append((c.event(st["act"], st["sid"], out, flag), dict(c.describe(), act=st["act"], error=err)))
    return groups


def worker(a):
    """One behaviour of the specification, generated and replayed in a process of its own."""
    step, steps, seed, init = a
    with ThreadPoolExecutor(max_workers=1) as ex:
        fut = ex.submit(quint.simulate, "session", step, steps, seed, init)
        import impl  # noqa: F401
        states = fut.result()[0]
    return len(states), replay(states)


def parallel(fn, args, procs=8):
    """Maps in fresh processes (the library's caches and compiled programs are per process)."""
    if len(args) == 1:
        return [fn(args[0])]
    import multiprocessing as mp
    with ProcessPoolExecutor(max_workers=min(procs, len(args)), mp_context=mp.get_context("spawn")) as ex:
        return list(ex.map(fn, args))


def explore(ctx, plans):
    """Behaviours of the session machine, replayed; the recorded sessions.
    plans: (step, number of steps, kinds of initial state) -- one behaviour per initial state."""
    jobs, n = [], 0
    for step, steps, inits in plans:
        for i in inits:
            n += 1
            jobs.append((step, steps, ctx.seeds(1, n)[0], i))
    jobs.sort(key=lambda j: "X" not in j[3])      # slow compilations first
    groups = []
    for k, g in parallel(worker, jobs):
        ctx.add(k)
        ctx.count("session_states", k)
        groups += g
    ctx.count("calls", sum(len(g) for g in groups))
    return groups


def interlude(c):
    """Other models, for the same binary and grid, between a request and its repetition."""
    for m in "DXNTP":
        if m != c["model"]:
            d = dict(c, grid=list(range(len(c["univ"]))), model=m, fn="h" if m != "P" else "pol", mode="eager" if m == "T" else "jit", tilde=False, dense=0)
            d["b"] = dict(c["b"], s1=(0, 0, c["b"]["s1"][2]), s2=(0, 0, c["b"]["s2"][2]))
            safely(Call(d), None)


def judge(ctx, module, groups, tol=0, **kw):
    """Feeds recorded sessions to a monitor and turns its verdicts into violations."""
    res = quint.validate(module, [[e for e, _ in g] for g in groups], tol=tol, **kw)
    seen = None
    for shard, st in res:
        flat = [(gi, k) for gi, g in shard for k in range(len(g))]
        for b in st["bad"]:
            gi, k = flat[b["ev"]]
            ctx.violate(b["clause"], dict(session=[d for _, d in groups[gi][:k + 1]], point=b["k"],
                                          got=unfx(b["got"]), limit=unfx(b["limit"])))
        ctx.add(st["_states"], traces=len(shard))
        ctx.count("points", st["points"])
        seen = st["seen"] if seen is None else [a + b for a, b in zip(seen, st["seen"])]
    return seen
