"""Any state machine: behaviours out of it, replayed by a function, judged by its monitor."""
import importlib
from concurrent.futures import ThreadPoolExecutor
import quint, sessions
from fxio import unfx


def worker(a):
    module, step, steps, seed, init, replay = a
    mod, fn = replay.split(":")
    with ThreadPoolExecutor(max_workers=1) as ex:
        fut = ex.submit(quint.simulate, module, step, steps, seed, init)
        f = getattr(importlib.import_module(mod), fn)
        states = fut.result()[0]
    return len(states), f(states)


def explore(ctx, module, plans, replay, procs=8):
    jobs, n = [], 0
    for step, steps, inits in plans:
        for i in inits:
            n += 1
            jobs.append((module, step, steps, ctx.seeds(1, n)[0], i, replay))
    groups = []
    for k, g in sessions.parallel(worker, jobs, procs):
        ctx.add(k)
        ctx.count("machine_states", k)
        groups += g
    ctx.count("calls", sum(len(g) for g in groups))
    return groups


def judge(ctx, module, groups, names=None, **kw):
    seen = sessions.judge(ctx, module, groups, **kw)
    if names:
        ctx.extra["events_by_action"] = {a: k for a, k in zip(names, seen or []) if k}
    for g in groups[:3]:
        ctx.sample([d for _, d in g[:4]])
    return seen
