"""Fidelity (C01-C05) and law (C09-C12, C23) properties of the waveform models."""
import sessions
import machine

REGIONS = {
    "C01": ("d", ["inspiral", "intermediate", "merger-ringdown", "above-cutoff", "undecided"]),
    "C02": ("x", ["inspiral", "intermediate", "merger-ringdown", "above-cutoff", "undecided"]),
    "C03": ("t", ["per-body", "combined", "no-tides", "no-fref", "-"]),
    "C04": ("n", ["before-taper", "in-taper", "after-taper", "no-taper", "combined-tides"]),
    "C05": ("p", ["inspiral", "intermediate", "merger-ringdown", "above-cutoff", "undecided"]),
}
ACTIONS = ["New", "SetDist", "SetTc", "SetPhic", "SetIota", "SetFn", "SetFref", "Rescale", "Swap", "SetMode", "SetGrid", "SetDense", "Interlude"]


def fidelity(ctx):
    name, regions = REGIONS[ctx.prop]
    n, steps = (7, 45) if not ctx.thorough else (21, 400)
    groups = sessions.explore(ctx, [("step_" + ctx.prop, steps, ["init"] * n)])
    ctx.log("recorded", sum(len(g) for g in groups))
    for g in groups[:3]:
        ctx.sample(g[0][1])
    seen = sessions.judge(ctx, "trace_" + name, groups)
    ctx.extra["points_by_region"] = dict(zip(regions, seen))
    ctx.assume += ["fixed-point arithmetic of the specification (10^-50) is exact compared with double precision",
                   "binaries and frequencies are sampled by the session machine, not enumerated"]


D, X, T, N, P, ANY = "init_D", "init_X", "init_T", "init_N", "init_P", "init"
# (behaviour, steps, initial states) per property: one behaviour per initial state, more and longer ones when thorough
PLANS = {
    "C09": [("step_C09", 60, [D, X, T, N, P, N, X])],
    "C10": [("step_C10", 60, [D, X, T, N, P, N, X])],
    "C11": [("step_C11", 40, [X, N, P, D, T]), ("step_C11n", 24, [N, P, D, T]), ("step_C11s", 6, [X, N, P, D, T]), ("step_C09", 30, [ANY])],
    "C12": [("step_C12", 60, [D, X, T, N, P, N, X])],
    "C23": [("step_C23", 60, [D, X, T, N, D, N, X])],
}


def plans(ctx):
    if not ctx.thorough:
        return PLANS[ctx.prop]
    return [(step, 4 * steps, inits * 3) for step, steps, inits in PLANS[ctx.prop]]


def laws(ctx):
    groups = sessions.explore(ctx, plans(ctx))
    ctx.log("recorded", sum(len(g) for g in groups))
    for g in groups[:3]:
        ctx.sample([d for _, d in g[:3]])
    seen = sessions.judge(ctx, "trace_session", groups)
    ctx.extra["events_by_action"] = {a: k for a, k in zip(ACTIONS, seen) if k}


def limits(ctx):
    n, steps = (7, 50) if not ctx.thorough else (21, 400)
    groups = sessions.explore(ctx, [("step_C20", steps, ["init"] * n)])
    for g in groups[:3]:
        ctx.sample([d for _, d in g[:3]])
    seen = sessions.judge(ctx, "trace_limits", groups)
    ctx.extra["events_by_case"] = dict(zip(["taylorf2-tides", "tidal-limit", "tidal-nearby", "precessing-limit", "precessing-nearby"], seen))


def turns(ctx):
    n, steps = (7, 100) if not ctx.thorough else (21, 600)
    groups = sessions.explore(ctx, [("step_C24", steps, ["init_P"] * n)])
    for g in groups[:3]:
        ctx.sample([d for _, d in g[:3]])
    seen = sessions.judge(ctx, "trace_turns", groups)
    ctx.extra["events_by_action"] = dict(zip(["New", "Turn", "HalfTurn", "FullTurn", "Mirror"], seen))


def derivs(ctx):
    k, steps = (1, 12) if not ctx.thorough else (4, 12)
    plan = [("step_C14v", steps, [D, T] * k + [X] * k), ("step_C14w", steps, [P, N, T] * k), ("step_C14f", steps, [P, N] * k), ("step_C14r", steps, [D, T] * k)]
    groups = machine.explore(ctx, "session", plan, "replay_derivs:replay")
    ctx.log("recorded", sum(map(len, groups)))
    seen = machine.judge(ctx, "trace_derivs", groups)
    ctx.extra["derivatives_by_model"] = dict(zip("DXTNP", seen))


def single(ctx):
    k, steps = (1, 30) if not ctx.thorough else (4, 300)
    groups = machine.explore(ctx, "session", [("step_C21", steps, [X, N, P, D, T] * k)], "replay_single:replay")
    ctx.log("recorded", sum(map(len, groups)))
    seen = machine.judge(ctx, "trace_single", groups)
    ctx.extra["points_by_model"] = dict(zip("DXTNP", seen))


CHECKS = {p: fidelity for p in REGIONS}
CHECKS["C14"] = derivs
CHECKS["C21"] = single
CHECKS["C20"] = limits
CHECKS["C24"] = turns
CHECKS.update({p: laws for p in ("C09", "C10", "C11", "C12", "C23")})
