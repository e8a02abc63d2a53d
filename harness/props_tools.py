"""Properties of the library's tools: conversions, samplers, noise, overlaps, padding, dispatcher."""
import machine
import replay_convert
import replay_tides
import replay_burst
import replay_noise
import sessions
import replay_pads
import replay_overlap
import replay_dispatch
import replay_samplers
import replay_remnant
import replay_gradtools


def convert(ctx):
    n, steps = (7, 250) if not ctx.thorough else (21, 1500)
    groups = machine.explore(ctx, "convert", [("step_" + ctx.prop, steps, ["init"] * n)], "replay_convert:replay")
    ctx.log("recorded", sum(map(len, groups)))
    machine.judge(ctx, "trace_convert", groups, replay_convert.NAMES, tol=int(ctx.prop == "C08"))


def tides(ctx):
    n, steps = (7, 150) if not ctx.thorough else (21, 1500)
    groups = machine.explore(ctx, "tides", [("step", steps, ["init"] * n)], "replay_tides:replay")
    ctx.log("recorded", sum(map(len, groups)))
    machine.judge(ctx, "trace_tides", groups, replay_tides.NAMES)


def burst(ctx):
    n, steps = (7, 120) if not ctx.thorough else (21, 1500)
    groups = machine.explore(ctx, "burst", [("step", steps, ["init"] * n)], "replay_burst:replay")
    ctx.log("recorded", sum(map(len, groups)))
    machine.judge(ctx, "trace_burst", groups, replay_burst.NAMES)


def overlap(ctx):
    n, steps = (7, 80) if not ctx.thorough else (21, 1000)
    groups = machine.explore(ctx, "overlap", [("step", steps, ["init"] * n)], "replay_overlap:replay")
    ctx.log("recorded", sum(map(len, groups)))
    machine.judge(ctx, "trace_overlap", groups, replay_overlap.NAMES)


def pads(ctx):
    k = 1 if not ctx.thorough else 6
    groups = machine.explore(ctx, "pads", [("step", 150 * k, ["init"] * 4), ("step_large", 40 * k, ["init"] * 3)], "replay_pads:replay")
    ctx.log("recorded", sum(map(len, groups)))
    machine.judge(ctx, "trace_pads", groups, replay_pads.NAMES)


def noise(ctx):
    from fxio import unfx
    steps = 40 if not ctx.thorough else 600
    jobs = [(c, steps, s) for c, s in zip(replay_noise.CURVES, ctx.seeds(7))]
    kinds = {}
    for curve, k, groups, st in sessions.parallel(replay_noise.work, jobs):
        ctx.add(k)
        ctx.add(st["_states"], traces=1)
        ctx.count("readings", st["points"])
        kinds[curve] = dict(zip(["outside", "node", "between", "formula"], st["seen"]))
        ctx.sample(groups[0][1][1])
        for b in st["bad"]:
            ctx.violate(b["clause"], dict(groups[0][b["ev"]][1], point=b["k"], got=unfx(b["got"]), limit=unfx(b["limit"])))
    ctx.extra["readings_by_kind"] = kinds


def samplers(ctx):
    n, steps = (7, 90) if not ctx.thorough else (21, 900)
    groups = machine.explore(ctx, "samplers", [("step", steps, ["init"] * n)], "replay_samplers:replay")
    ctx.log("recorded", sum(map(len, groups)))
    machine.judge(ctx, "trace_samplers", groups, replay_samplers.NAMES)


def dispatch(ctx):
    k = 1 if not ctx.thorough else 8
    groups = machine.explore(ctx, "dispatch", [("step_slow", 12 * k, ["init"] * 3), ("step", 45 * k, ["init"] * 4)], "replay_dispatch:replay")
    ctx.log("recorded", sum(map(len, groups)))
    machine.judge(ctx, "trace_dispatch", groups, replay_dispatch.ACTS)


def remnant(ctx):
    n, steps = (7, 150) if not ctx.thorough else (21, 1500)
    groups = machine.explore(ctx, "remnant", [("step", steps, ["init"] * n)], "replay_remnant:replay")
    ctx.log("recorded", sum(map(len, groups)))
    machine.judge(ctx, "trace_remnant", groups, replay_remnant.NAMES)


def gradtools(ctx):
    n, steps = (7, 160) if not ctx.thorough else (21, 1500)
    groups = machine.explore(ctx, "gradtools", [("step", steps, ["init"] * n)], "replay_gradtools:replay")
    ctx.log("recorded", sum(map(len, groups)))
    machine.judge(ctx, "trace_gradtools", groups, replay_gradtools.NAMES)


CHECKS = {"C26": gradtools, "C25": remnant, "C19": dispatch, "C18": samplers, "C15": noise, "C17": pads, "C16": overlap, "C06": burst, "C07": convert, "C08": convert, "C22": tides}


def edges(ctx):
    reps, steps = (2, 14) if not ctx.thorough else (6, 120)
    groups = machine.explore(ctx, "edges", [("step", steps, ["init_X", "init_D", "init_N", "init_P"] * reps)], "replay_edges:replay")
    seen = machine.judge(ctx, "trace_edges", groups)
    ctx.extra["seen"] = dict(zip(["below-cutoff", "above-cutoff", "seams", "beyond-extremal-remnant"], seen))


CHECKS["C13"] = edges
