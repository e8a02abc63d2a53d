"""Running Quint: behaviours out of a specification, recorded traces into one."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from fxio import fx, S

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
BASE = 10 ** 60
OFF = 5 * 10 ** 59
NAN = 4 * 10 ** 59          # how a non-finite observation is recorded (law.qnt: HUGE)


class SpecError(Exception):
    """The checker itself could not reach a verdict."""


def scratch():
    return tempfile.mkdtemp(prefix="ripple-verif-")


def itf_value(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#tup" in v:
            return tuple(itf_value(x) for x in v["#tup"])
        if "#map" in v:
            return {itf_value(k): itf_value(x) for k, x in v["#map"]}
        if "#set" in v:
            return [itf_value(x) for x in v["#set"]]
        return {k: itf_value(x) for k, x in v.items() if k != "#meta"}
    if isinstance(v, list):
        return [itf_value(x) for x in v]
    return v


def run(args, cwd, timeout):
    p = subprocess.run(["quint"] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def stage(d, files):
    """The specification in a scratch directory, with some files replaced."""
    for f in os.listdir(SPEC):
        if f.endswith(".qnt") and f not in files:
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for name, text in files.items():
        open(os.path.join(d, name), "w").write(text)


def simulate(module, step, steps, seed, init="init", timeout=800, invariant=None, samples=1, files=None):
    """One behaviour of the specification: the list of its states."""
    d = scratch()
    try:
        if files:
            stage(d, files)
        out = os.path.join(d, f"o_{module}_{step}_{seed}.json")
        args = ["run", os.path.join(d if files else SPEC, module + ".qnt"), "--init=" + init, "--step=" + step, f"--max-steps={steps}",
                f"--max-samples={samples}", f"--seed={seed}", "--out-itf=" + out, "--verbosity=1"]
        if invariant:
            args.append("--invariant=" + invariant)
        for attempt in (0, 1):
            rc, txt = run(args, d, timeout)
            if os.path.exists(out):
                break
        else:
            raise SpecError(f"quint run {module} failed ({rc}): {txt[-800:]}")
        states = [itf_value(s) for s in json.load(open(out))["states"]]
        return states, rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


def behaviours(module, step, steps, seeds):
    """Several independent behaviours, generated in parallel."""
    with ThreadPoolExecutor(max_workers=8) as ex:
        return [r[0] for r in ex.map(lambda s: simulate(module, step, steps, s), seeds)]


def pack(nums):
    """A list of integers as one number the specification unpacks (60 decimal digits each)."""
    digits = []
    for n in reversed(nums):
        if not -OFF < n < OFF:
            raise ValueError(f"value out of range for the trace format: {n}")
        digits.append(str(n + OFF).zfill(60))
    return int("".join(digits)) if digits else 0


sys.set_int_max_str_digits(0)


def trace_module(events, extra=""):
    rows = ",\n    ".join(f"unpack({len(e)}, {pack(e)})" for e in events)
    return ("module trace_data {\n"
            "  pure def unpack(n: int, v: int): List[int] =\n"
            "    range(0, n).foldl((v, []), (a, _k) => (a._1 / 10^60, a._2.append(a._1 % 10^60 - 5 * 10^59)))._2\n"
            f"{extra}  pure val EVENTS: List[List[int]] = [\n    {rows}]\n}}\n")


def validate_one(module, events, tol=0, extra="", files=None, timeout=800):
    """Feeds recorded events to a monitor; returns its final state."""
    d = scratch()
    try:
        stage(d, dict(files or {}, **{"trace_data.qnt": trace_module(events, f"  pure val TOL = {tol}\n" + extra)}))
        out = os.path.join(d, "verdict.json")
        for attempt in (0, 1):
            rc, txt = run(["run", os.path.join(d, module + ".qnt"), f"--max-steps={len(events)}", "--max-samples=1", "--seed=1",
                           "--out-itf=" + out, "--verbosity=1"], d, timeout)
            if os.path.exists(out):
                break
        else:
            raise SpecError(f"quint run {module} failed ({rc}): {txt[-1500:]}")
        states = json.load(open(out))["states"]
        last = itf_value(states[-1])
        if last["l"] != len(events):
            raise SpecError(f"{module} stopped after {last['l']} of {len(events)} events: {txt[-800:]}")
        last["_states"] = len(states)
        return last
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(module, groups, **kw):
    """Validates groups of events (each group is kept together, in order) on parallel monitors.
    Returns a list of (list of (group index, events) , final state)."""
    n = max(1, min(7, len(groups)))
    shards = [[] for _ in range(n)]
    size = [0] * n
    for gi, g in sorted(enumerate(groups), key=lambda x: -len(x[1])):
        k = size.index(min(size))
        shards[k].append((gi, g))
        size[k] += len(g)
    shards = [sorted(s) for s in shards if s]

    def one(s):
        ev = [e for _, g in s for e in g]
        return s, validate_one(module, ev, **kw)
    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(one, shards))
