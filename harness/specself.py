"""Checks of the specification itself: laws proved by Apalache, sensitivity of the monitors, unit tests.
   python3 harness/specself.py          everything
The thorough tier of a property runs the part that concerns it."""
import contextlib, os, shutil, threading
from concurrent.futures import ThreadPoolExecutor
import quint

APALACHE = threading.Lock()
ABS = "abs/session_abs.qnt"
FAULTS = range(1, 14)
# (what, arguments, the outcome expected)
LAWS = [(f"laws hold for every request (unbounded)", ["verify", ABS, "--init=initAny", "--invariant=accepted", "--max-steps=0"], True),
        (f"laws reject a wrong sign for some request", ["verify", ABS, "--init=initAny_2", "--invariant=accepted", "--max-steps=0"], False),
        (f"no order of actions is rejected (2 steps)", ["verify", ABS, "--invariant=accepted", "--max-steps=2"], True),
        (f"no order of actions is rejected (long, sampled)", ["run", ABS, "--invariant=accepted", "--max-steps=60", "--max-samples=2000", "--seed=1"], True),
        ] + [(f"fault {k} is rejected", ["run", ABS, f"--init=init_{k}", "--invariant=accepted", "--max-steps=20", "--max-samples=2000", "--seed=1"], False) for k in FAULTS]
PADS = [("the padded grid is complete (4 steps)", ["verify", "pads.qnt", "--invariant=invariant", "--max-steps=4"], True)]


def machine(name, step="step"):
    return [(f"invariant of {name}.{step} (sampled)", ["run", name + ".qnt", "--step=" + step, "--invariant=invariant", "--max-steps=200", "--max-samples=20", "--seed=1"], True)]


def closed(prop, wrongs):
    """the loop closed inside the specification: its own waveforms are accepted, those of a mistaken library are not"""
    args = lambda w: ["run", "closed.qnt", f"--init=begin{w}", "--step=loop_" + prop, "--invariant=accepted", "--max-steps=60", "--max-samples=1", "--seed=1"]
    return [(f"the specified waveforms obey the laws ({prop})", args(0), True)] + [(f"mistake {w} is noticed ({prop})", args(w), False) for w in wrongs]


TESTS = [(f"unit tests of {m}", ["test", m + ".qnt"], True) for m in ("fx_test", "tables_test")]
PARTS = {"C09": LAWS + closed("C09", (1, 2, 3, 8)), "C10": LAWS + closed("C10", (1, 3, 4)), "C11": LAWS + closed("C11", (9,)),
         "C12": LAWS + closed("C12", (7,)), "C23": LAWS + closed("C23", (2,)), "C24": closed("C24", (2, 5, 6, 8)), "C25": machine("remnant"),
         "C17": PADS + machine("pads"), "C18": machine("samplers"),
         "C07": machine("convert", "step_C07"), "C08": machine("convert", "step_C08"), "C19": machine("dispatch"),
         "C01": TESTS, "C02": TESTS, "C03": TESTS, "C04": TESTS, "C05": TESTS}


def holds(item):
    what, args, expected = item
    d = quint.scratch()
    try:
        with APALACHE if args[0] == "verify" else contextlib.nullcontext():      # one server at a time
            rc, txt = quint.run([args[0], os.path.join(quint.SPEC, args[1])] + args[2:] + ["--verbosity=1"] * (args[0] == "run"), d, 1500)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if (rc == 0) != expected or (rc and "iolat" not in txt and "ounterexample" not in txt):
        raise quint.SpecError(f"{what}: rc={rc} {txt[-600:]}")
    return what


def check(ctx):
    """Raises SpecError when the specification does not have its own properties; lists them in the evidence otherwise."""
    items = PARTS.get(ctx.prop, [])
    with ThreadPoolExecutor(max_workers=4) as ex:
        ctx.extra["specification"] = list(ex.map(holds, items))


if __name__ == "__main__":
    seen = set()
    for p in sorted(PARTS):
        for i in PARTS[p]:
            if i[0] not in seen:
                seen.add(i[0])
                print("ok", holds(i), flush=True)
