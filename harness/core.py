"""What every check has in common: collecting verdicts, known findings, evidence, exit code."""
import json, os, sys, time, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.extra, self.assume = [], [], {}, []
        self.level = "model_checking"

    @property
    def thorough(self):
        return self.tier == "thorough"

    def seeds(self, n, salt=0):
        return [1 + (self.seed * 1000003 + salt * 7919 + k * 104729) % (2 ** 31) for k in range(n)]

    def add(self, states, transitions=None, traces=0):
        self.states += states
        self.transitions += max(0, states - 1) if transitions is None else transitions
        self.traces += traces

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violate(self, clause, detail, key=None):
        """A violation. key identifies the failing input or call site for the known-findings file."""
        self.viol.append({"clause": clause, "detail": detail, "key": key or clause})

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, file=sys.stderr, flush=True)


def known(prop):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("status", "known") == "known" and d["property"] == prop:
                    out[d["key"]] = d["what"]
    return out


def finish(ctx):
    k = known(ctx.prop)
    for key, what in k.items():
        print(f"KNOWN-FINDING: property={ctx.prop} {what}")
    new = [v for v in ctx.viol if v["key"] not in k]
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples or ["(none)"]}
    cov.update(ctx.extra)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.level, "coverage": cov,
          "assumptions": ctx.assume, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w"), indent=1, default=str)
    if not new:
        print(f"OK property={ctx.prop} states={ctx.states} transitions={ctx.transitions} traces={ctx.traces} "
              + " ".join(f"{a}={b}" for a, b in ctx.extra.items() if isinstance(b, (int, float))))
        return 0
    path = os.path.join(ROOT, "evidence", "replay", f"{ctx.prop}.json")
    json.dump({"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "violations": new[:int(os.environ.get("VERIF_KEEP", "50"))]}, open(path, "w"), indent=1, default=str)
    for v in new[:5]:
        print(f"  {v['clause']}: {json.dumps(v['detail'], default=str)[:700]}")
    print(f"VIOLATION property={ctx.prop} replay={os.path.relpath(path, ROOT)}")
    return 1
