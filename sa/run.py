"""python3 -m sa.run <PROPERTY> [--tier quick|thorough]

Decides one property from /repo's current source.  exit 0: it holds on everything analysed (listed known
findings aside); exit 1: VIOLATION line(s); exit 2: the analysis itself is broken (anchor gone, no answer)."""
import sys, os, json, time, re, traceback
import multiprocessing as mp
from . import ir
from .ir import AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.json")
EVID = os.path.join(HERE, "evidence")


class Ctx:
    """what a check is given: tier, cached programs, and a place to put its findings"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = []          # dict(rule, file, func, line, what, key, path)
        self.cov = {}
        self.assumptions = []
        self.notes = []
        self.broken = None
        self._prog = {}

    def prog(self, variant="main"):
        if variant not in self._prog: self._prog[variant] = ir.build(variant=variant)
        return self._prog[variant]

    def add(self, rule, file, func, line, what, key="", path=(), stack=None, variant="main"):
        self.viol.append(dict(rule=rule, file=file, func=func, line=line, what=what, key=str(key), path=list(path), stack=stack, variant=variant))

    def need(self, cond, msg):
        if not cond: raise AnalysisBroken(msg)


def fingerprint(v):
    return "%s|%s|%s|%s" % (v["rule"], v["file"], v["func"], re.sub(r":\d+", "", v["key"]))


def load_known(prop):
    d = json.load(open(KNOWN))
    return [k for k in d.get("findings", []) if k["property"] == prop]


def main(argv):
    if os.environ.get("PYTHONHASHSEED") != "0":      # set iteration order must not influence the analysis
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "sa.run"] + list(argv))
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import checks
    t0 = time.time()
    c = Ctx(prop, tier)
    spec = checks.CHECKS[prop]
    try:
        spec["run"](c)
    except AnalysisBroken as e: c.broken = str(e)
    except Exception:
        traceback.print_exc()
        c.broken = "internal error"
    known = {k["fingerprint"]: k for k in load_known(prop)}
    fresh, old = [], {}
    seen = set()
    for v in c.viol:
        fp = fingerprint(v)
        if fp in known:
            old[fp] = known[fp]
            continue
        if fp in seen: continue
        seen.add(fp)
        fresh.append(v)
    if c.broken:        # the violations found before it broke stand
        print("ANALYSIS-BROKEN: property=%s %s" % (prop, c.broken))
        if not fresh: return 2
    os.makedirs(EVID, exist_ok=True)
    cov = dict(c.cov)
    cov["explanation"] = spec["explain"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "other"), "coverage": cov,
          "assumptions": spec.get("assume", []) + c.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if old: ev["coverage"]["known_findings"] = [k["what"] for k in old.values()]
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, default=str)
    for n in c.notes: print("NOTE: " + n)
    print("%s: %s" % (prop, ", ".join("%s=%s" % (k, v) for k, v in c.cov.items() if isinstance(v, (int, float)))))
    for k in old.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if not fresh: return 0
    rp = os.path.join(EVID, "replay")
    os.makedirs(rp, exist_ok=True)
    for n, v in enumerate(fresh[:25]):
        f = os.path.join(rp, "%s-%d.txt" % (prop, n))
        with open(f, "w") as o:
            o.write("property %s\nrule %s\nwhere %s:%s in %s (build variant %s)\n%s\nfingerprint %s\n" % (
                prop, v["rule"], v["file"], v["line"], v["func"], v["variant"], v["what"], fingerprint(v)))
            if v.get("stack"): o.write("entry: %s\n" % v["stack"])
            if v["path"]: o.write("path:\n" + "\n".join("  " + str(p) for p in v["path"]) + "\n")
        print("  %s %s:%s (%s): %s" % (v["rule"], v["file"], v["line"], v["func"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (prop, f))
    return 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
