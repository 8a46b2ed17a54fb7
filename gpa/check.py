"""Runs one check: python3 -m gpa.check C01"""
import importlib, json, os, sys, time, traceback
from . import build, ir
from .build import AnalysisBroken

MODULES = {}


class Finding:
    """One violation. key identifies it independently of line numbers."""

    def __init__(self, rule, file, line, func, text, key):
        self.rule, self.file, self.line, self.func, self.text, self.key = rule, ir.rel(file), line, func, text, key

    def asdict(self):
        return dict(rule=self.rule, file=self.file, line=self.line, function=self.func, what=self.text, key=self.key)


class Result:
    def __init__(self):
        self.findings = []
        self.coverage = {}
        self.assumptions = []
        self.explanation = ""
        self.floors = []     # (what, measured, minimum)

    def add(self, rule, file, line, func, text, key=None):
        self.findings.append(Finding(rule, file, line, func, text, key or "%s|%s" % (rule, func)))

    def floor(self, what, measured, minimum):
        self.floors.append((what, measured, minimum))


def known_findings():
    """property -> {key: text}; lines 'known: property=C01 key=<key> :: <what fails>'."""
    out = {}
    path = os.path.join(build.VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if line.startswith("known: "):
                head, text = line[len("known: "):].split(" :: ", 1)
                prop, key = head.split(" ", 1)
                out.setdefault(prop[len("property="):], {})[key[len("key="):]] = text
    return out


def run(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("gpa.rules." + REGISTRY[pid])
    res = Result()
    getattr(mod, "check")(pid, res, tier)
    for what, n, lo in res.floors:
        if n < lo:
            raise AnalysisBroken("%s: only %d (expected at least %d): the rule no longer sees what it was confirmed on" % (what, n, lo))
    known = known_findings().get(pid, {})
    new = [f for f in res.findings if f.key not in known]
    old = [f for f in res.findings if f.key in known]
    evdir = os.path.join(build.VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=dict(res.coverage), assumptions=res.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    ev["coverage"]["explanation"] = res.explanation
    ev["coverage"]["floors"] = ["%s: %d (at least %d)" % x for x in res.floors]
    ev["coverage"]["known_findings"] = sorted({f.key for f in old})
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for f in old:
        if f.key not in seen:
            seen.add(f.key)
            print("KNOWN-FINDING: property=%s %s [%s:%d %s]" % (pid, known[f.key], f.file, f.line, f.func))
    rp = os.path.join(evdir, "replay", pid + ".json")
    if new:
        with open(rp, "w") as f:
            json.dump([x.asdict() for x in new], f, indent=1)
        for x in new[:40]:
            print("%s:%d: %s: [%s] %s" % (x.file, x.line, x.func, x.rule, x.text))
        if len(new) > 40:
            print("... and %d more in %s" % (len(new) - 40, rp))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print("%s: held; %s" % (pid, ", ".join("%s=%s" % (k, v) for k, v in res.coverage.items() if isinstance(v, (int, float)))))
    return 0


REGISTRY = {
    "C01": "race",
    "C02": "shapes",
    "C03": "shapes",
    "C04": "shapes",
    "C05": "shapes",
    "C06": "shapes",
    "C07": "pure",
    "C08": "cover",
    "C09": "shapes",
    "C10": "args",
    "C11": "args",
    "C12": "indep",
    "C13": "options",
    "C14": "state",
    "C15": "status",
    "C16": "roles",
    "C17": "missing",
    "C18": "choice", "C19": "ends",
}


def main():
    rc = 0
    ids = sys.argv[1:]
    if ids == ["all"]:
        ids = sorted(REGISTRY)
    for pid in ids:
        try:
            r = run(pid)
        except AnalysisBroken as e:
            print("%s: analysis broken: %s" % (pid, e))
            r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r)
    sys.exit(rc)


if __name__ == "__main__":
    main()
