"""What a property check is made of: a Rule collects what was analysed and what violates."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from interp import Interp, Budget
from program import Program
from terms import show

VERIF = build.VERIF


class Rule:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations = []          # (key, message, construct)
        self.obligations = 0
        self.discharged = 0
        self.items = {}               # kind -> list of constructs analysed
        self.rules = []               # rule texts
        self.runs = []
        self._engine = {}
        self.assumptions = []

    # -- program access
    def load(self):
        f, m = build.prepare()
        self.prog = Program(f, "nargun")
        self.models = Program(m, "vmodels")
        from graph import Graph
        self.graph = Graph(self.prog)
        return self

    def engine(self, key, args=None, setup=None, tag=None, conf=None, max_time=600, max_steps=400000):
        """abstract interpretation of one root, memoised"""
        k = (key, tag)
        if k not in self._engine:
            I = Interp(self.prog, self.models, max_steps=max_steps, max_time=max_time)
            if conf:
                conf(I)
            t = time.time()
            I.run(key, args, setup)
            self.runs.append({"root": key, "tag": tag, "steps": I.steps, "contexts": len(I.ctxs), "functions": len(I.inlined),
                              "partitions": sum(len(v) for v in I.states.values()), "seconds": round(time.time() - t, 2)})
            self._engine[k] = I
        return self._engine[k]

    # -- reporting
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def oblige(self, ok, key, message, construct):
        """one proof obligation"""
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            self.violate(key, message, construct)
        return ok

    def violate(self, key, message, construct=""):
        if not any(v[0] == key for v in self.violations):
            self.violations.append((key, message, str(construct)))

    def cover(self, kind, item):
        l = self.items.setdefault(kind, [])
        if item not in l:
            l.append(item)

    # -- common rule: no reachable panic
    def no_panic(self, I, root, only=None, skip=None):
        """every panic condition reachable from the root is discharged"""
        seen = {}
        for (loc, kind), o in sorted(I.oblig.items(), key=str):
            if only and not only(loc, kind, o):
                continue
            if skip and skip(loc, kind, o):
                continue
            fn = loc[2]
            self.obligations += 1
            self.cover("panic conditions", "%s:%d %s" % (os.path.basename(loc[0]), loc[1], kind))
            if o["ok"]:
                self.discharged += 1
                continue
            n = seen[(fn, kind)] = seen.get((fn, kind), 0) + 1
            what = o["bad"][0][0] if o["bad"] else ""
            path = " > ".join(short(x) for x in (o["bad"][0][2] if o["bad"] else []))
            self.violate("panic:%s:%s" % (short(fn), kind), "possible panic (%s: %s) reached through %s" % (kind, what[:160], path),
                         "%s:%d in %s" % (loc[0], loc[1], fn))
        for f in sorted(I.inlined):
            self.cover("functions", f)


def short(k):
    k = k.replace("::{impl#", "::{").replace("::{closure#0}", "")
    return k.split("::")[-1] if k.count("::") < 1 else "::".join(k.split("::")[-2:])


def known_findings():
    """known-findings.txt: 'finding: property=<id> key=<stable key> | text' suppresses exactly that key;
    'fixed: property=<id> <commit> <text>' suppresses nothing."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property="):
                head, _, text = line.partition(" | ")
                pid = head.split("property=")[1].split()[0]
                key = head.split(" key=", 1)[1]
                out.setdefault(pid, {})[key] = text
    return out


def main(pid, tier):
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    r = Rule(pid, tier)
    try:
        r.load()
        mod = importlib.import_module("rules." + pid)
        mod.check(r)
    except build.BuildError as e:
        print("cannot analyse: the tree does not build\n%s" % e)
        return 2
    except Budget as e:
        print("no answer: %s" % e)
        return 2
    known = known_findings().get(pid, {})
    new = [v for v in r.violations if v[0] not in known]
    old = [v for v in r.violations if v[0] in known]
    replays = []
    for key, msg, where in new:
        h = hashlib.sha256(key.encode()).hexdigest()[:10]
        p = os.path.join(ev, "%s-%s.txt" % (pid, h))
        with open(p, "w") as f:
            f.write("property %s\nkey %s\nconstruct %s\n%s\n\nre-run: python3 /verif/check.py %s\n" % (pid, key, where, msg, pid))
        replays.append(p)
    for key, msg, where in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[key] or msg))
    for (key, msg, where), p in zip(new, replays):
        print("%s: %s" % (where, msg))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    level = getattr(mod, "LEVEL", "other")
    doc = " ".join((mod.__doc__ or "").split())
    n_items = {k: len(v) for k, v in r.items.items()}
    cov = {
        "explanation": doc,
        "rules": r.rules,
        "obligations": r.obligations,
        "discharged": r.discharged,
        "known_findings": len(old),
        "analysed_counts": n_items,
        "analysed": {k: v[:60] for k, v in r.items.items()},
        "engine_runs": r.runs,
        "assumptions": r.assumptions + getattr(mod, "ASSUMPTIONS", []),
        "source_tree": build.REPO,
        "checker_cmd": "python3 /verif/check.py %s" % pid,
        "trusted_base": ["rustc nightly MIR and callee resolution (driver/)", "abstract interpreter and library models (sa/, models/)"],
    }
    d = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
         "wall_s": round(time.time() - t0, 2), "violations": [{"key": k, "message": m, "construct": w, "replay": p}
                                                               for (k, m, w), p in zip(new, replays)]}
    tmp = os.path.join(ev, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.rename(tmp, os.path.join(ev, pid + ".json"))
    print("%s: %d obligations, %d discharged, %d violation(s), %d known finding(s), %.1fs" % (
        pid, r.obligations, r.discharged, len(new), len(old), time.time() - t0))
    return 1 if new else 0
