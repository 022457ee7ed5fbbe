#!/usr/bin/env python3
"""Run one property's static check:  check.py <ID> [--tier quick|thorough]

Exit 0: the property's rules hold on everything analysed (known findings are
printed).  Exit 1: a VIOLATION line names the replay file with the details.
"""
import importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.path.insert(0, VERIF)


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.viol = {}          # key -> text
        self.obl = {}           # group -> [n obligations, n discharged]
        self.samples = {}
        self.notes = []
        self.assumptions = []
        self.analysed = {}

    def bad(self, key, text, **more):
        """a violated instance; key carries no line numbers"""
        if key not in self.viol:
            self.viol[key] = dict(text=text, **more)

    def ok(self, group, what=None, n=1):
        o = self.obl.setdefault(group, [0, 0])
        o[0] += n
        o[1] += n
        if what is not None:
            s = self.samples.setdefault(group, [])
            if len(s) < 4 and what not in s:
                s.append(what)

    def fail(self, group, key, text, **more):
        o = self.obl.setdefault(group, [0, 0])
        o[0] += 1
        self.bad(key, text, **more)

    def check(self, group, cond, key, text, what=None, **more):
        if cond:
            self.ok(group, what)
        else:
            self.fail(group, key, text, **more)
        return cond

    def floor(self, group, n):
        """fail closed when fewer instances were found than were confirmed by hand"""
        have = self.obl.get(group, [0, 0])[0]
        if have < n:
            self.bad("floor:%s" % group, "only %d instances of rule %r were found; at least %d are expected" % (have, group, n))


def known_findings():
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("finding: "):
                head, _, text = l[len("finding: "):].partition(" | ")
                d = {}
                prop, _, key = head.partition(" key=")
                out[(prop.split("=")[1], key.strip())] = text
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import facts
    from mir import Missing
    R = Report(prop, tier)
    mod = importlib.import_module("checks." + prop.lower())
    try:
        mod.run(R)
    except facts.FactError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(3)
    except Missing as e:
        R.bad("anchor:%s" % e, "an anchor of the rule is missing: %s" % e)
    except Exception as e:
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        R.bad("analysis:%s" % type(e).__name__, "the analysis could not be completed: %s" % e, trace=tb)
    kn = known_findings()
    new = {}
    for k, v in R.viol.items():
        t = kn.get((prop, k))
        if t is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
        else:
            new[k] = v
    obl = sum(o[0] for o in R.obl.values())
    dis = sum(o[1] for o in R.obl.values())
    level = getattr(mod, "LEVEL", "other")
    cov = {
        "explanation": mod.EXPLANATION,
        "rules": {g: {"instances": o[0], "holding": o[1], "examples": R.samples.get(g, [])} for g, o in sorted(R.obl.items())},
        "analysed": R.analysed,
        "notes": R.notes,
        "known_findings": [k for k in R.viol if (prop, k) in kn],
    }
    if level == "proof":
        cov.update(obligations=obl, discharged=dis, checker_cmd="python3 check.py %s --tier %s" % (prop, tier),
                   trusted_base=["rustc front end (MIR)", "tools/absint.py", "checks/%s.py" % prop.lower()])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + R.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(VERIF, "evidence", prop + ".violation.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1, default=str)
        for k, v in list(new.items())[:40]:
            print("  [%s] %s" % (k, v["text"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    print("OK property=%s rules=%d instances=%d wall=%.1fs" % (prop, len(R.obl), obl, time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
