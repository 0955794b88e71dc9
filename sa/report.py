"""Collects obligations and findings of one check run; writes evidence and the
replay file; decides the exit code."""
import json, os, sys, time, collections
from . import build

VERIF = build.VERIF


class Broken(Exception):
    """the analysis lost its footing (an anchor or instance vanished): neither held nor violated"""


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obligations = 0
        self.undecided = []
        self.findings = []      # (rule, location, message, details list)
        self.counts = collections.OrderedDict()
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.trusted = ["clang 18 front end, inliner and optimiser produce IR faithful to the source", "sa/ (this analyser)"]
        self.level = "proof"
        self.notes = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, n=1):
        self.obligations += n

    def rule(self, name, text):
        self.rules.append("%s: %s" % (name, text))

    def check(self, ok, rule, where, msg, detail=()):
        """one obligation; ok True/False/None"""
        self.obligations += 1
        if ok is None:
            self.undecided.append((rule, where, msg))
        elif not ok:
            self.findings.append((rule, where, msg, list(detail)))
        return ok

    def finding(self, rule, where, msg, detail=()):
        self.findings.append((rule, where, msg, list(detail)))

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def need(self, cond, what):
        if not cond:
            raise Broken(what)


def known(prop):
    """known findings: entries {'property','keys','what'} (keys: prefixes of 'rule|location') that stay open (none are suppressed when fixed)"""
    p = os.path.join(VERIF, "known-findings.json")
    try:
        return [k for k in json.load(open(p)).get("open", []) if k["property"] == prop]
    except OSError:
        return []


def loc_text(loc):
    fs = [(f, l) for f, l in loc if l]
    lib = [(f, l) for f, l in fs if "/verif-sa-" not in f]
    return " < ".join("%s:%d" % (f.replace(build.REPO + "/", ""), l) for f, l in (lib or fs)[:6]) or "?"


def finish(r, fn):
    """run fn(r) and write everything; returns the exit code"""
    code = 0
    err = None
    try:
        fn(r)
    except Broken as x:
        err = "analysis broken: %s" % x
    except build.BuildError as x:
        err = "analysis unit %s does not compile against %s:\n%s" % (x.what, build.REPO, x.text[:3000])
    except Exception as x:
        import traceback
        err = "analyser failure: %s" % traceback.format_exc()[-3000:]
    ks = known(r.prop)
    open_f, hit = [], []
    for f in r.findings:
        key = "%s|%s" % (f[0], f[1])
        k = [x for x in ks if any(key.startswith(y) for y in x["keys"])]
        if k:
            hit.append((k[0], f))
        else:
            open_f.append(f)
    for k in {x[0]["what"]: x[0] for x in hit}.values():
        print("KNOWN-FINDING: property=%s %s" % (r.prop, k["what"]))
    # one report line per distinct construct and rule
    groups = collections.OrderedDict()
    for f in open_f:
        groups.setdefault((f[0], f[1].split(" < ")[0]), []).append(f)
    rp = os.path.join(VERIF, "evidence", r.prop + ".replay.txt")
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    if open_f:
        with open(rp, "w") as fh:
            fh.write("property %s violated by %s\n" % (r.prop, build.REPO))
            for (rule, where), fs in groups.items():
                fh.write("\n[%s] at %s (%d instance(s))\n" % (rule, where, len(fs)))
                for f in fs[:5]:
                    fh.write("  %s\n    at %s\n" % (f[2], f[1]))
                    for d in f[3]:
                        fh.write("      %s\n" % d)
            fh.write("\nre-derive: python3 /verif/check.py %s\n" % r.prop)
        for (rule, where), fs in list(groups.items())[:20]:
            print("%s: [%s] %s: %s (%d instance(s))" % (r.prop, rule, where, fs[0][2], len(fs)))
        print("VIOLATION property=%s replay=%s" % (r.prop, rp))
        code = 1
    elif err:
        print("ERROR %s %s" % (r.prop, err))
        code = 2
    elif r.undecided:
        for u in r.undecided[:10]:
            print("UNDECIDED %s [%s] %s: %s" % ((r.prop,) + u))
        print("ERROR %s %d obligation(s) undecided" % (r.prop, len(r.undecided)))
        code = 2
    if not open_f and os.path.exists(rp):
        os.remove(rp)
    cov = {"obligations": r.obligations, "discharged": r.obligations - len(r.undecided) - len(r.findings),
           "checker_cmd": "python3 /verif/check.py %s --tier %s" % (r.prop, r.tier), "trusted_base": r.trusted,
           "rules": r.rules, "counts": dict(r.counts), "samples": r.samples[:12]}
    if r.notes:
        cov["notes"] = r.notes
    if r.level == "other":
        cov["explanation"] = "; ".join(r.rules)
    ev = {"property": r.prop, "tier": r.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": r.level, "coverage": cov,
          "wall_s": round(time.time() - r.t0, 2), "violations": len(open_f), "assumptions": r.assumptions}
    if err:
        ev["coverage"]["error"] = err[:500]
    with open(os.path.join(VERIF, "evidence", r.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if code == 0:
        print("OK %s: %d obligations discharged in %.1f s" % (r.prop, r.obligations, time.time() - r.t0))
    return code
