"""Check driver support: obligations, violations, known findings, evidence."""
import json, os, sys, time
from prog import Prog, AnalysisError, VERIF

KF = os.path.join(VERIF, "known_findings.txt")


def known(pid):
    out = {}
    if os.path.exists(KF):
        for l in open(KF):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                _, _, r = l.partition("key=")
                k, _, what = r.partition(" :: ")
                out[k.strip()] = what.strip()
    return out


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.viol = {}
        self.obl = {}
        self.rules = []
        self.assume = []
        self._p = None

    def prog(self, tus=None, scope=("psi/",)):
        """The resolved program.  `scope`: path prefixes the property is decided on; a unit there that does not parse stops the check."""
        if self._p is None:
            self._p = Prog(tus)
            bad = [t for t in self._p.bad if t.startswith(tuple(scope))]
            if bad:
                raise AnalysisError("translation units do not parse: %s" % bad)
            self.cov["translation_units"] = len(self._p.tus)
            self.cov["functions_resolved"] = len(self._p.fns)
        return self._p

    def rule(self, text):
        self.rules.append(text)

    def trust(self, *text):
        self.assume += text

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def ok(self, rule, site):
        """One discharged obligation."""
        self.obl.setdefault((rule, site), True)

    def fail(self, rule, site, msg, where, path=None):
        """An obligation that fails.  `rule`/`site` identify it without line numbers."""
        self.obl[(rule, site)] = False
        self.viol.setdefault("%s|%s" % (rule, site), {"rule": rule, "site": site, "message": msg, "where": where, "path": path or []})

    def check(self, cond, rule, site, msg, where, path=None):
        if cond:
            self.ok(rule, site)
        else:
            self.fail(rule, site, msg, where, path)

    def floor(self, what, n, least):
        """Number of instances confirmed on the tree this was written for; fewer means the analysis lost its subject."""
        self.cov[what] = n
        if n < least:
            raise AnalysisError("%s: only %d instances of '%s' found, at least %d expected" % (self.pid, n, what, least))


def run(pid, tier, fn):
    cx = Ctx(pid, tier)
    evd = os.environ.get("PSI_EVIDENCE", os.path.join(VERIF, "evidence"))
    ev = os.path.join(evd, pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    rc = 0
    try:
        fn(cx)
        if not cx.obl:
            raise AnalysisError("no obligations were generated")
    except AnalysisError as e:
        # a violation found before the analysis lost its subject is still a violation
        if not cx.viol:
            print("ERROR property=%s %s" % (pid, e))
            return 2
        print("NOTE property=%s analysis stopped early: %s" % (pid, e))
    kn = known(pid)
    new = {k: v for k, v in cx.viol.items() if k not in kn}
    for k in cx.viol:
        if k in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[k] or k))
    rp = os.path.join("evidence", pid + ".violation.json")
    rpa = os.path.join(evd, pid + ".violation.json")
    if os.path.exists(rpa):
        os.unlink(rpa)
    if new:
        with open(rpa, "w") as f:
            json.dump({"property": pid, "violations": list(new.values())}, f, indent=1, default=str)
        for v in list(new.values())[:20]:
            print("%s: [%s] %s  (site: %s)" % (v["where"], v["rule"], v["message"], v["site"]))
            for p in v["path"][:6]:
                print("    " + str(p))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    n, d = len(cx.obl), sum(1 for v in cx.obl.values() if v)
    cov = {"obligations": n, "discharged": d,
           "rule": "; ".join(cx.rules),
           "explanation": "Static analysis of the source in /repo as resolved by clang; each obligation is one construct (function, call site, path or field) the rule was applied to. "
                          + "; ".join(cx.rules),
           "samples": ["%s @ %s: %s" % (r, s, "holds" if v else "FAILS") for (r, s), v in sorted(cx.obl.items(), key=str)[:12]]}
    by = {}
    for (r, s), v in cx.obl.items():
        by.setdefault(r, [0, 0])
        by[r][0] += 1
        by[r][1] += 1 if v else 0
    cov["per_rule"] = {r: {"obligations": a, "discharged": b} for r, (a, b) in sorted(by.items())}
    cov.update(cx.cov)
    with open(ev, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
                   "assumptions": cx.assume, "wall_s": round(time.time() - cx.t0, 2), "violations": len(new)}, f, indent=1, default=str)
    print("property=%s obligations=%d discharged=%d known=%d wall=%.1fs" % (pid, n, d, len(cx.viol) - len(new), time.time() - cx.t0))
    return rc
