"""Running a check: evidence, known findings, exit codes."""

import json
import os
import sys
import time
import traceback

from .repo import Repo, AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation:
    def __init__(self, rule, construct, msg, where=""):
        self.rule = rule
        self.construct = construct
        self.msg = msg
        self.where = where

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)

    def as_dict(self):
        return {"rule": self.rule, "construct": self.construct, "message": self.msg, "where": self.where}


class Ctx:
    def __init__(self, repo, tier, seed):
        self.repo = repo
        self.tier = tier
        self.seed = seed
        self.violations = []
        self.counts = {}
        self.analysed = []
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.notes = []
        self._seen = set()

    def violate(self, rule, construct, msg, where=""):
        v = Violation(rule, construct, msg, where)
        if v.key in self._seen:
            return
        self._seen.add(v.key)
        self.violations.append(v)

    def oblige(self, ok, rule, construct, msg, where=""):
        """One obligation: discharged or a violation."""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if len(self.samples) < 12:
                self.samples.append("%s: %s" % (rule, construct))
        else:
            self.violate(rule, construct, msg, where)
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, minimum):
        """A confirmed-by-hand floor on the number of instances of a rule."""
        if self.counts.get(name, 0) < minimum:
            raise AnalysisBroken(
                "rule matched %d %s, fewer than the %d confirmed by hand"
                % (self.counts.get(name, 0), name, minimum)
            )

    def analyze(self, qual, **kw):
        from .gvf import Interp

        f = self.repo.func(qual) if isinstance(qual, str) else qual
        cls = kw.pop("self_class", None)
        bind = kw.pop("bind", None)
        types = kw.pop("types", None)
        ip = Interp(self.repo, **kw)
        res = ip.analyze(f, self_class=cls, bind=bind, types=types)
        self.analysed.append(f.qual)
        self.count("functions analysed")
        self.count("functions inlined", len(ip.inlined))
        self.count("value-flow events", len(ip.events))
        return ip, res


def load_known(pid):
    path = os.path.join(HERE, "known_findings.jsonl")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "open":
                out[d["key"]] = d
    return out


def run(pid, fn, title, rule_text, tier, seed, assumptions=(), level="other"):
    sys.setrecursionlimit(40000)
    t0 = time.time()
    evdir = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        repo = Repo()
        ctx = Ctx(repo, tier, seed)
        fn(ctx)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    if ctx.obligations == 0 and not ctx.violations:
        print("ANALYSIS-BROKEN property=%s no obligation was generated" % pid)
        return 2
    known = load_known(pid)
    new = []
    for v in ctx.violations:
        k = known.get(v.key)
        if k is not None:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, k.get("what", v.msg), v.where))
        else:
            new.append(v)
    cov = {
        "explanation": rule_text,
        "obligations": ctx.obligations,
        "discharged": ctx.discharged,
        "modules_parsed": len(repo.modules),
        "functions_in_repository": len(repo.functions),
        "source_digest": repo.digest.hexdigest(),
        "analysed_entry_points": sorted(set(ctx.analysed))[:200],
        "counts": ctx.counts,
        "samples": ctx.samples,
        "known_findings": [v.as_dict() for v in ctx.violations if v.key in known],
        "violations": [v.as_dict() for v in new],
        "notes": ctx.notes,
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print(
        "%s %s: %d obligations, %d discharged, %d known finding(s), %d violation(s), %.1fs"
        % (pid, title, ctx.obligations, ctx.discharged, len(ctx.violations) - len(new), len(new), time.time() - t0)
    )
    for k in sorted(ctx.counts):
        print("  %s: %d" % (k, ctx.counts[k]))
    if new:
        rp = os.path.join(evdir, "%s.violations.json" % pid)
        with open(rp, "w") as f:
            json.dump([v.as_dict() for v in new], f, indent=1)
            f.write("\n")
        for v in new:
            print("  %s: %s at %s: %s" % (v.rule, v.construct, v.where, v.msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
