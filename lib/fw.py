"""Check framework: obligations, evidence, known findings, verdict."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from prog import AnalysisBroken, load
import absint
from absint import Budget

KNOWN = os.path.join(HERE, "known_findings.txt")


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            # known: property=C01 key=<key> | text
            if line.startswith("known: property=%s key=" % pid):
                rest = line.split(" key=", 1)[1]
                key, _, text = rest.partition(" | ")
                out[key.strip()] = text
    return out


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.obls = []      # (key, ok, msg)
        self.keys = set()
        self.stats = {}
        self.notes = []
        self.rules = []
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.prog = None
        self.minimum = 1
        self.functions = set()
        self.paths = 0
        self.failed = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ob(self, key, ok, msg="", where=""):
        """one discharged or violated obligation"""
        self.obls.append((key, bool(ok), msg, where))
        if not ok:
            self.failed += 1
            if self.failed >= 40 and time.time() - self.t0 > 200:
                raise AnalysisBroken("stopped after %d violations" % self.failed)
        return ok

    def rule(self, text):
        self.rules.append(text)

    def require(self, n):
        self.minimum = n

    def seen(self, interp, paths=None):
        self.functions |= interp.fns_seen
        if paths is not None:
            self.paths += len(paths)


def where(fn, line=None):
    if fn is None:
        return ""
    return "%s:%s (%s)" % (fn.file, line or fn.line, fn.name)


def run(pid, body, level="other"):
    c = Check(pid)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if not c.thorough:
        absint.DEADLINE = c.t0 + 800
    try:
        c.prog = load()
        body(c, c.prog)
        if len(c.obls) < c.minimum:
            raise AnalysisBroken("only %d obligations were generated, expected at least %d: an anchor was lost" % (len(c.obls), c.minimum))
    except (AnalysisBroken, Budget) as e:
        # violations already established stand on their own; otherwise no verdict
        if not any(not o[1] for o in c.obls if o[0] not in known(pid)):
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            sys.exit(3)
        c.notes.append("analysis incomplete: %s" % e)
    except Exception:
        if not any(not o[1] for o in c.obls if o[0] not in known(pid)):
            traceback.print_exc()
            print("ANALYSIS-BROKEN property=%s internal error" % pid)
            sys.exit(3)
        c.notes.append("analysis incomplete: " + traceback.format_exc())
    kf = known(pid)
    bad = {}
    for key, ok, msg, wh in c.obls:
        if not ok:
            bad.setdefault(key, (msg, wh))
    new = {k: v for k, v in bad.items() if k not in kf}
    old = {k: v for k, v in bad.items() if k in kf}
    keys = sorted({o[0] for o in c.obls})
    samples = []
    step = max(1, len(c.obls) // 12)
    for o in c.obls[::step][:12]:
        samples.append({"obligation": o[0], "held": o[1], "detail": o[2][:300], "where": o[3]})
    cov = {
        "explanation": "Static analysis of the sources in %s as of this run (%d translation units parsed, %d function bodies). "
                       "Rules: %s" % (os.environ.get("VERIF_REPO", "/repo"), len(c.prog.tus), len(c.prog.fns), " ".join(c.rules)),
        "obligations": len(c.obls),
        "discharged": sum(1 for o in c.obls if o[1]),
        "distinct_obligation_keys": len(keys),
        "functions_interpreted": sorted(x.split("@")[0] for x in c.functions)[:400],
        "partitions_explored": c.paths,
        "known_findings_seen": sorted(old),
        "samples": samples,
    }
    cov.update(c.stats)
    res = {"property": pid, "tier": c.tier if c.tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
           "assumptions": c.notes, "wall_s": round(time.time() - c.t0, 3), "violations": len(new)}
    with open(ev, "w") as f:
        json.dump(res, f, indent=1, default=str)
    for k, (msg, wh) in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kf[k] or msg))
    if new:
        rp = os.path.join(HERE, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for k, (msg, wh) in sorted(new.items()):
                f.write("property %s violated: %s\n  at %s\n  %s\n" % (pid, k, wh, msg))
        for k, (msg, wh) in sorted(new.items())[:20]:
            print("  [%s] %s -- %s" % (k, wh, msg[:500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("OK property=%s obligations=%d functions=%d partitions=%d wall=%.2fs" % (pid, len(c.obls), len(c.functions), c.paths, time.time() - c.t0))
    sys.exit(0)
