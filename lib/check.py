"""Verdicts, known findings, evidence."""
import os, sys, json, time, random, shutil, hashlib, traceback
from lib import build as B, run as R

KNOWN = os.path.join(B.VERIF, "known-findings.txt")


def known_findings(prop):
    """lines 'finding: property=<id> key=<key> <text>'; other lines (fixed:, comments) suppress nothing"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            w = l.split(None, 3)
            if len(w) >= 3 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                r[w[2][4:]] = w[3].strip() if len(w) > 3 else ""
    return r


class Check:
    def __init__(s, prop, level="exploration"):
        s.prop, s.level = prop, level
        s.tier = os.environ.get("VERIF_TIER", "quick")
        s.seed = int(os.environ.get("VERIF_SEED", "1"))
        s.thorough = s.tier == "thorough"
        s.t0 = time.time()
        s.rng = random.Random("%s/%d" % (prop, s.seed))
        s.wd = R.workdir(prop)
        s.known = known_findings(prop)
        s.viol, s.known_hit, s.inconcl = [], {}, []
        s.cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[])
        s.seen = set()
        s.assumptions = []

    # cheap cases are run in larger numbers
    SCALE = dict(C01=4, C02=5, C03=5, C04=5, C05=4, C07=5, C08=5)

    def n(s, quick, thorough):
        if s.thorough: return thorough * (3 if thorough >= 1000 and s.prop in s.SCALE else 1)
        return quick * s.SCALE.get(s.prop, 1) if quick >= 100 else quick

    def file(s, name, text):
        p = os.path.join(s.wd, name)
        with open(p, "wb" if isinstance(text, bytes) else "w") as f: f.write(text)
        return p

    def case(s, key=None, n=1):
        """count an evaluated case; key (hashable) if non-trivial"""
        s.cov["evaluations"] += n
        if key is not None:
            s.seen.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(s, x, k=3):
        if len(s.cov["samples"]) < k: s.cov["samples"].append(x)

    def count(s, name, n=1):
        s.cov[name] = s.cov.get(name, 0) + n

    def violation(s, key, what, replay=None):
        if key in s.known:
            s.known_hit[key] = s.known_hit.get(key, 0) + 1
            return
        s.viol.append((key, what, replay))

    def inconclusive(s, what):
        s.inconcl.append(what)

    def run(s, tgh, jobs, **kw):
        res = R.run_jobs(tgh, jobs, s.wd, **kw)
        s.count("harness_jobs", len(jobs))
        return res

    def replay(s, i, key, what, rep):
        d = os.path.join(R.WORK, "replay", "%s-%d" % (s.prop, i))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        doc = dict(property=s.prop, key=key, what=what, seed=s.seed, tier=s.tier, data=rep,
                   how="VERIF_SEED=%d VERIF_TIER=%s python3 checks/run_check.py %s" % (s.seed, s.tier, s.prop))
        if isinstance(rep, dict):
            for k, v in list(rep.items()):
                if isinstance(v, str) and v.startswith(s.wd) and os.path.isfile(v):
                    shutil.copy(v, d)
        with open(os.path.join(d, "case.json"), "w") as f: json.dump(doc, f, indent=1, default=str)
        return os.path.join(d, "case.json")

    def finish(s):
        s.cov["distinct_nontrivial"] = len(s.seen)
        for k in s.known:
            # a finding is listed whenever it was reproduced on this run
            if k in s.known_hit:
                print("KNOWN-FINDING: property=%s %s (%d cases)" % (s.prop, s.known[k], s.known_hit[k]))
        s.cov["known_findings_reproduced"] = sum(s.known_hit.values())
        s.cov["inconclusive"] = len(s.inconcl)
        if not s.cov["samples"]: s.cov["samples"] = ["(none)"]
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level=s.level, coverage=s.cov,
                  assumptions=s.assumptions, wall_s=round(time.time() - s.t0, 2), violations=len(s.viol))
        os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(B.VERIF, "evidence", s.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for x in s.inconcl[:5]: print("inconclusive: %s" % (x,))
        seen = {}
        for key, what, rep in s.viol:
            seen.setdefault(key, []).append((what, rep))
        for i, (key, l) in enumerate(seen.items()):
            if i >= 10: break
            what, rep = l[0]
            p = s.replay(i, key, what, rep)
            print("VIOLATION property=%s replay=%s" % (s.prop, p))
            print("  [%s] x%d: %s" % (key, len(l), str(what)[:1500]))
        shutil.rmtree(s.wd, ignore_errors=True)
        if s.viol: return 1
        if s.cov["evaluations"] == 0:
            print("error: nothing was observed"); return 3
        if s.inconcl and len(s.inconcl) > max(3, s.cov["evaluations"] // 20):
            print("error: too many inconclusive cases (%d)" % len(s.inconcl)); return 3
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (s.prop, s.cov["evaluations"], len(s.seen), time.time() - s.t0))
        return 0
