"""Runs harness jobs in parallel and parses the results."""
import os, subprocess, tempfile, shutil, sys, time, json
from lib import build as B

WORK = os.path.join(B.VERIF, ".work")
ENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:max_malloc_fill_size=100000000:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
NPROC = int(os.environ.get("TG_NPROC", "8"))


class HarnessError(Exception):
    pass


def workdir(tag):
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix=tag + "-", dir=WORK)
    return d


def jobtext(j):
    L = []
    for k, v in j.items():
        if k.startswith("_"): continue
        v = str(v)
        if "\n" in v: raise ValueError("newline in job value " + k)
        L.append("%s %s" % (k, v))
    return "\n".join(L) + "\n\n"


class Stuck(Exception):
    """job after job does not end"""
    def __init__(s, what, job): Exception.__init__(s, what); s.job = job


class Res(dict):
    def role(s, r): return s.setdefault(r, {})


def parse(path):
    out, cur = {}, None
    if not os.path.exists(path): return out
    with open(path, errors="replace") as f:
        for line in f:
            line = line.rstrip("\n")
            if line.startswith("@ "):
                cur = Res(); cur["id"] = line[2:]; cur["A"], cur["B"], cur["S"] = {}, {}, {}
            elif cur is None: continue
            elif line == "end 1":
                out[cur["id"]] = cur; cur = None
            else:
                k, _, v = line.partition(" ")
                if k[:2] in ("A.", "B.", "S."):
                    d = cur[k[0]]
                    k = k[2:]
                    if k not in ("r", "g", "err", "out"): d.setdefault("_all", []).append((k, v))
                    if k in ("r", "g"): d.setdefault(k, []).append(v)
                    elif k == "err": d[k] = bytes.fromhex(v).decode(errors="replace")
                    elif k in ("out",) or (k.startswith("out") and k[3:].isdigit()):
                        d[k] = bytes.fromhex(v).decode(errors="replace")
                    else: d[k] = v
                else: cur[k] = int(v) if v.lstrip("-").isdigit() else v
    return out


def run_jobs(tgh, jobs, wd, nproc=None, rerun=True, budget=1500):
    """jobs: list of dicts with id, kind...  Returns {id: Res}.  Jobs that stalled or ran into their
    timeout are run once more, alone; a job whose harness process vanished is an error."""
    nproc = nproc or NPROC
    if not jobs: return {}
    order = sorted(jobs, key=lambda j: -j.get("_cost", 1))
    shards = [[] for _ in range(min(nproc, len(order)))]
    loads = [0] * len(shards)
    for j in order:
        k = loads.index(min(loads))
        shards[k].append(j); loads[k] += j.get("_cost", 1)
    procs = []
    for i, sh in enumerate(shards):
        jp, rp = os.path.join(wd, "jobs%d.txt" % i), os.path.join(wd, "res%d.txt" % i)
        with open(jp, "w") as f: f.write("".join(jobtext(j) for j in sh))
        if os.path.exists(rp): os.unlink(rp)
        # fresh heap memory holds a different pattern in every shard: nothing may depend on it
        fill = (0, 0xbe, 0xff, 1, 0, 0x5a, 0xff, 2)[i % 8]
        env = dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + ":malloc_fill_byte=%d" % fill)
        procs.append((subprocess.Popen([tgh, jp, rp], cwd=wd, env=env, stdin=subprocess.DEVNULL,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True), rp, jp))
    out, t0 = {}, time.time()
    for p, rp, jp in procs:
        try:
            _, err = p.communicate(timeout=max(1, budget - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            for q, _, _ in procs:
                try: os.killpg(q.pid, 9)
                except OSError: pass
            raise HarnessError("harness exceeded its budget of %d s" % budget)
        if p.returncode != 0:
            raise HarnessError("harness exited with %s: %s" % (p.returncode, err[-2000:].decode(errors="replace")))
        out.update(parse(rp))
    missing = [j["id"] for j in jobs if j["id"] not in out]
    if missing: raise HarnessError("no result for jobs %s" % missing[:5])
    bad = [j for j in jobs if "stalled" in out[j["id"]] or "timeout" in out[j["id"]]]
    if bad and rerun:
        # only the first few: one confirmed hang is enough for a verdict
        o2 = run_jobs(tgh, [dict(j, timeout=max(min(2 * int(j.get("timeout", 60)), 300), 60)) for j in bad[:4]], wd, 4, rerun=False)
        sk = sum("skipped" in x for x in out.values())
        if sk:
            again = [j for j in bad[:4] if "stalled" in o2[j["id"]] or "timeout" in o2[j["id"]]]
            if not again: raise HarnessError("%d jobs ran into their time limit once, %d were skipped" % (len(bad), sk))
            raise Stuck("%d of %d jobs stalled or ran into their time limit (%d more were skipped), %d of %d did so again on their own" % (len(bad), len(jobs), sk, len(again), len(o2)), again[0])
        for k, v in o2.items():
            v["reran"] = 1
            out[k] = v
        for j in bad[4:]:
            out[j["id"]]["unconfirmed"] = 1
    return out


def events(path):
    """recorded relay events: list of (dir, bytes); dir 0 = A->B"""
    b = open(path, "rb").read()
    r, p = [], 0
    while p + 5 <= len(b):
        d, n = b[p], int.from_bytes(b[p + 1:p + 5], "little")
        r.append((d, b[p + 5:p + 5 + n])); p += 5 + n
    return r


def streams(path):
    ev = events(path)
    return b"".join(x for d, x in ev if d == 0), b"".join(x for d, x in ev if d == 1)
