"""Screens quick mutants: python3 tools/screen.py FILE [name...]; FILE defines M = [(name, checks, [(file, old, new[, nth|"all"])])].
Each is applied to a copy of /repo mounted over /repo in a private namespace, built, tested, and the checks are run on it."""
import sys, os, subprocess, shutil, json, runpy
from concurrent.futures import ThreadPoolExecutor
M = runpy.run_path(sys.argv[1])["M"]
sel = sys.argv[2:]
J = int(os.environ.get("J", "3"))


def edit(p, e):
    f, old, new = e[:3]; k = e[3] if len(e) > 3 else None
    t = open(os.path.join(p, f)).read(); n = t.count(old)
    if n == 0 or n > 1 and k is None: raise ValueError("%s: %d occurrences of %r" % (f, n, old))
    if k in (None, "all"): t = t.replace(old, new)
    else:
        pos = -1
        for _ in range(k): pos = t.index(old, pos + 1)
        t = t[:pos] + new + t[pos + len(old):]
    open(os.path.join(p, f), "w").write(t)


def one(m):
    name, cks, edits = m
    w = "/tmp/screen." + name
    shutil.rmtree(w, True); os.makedirs(w)
    subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
    try:
        for e in edits: edit(w + "/repo", e)
    except ValueError as e:
        shutil.rmtree(w, True); return "%s: %s" % (name, e)
    s = '''ip link set lo up; mount --bind %s/repo /repo; cd /repo
bash /opt/vp/build.sh >%s/b 2>&1 || { echo "BUILD FAILS"; grep -m1 error: %s/b; exit; }
bash /opt/vp/test.sh %s/o.json >/dev/null 2>&1
python3 -c "
import json
m=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('%s/o.json'))['passed'])
print('TESTS FAIL',sorted(m)) if m else None"
for c in %s; do s=$(date +%%s); VERIF_SEED=%s timeout 900 python3 /verif/checks/run_check.py $c >%s/c 2>&1; r=$?
echo "$c rc=$r $(( $(date +%%s)-s ))s $(grep -v VIOLATION %s/c | head -1 | cut -c1-200)"; [ $r = 1 ] || tail -1 %s/c | cut -c1-200; done''' % (w, w, w, w, w, cks, os.environ.get("SEED", "1"), w, w, w)
    r = subprocess.run(["unshare", "-Urmn", "bash", "-c", s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(w, True)
    return "%s %s: %s" % ("CAUGHT" if " rc=1 " in r.stdout else "MISSED", name, r.stdout.strip())


with ThreadPoolExecutor(J) as ex:
    for x in ex.map(one, [m for m in M if not sel or m[0] in sel]): print(x, flush=True)
