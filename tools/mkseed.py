"""Writes a planted bug's folder: mk(id, property, [(file, old, new[, nth])], needs, what, demo_python[, files])."""
import os, subprocess, shutil, json, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id, prop, edits, needs, what, demo, files=(), circ=True):
    d = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(d, True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/t", "HEAD"])
    try:
        added = set()
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(w, "t", f)
            t = open(p).read()
            n = t.count(old)
            k = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and k is None): raise SystemExit("%s: %s: %d occurrences of %r" % (id, f, n, old))
            if k == "all": t = t.replace(old, new)
            elif k is None: t = t.replace(old, new)
            else:
                pos = -1
                for _ in range(k): pos = t.index(old, pos + 1)
                t = t[:pos] + new + t[pos + len(old):]
            open(p, "w").write(t)
        diff = subprocess.check_output(["git", "-C", w + "/t", "diff"], text=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        # which original lines does it touch (not lines of our own commits)?
        blame = {}
        for f in set(e[0] for e in edits):
            own = 0
            for l in diff.split("diff --git")[1:]:
                if not l.startswith(" a/%s " % f): continue
                for h in [x for x in l.split("\n") if x.startswith("@@")]:
                    a = h.split()[1][1:].split(",")
                    s, c = int(a[0]), int(a[1]) if len(a) > 1 else 1
                b = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], text=True).split("\n")
                i = 0
                for x in l.split("\n"):
                    if x.startswith("@@"): i = int(x.split()[1][1:].split(",")[0]) - 1
                    elif x.startswith("-") and not x.startswith("---"):
                        if not b[i].startswith("^"): own += 1
                        i += 1
                    elif x.startswith(" "): i += 1
            if own: print("%s: note: %d removed lines of %s come from our own commits" % (id, own, f))
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/t"])
        shutil.rmtree(w, True)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, "meta.json"), "w"), indent=1)
    here = os.path.join(ROOT, "tools")
    shutil.copy(os.path.join(here, "demolib.py"), d)
    shutil.copy(os.path.join(ROOT, "lib", "circ.py"), d)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, t in files:
        open(os.path.join(d, n), "w").write(t)
