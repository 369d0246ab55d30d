"""Resources: C30."""
import os, random
from lib import circ, sess
from lib.circ import Circ, AND, XOR
from checks.gcs import tgh, describe, values, adder, accumulator, counter, echo


def meter(x):
    """per session: bytes kept, peak above the start, descriptors kept"""
    return [tuple(map(int, v.split())) for k, v in x.get("_all", []) if k == "mem"]


def busy(r, ins, ng, q):
    """q registers, ng nonlinear gates per cycle, few inputs and outputs"""
    c = Circ(0, 1, 1, 0, ins, ins)
    c.I = [i % 2 for i in range(q)]; c.D = [0] * q
    lo = c.g_lo; src = [c.in_lo + i for i in range(2 * ins)] + [c.q_lo + i for i in range(q)]
    cur = list(src)
    for i in range(ng):
        a = cur[-1 - r.randrange(min(8, len(cur)))]; b = r.choice(src)
        c.gates.append((a, b, r.choice([AND, circ.NOR, circ.NAND]) if i % 2 == 0 else XOR)); cur.append(lo + i)
    c.D = [lo + ng - 1 - (i % ng) for i in range(q)]
    c.outs = [lo + ng - 1]
    return c


def C30(ck):
    r = ck.rng
    ck.cov["rule"] = ("sessions repeated in one process (standard and low-memory, with and without OT and extended OT, secret termination, all output modes) with a meter on every allocation and descriptor; "
                      "low-memory sessions of N and 4N cycles compared by peak; distinct by circuit, mode and cycles")
    jobs, ex = [], {}
    R = 14

    def rep(tag, c, cc, mask=0, mode=0, ot=False, low=False, period=0, v=None, n=R):
        i = len(jobs); p = os.path.join(ck.wd, "r%d.scd" % i); c.write(p)
        v = v or values(r, c, cc, "rnd")
        j = sess.job("r%d" % i, p, v, cc, mask, mode, ot, low, period, repeat=n, mem=1, timeout=240, _cost=20 + 600 * ot)
        jobs.append(j); ex[j["id"]] = (tag, c, cc)
    for i in range(ck.n(40, 300)):
        c = circ.rand_circ(r, seq=True, ng=r.choice([5, 20, 60])); cc = r.choice([1, 2, 3, 7])
        rep("session", c, cc, r.getrandbits(40), i % 3, False, r.random() < .5)
    for k, low in ((0, False), (1, True)):
        rep("secret termination", counter(4, 2), 6, 0x15, k, False, low, 1, dict(p_init=0, g_init=2, e_init=0, p_input=0, g_input=63, e_input=21))
    for i in range(ck.n(6, 40)):
        low = i % 2 == 1
        c = circ.rand_circ(r, seq=True, sizes=(0, 2, (3, 0, 1)[i % 3], 0, 3, 4), ng=12)
        rep("session over OT", c, 2, 5, i % 3, True, low, n=10)
    for low in (False, True):
        c = circ.rand_circ(r, seq=True, sizes=(0, 1, 131, 0, 2, 133), ng=60)
        rep("session over extended OT", c, 2, 5, 0, True, low, n=8)
    # N against 4N cycles
    gj, gx = [], {}

    def grow(tag, c, n, ot, mode=0, mask=0):
        i = len(gj) // 2; p = os.path.join(ck.wd, "g%d.scd" % i); c.write(p)
        for k, m in ((0, n), (1, 4 * n)):
            v = values(r, c, m, "rnd")
            j = sess.job("g%d.%d" % (i, k), p, v, m, mask, mode, ot, True, 0, repeat=1, mem=1, timeout=300, _cost=100 + 20 * m * ot + m // 5)
            gj.append(j); gx[j["id"]] = (tag, c, m)
    for mode in (0, 1, 2): grow("many gates", busy(r, 2, 200, 40), (1200, 100, 100)[mode], False, mode, mode)
    grow("wide input", echo(r, 3, 40, 40), 60, False)
    grow("random", circ.rand_circ(r, seq=True, ng=60), 100, False)
    grow("many gates, OT", busy(r, 2, 120, 20), 8, True)
    grow("wide input, OT", echo(r, 3, 30, 30), 8, True, 1)
    grow("extended OT", echo(r, 0, 2, 140), 4, True, 2)
    res = ck.run(tgh(), jobs + gj)
    for j in jobs:
        tag, c, cc = ex[j["id"]]; x = res[j["id"]]
        d = "%s %s" % (tag, describe(c, {}, cc=cc, low=j["low_mem"], ot=not j["disable_ot"], mode=j["mode"]))
        ck.case((c.scd(), cc, j["mode"], j["low_mem"], j["disable_ot"]))
        p = sess.sanity(x)
        if p: ck.violation("repeat-" + p[0], "%s: %s" % (d, p[1]), dict(j)); continue
        if x.get("timeout"): ck.inconclusive("%s: time limit" % j["id"]); continue
        for k in "AB":
            m = meter(x[k]); ck.count("sessions_metered", len(m))
            if x[k].get("ret") != "0": ck.violation("repeat-fail", "%s: %s fails in session %d: %s" % (d, k, len(m), x[k].get("err", "")[-400:]), dict(j)); break
            if len(m) < 5: ck.inconclusive("%s: the meter does not work here" % j["id"]); break
            last = m[2:]
            if all(q[0] > 0 for q in last): ck.violation("kept", "%s: party %s keeps %s bytes more after every session" % (d, k, last[-1][0]), dict(j)); break
            if all(q[2] > 0 for q in last): ck.violation("descriptors", "%s: party %s keeps %s descriptors more after every session" % (d, k, last[-1][2]), dict(j)); break
    sl = {}
    for i in range(0, len(gj), 2):
        tag, c, n = gx[gj[i]["id"]]
        ck.case((c.scd(), n, "growth"))
        bits = {k: c.p + b + len(c.outs) for k, b in (("A", c.g), ("B", c.e))}
        d = "%s %s" % (tag, describe(c, {}, cc=n))
        pk = []
        for j in gj[i:i + 2]:
            x = res[j["id"]]; p = sess.sanity(x)
            if p: ck.violation("grow-" + p[0], "%s: %s" % (d, p[1]), dict(j)); break
            if x.get("timeout"): ck.inconclusive("%s: time limit" % j["id"]); break
            if any(x[k].get("ret") != "0" for k in "AB"): ck.violation("grow-fail", "%s: session fails: %s" % (d, (x["A"].get("err", "") + x["B"].get("err", ""))[-500:]), dict(j)); break
            if not all(meter(x[k]) for k in "AB"): ck.inconclusive("%s: the meter does not work here" % j["id"]); break
            pk.append({k: meter(x[k])[0][1] for k in "AB"})
        if len(pk) < 2: continue
        for k in "AB":
            slope = (pk[1][k] - pk[0][k]) / (3 * n); sl["%s %s" % (tag, k)] = "%.1f bytes per cycle (%d bits of values)" % (slope, bits[k])
            if slope > 4 * bits[k] + 8: ck.violation("growth", "%s: low-memory mode of party %s takes %.1f bytes more per cycle, for %d bits of inputs and outputs" % (d, k, slope, bits[k]), dict(gj[i + 1]))
    ck.cov["growth"] = sl
    ck.sample(dict(job=jobs[0]["id"], meter=meter(res[jobs[0]["id"]]["A"])[:4]))
