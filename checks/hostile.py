"""Network-facing properties: C14, C15, C29."""
import os, random, socket
from lib import build, circ, sess, wire
from lib.circ import Circ, AND, XOR
from lib.run import streams
from checks.gcs import tgh, describe, values, adder, accumulator, counter, vary_mask


def small(r, **kw):
    c = circ.rand_circ(r, ng=kw.pop("ng", 12), seq=True, sizes=kw.pop("sizes", (1, 2, 2, 1, 3, 3)), nout=kw.pop("nout", 6), **kw)
    return c


def total_ok(x, role): return x[role].get("ret") == "0"


class Sess:
    """one undisturbed session whose streams were recorded, and what both parties must report"""
    def __init__(s, c, v, cc, mask, mode, ot, low, period, path, tag):
        s.c, s.v, s.cc, s.mask, s.mode, s.ot, s.low, s.period, s.path, s.tag = c, v, cc, mask, mode, ot, low, period, path, tag
        s.e = sess.Exp(c, v, cc, mask, period)

    def job(s, id, **kw): return sess.job(id, s.path, s.v, s.cc, s.mask, s.mode, s.ot, s.low, s.period, **kw)

    def right(s, x, role):
        want = sess.render(s.e.a if role == "A" else s.e.b, s.e.n, s.mode)
        return sess.parse_out(x[role].get("out", ""), s.mode) == want


def sessions(ck, r, spec):
    """spec: list of dict(c, cc, ot, low, period); runs and records them"""
    out = []
    for i, d in enumerate(spec):
        c = d["c"]; p = os.path.join(ck.wd, "s%d.scd" % i); c.write(p)
        v = d.get("v") or values(r, c, d["cc"], "rnd")
        out.append(Sess(c, v, d["cc"], d.get("mask", 0x2A5), d.get("mode", 0), d.get("ot", False), d.get("low", False), d.get("period", 0), p, d["tag"]))
    jobs = [s.job("u%d" % i, rec=os.path.join(ck.wd, "u%d" % i), _cost=20) for i, s in enumerate(out)]
    res = ck.run(tgh(), jobs)
    good = []
    for s, j in zip(out, jobs):
        x = res[j["id"]]
        p = sess.verdict(x, s.e, s.mode, s.e.n)
        if p:
            ck.violation("undisturbed-" + p[0], "%s: %s" % (s.tag, p[1]), dict(j)); continue
        s.ab, s.ba = streams(os.path.join(ck.wd, j["id"]))
        good.append(s)
    return good


def spec(r, n_ot=True):
    c1 = small(r)
    c2 = counter(4, 2)
    c3 = small(r, sizes=(0, 0, 0, 0, 2, 3)); c3.D, c3.I = [], []
    c3 = circ.rand_circ(r, seq=False, sizes=(0, 0, 0, 0, 2, 3), ng=10, nout=5)
    L = [dict(c=c1, cc=2, tag="standard"), dict(c=c1, cc=3, low=True, tag="low memory"),
         dict(c=c2, cc=6, period=1, v=dict(p_init=0, g_init=2, e_init=0, p_input=0, g_input=63, e_input=21), tag="secret termination"),
         dict(c=c2, cc=6, period=1, low=True, v=dict(p_init=0, g_init=2, e_init=0, p_input=0, g_input=63, e_input=21), tag="secret termination, low memory")]
    if n_ot:
        L += [dict(c=c3, cc=1, ot=True, tag="oblivious transfer"), dict(c=c1, cc=2, low=True, ot=True, tag="oblivious transfer, low memory"),
              dict(c=circ.rand_circ(r, seq=False, sizes=(0, 0, 0, 0, 2, 130), ng=60, nout=9), cc=1, ot=True, tag="extended oblivious transfer")]
    return L


# -------------------------------------------------------------- C14
EXTREME8 = [0, 1, 2, 255, 1 << 16, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 58, 1 << 60, (1 << 60) + 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 2]
EXTREME4 = [0, 1, 2, 3, 127, 128, 129, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) - 4, 0x7FFFFFF0]


def put(b, off, val, n): return b[:off] + (val % (1 << (8 * n))).to_bytes(n, "little") + b[off + n:]


def tables_at(s):
    """offsets of table counts and tables of a session without OT in A->B"""
    c = s.c
    if s.low:
        p = 16 + 16 * (c.gi + c.ei)
    else:
        p = 16 + 16 * (c.gi + c.ei) + 16 * s.cc * (c.g + c.e)
    res = []
    term = s.period and c.term > 0
    cost = circ.public_cost(c, s.v, s.cc, s.e.done, want_out=True)
    n = len(c.outs); m = s.mask & ((1 << n) - 1)
    for cid in range(s.e.done):
        if s.low: p += 16 * (c.g + c.e)
        k = int.from_bytes(s.ab[p:p + 8], "little")
        res.append((p, k)); p += 8 + 48 * k
        outs = sum(2 for o in range(n) if cost[cid][2][o] and not (m >> o) & 1)
        tb = 2 if term and cid % s.period == 0 and cost[cid][3] else 0
        if s.low: p += outs + tb
        else: p += tb
        if p > len(s.ab): return None
    return res


def C14(ck):
    r = ck.rng
    ck.cov["rule"] = ("sessions (standard, low-memory, secret termination, OT, extended OT) cut at byte offsets of either direction; scripted peers that send recorded streams with wrong table counts, gate "
                      "numbers, sizes, lengths, truncations, random mutations or garbage; distinct by (session, direction, offset or mutated stream)")
    S = sessions(ck, r, spec(r))
    jobs, info = [], {}
    # --- cuts
    for si, s in enumerate(S):
        for d, st in ((0, s.ab), (1, s.ba)):
            L = len(st)
            if not s.ot: offs = range(0, L + 1) if L < ck.n(260, 6000) else sorted(set(r.sample(range(L + 1), ck.n(170, 3000))) | set(range(20)) | {L, L - 1, L - 2, L - 3, L - 4})
            else: offs = sorted(set(r.sample(range(L + 1), min(L, ck.n(20, 300)))) | {0, 1, 4, 16, 17, L - 1, L - 2, L - 17, L} & set(range(L + 1)))
            for o in offs:
                j = s.job("c%d.%d.%d" % (si, d, o), cut_dir=d, cut_at=o, timeout=60, _cost=20 if s.ot else 1)
                jobs.append(j); info[j["id"]] = ("cut", s, d, o)
    # --- scripted peers
    ns = [0]

    def script(s, victim, data, kind, must_fail, what, **kw):
        p = os.path.join(ck.wd, "p%d" % ns[0]); open(p, "wb").write(data)
        j = s.job("m%d" % ns[0], script=p, timeout=60, _cost=15 if s.ot else 1, **kw); ns[0] += 1
        j["kind"] = "pair"
        j["role_a"], j["role_b"] = ("script", "gc") if victim == "B" else ("gc", "script")
        jobs.append(j); info[j["id"]] = (kind, s, victim, must_fail, what, data)

    plain = [s for s in S if not s.ot]
    for s in plain:
        script(s, "B", s.ab, "replay", False, "unchanged recorded stream")
        t = tables_at(s)
        if t is None:
            ck.violation("layout", "%s: the recorded stream does not hold the expected tables" % s.tag, None); continue
        for p, k in t:
            for val in set(EXTREME8 + [k + 1, k - 1, k + 2, len(s.c.gates), len(s.c.gates) + 1, len(s.c.gates) * 2, k ^ 0x100, k + (1 << 32)]):
                if val == k: continue
                script(s, "B", put(s.ab, p, val, 8), "count", True, "table count %d announced as %d at byte %d" % (k, val % (1 << 64), p))
            for q in (range(k) if k < 4 else r.sample(range(k), 4)):
                g = int.from_bytes(s.ab[p + 8 + 48 * q + 32:p + 8 + 48 * q + 36], "little")
                for val in r.sample([v for v in [0, 1, g + 1, g - 1, g ^ 0x80, (1 << 32) - 1, 1 << 31, g + (1 << 16), len(s.c.gates)] if v % (1 << 32) != g], 4):
                    script(s, "B", put(s.ab, p + 8 + 48 * q + 32, val, 4), "gid", True, "gate number %d of a table replaced by %d" % (g, val))
            if k:   # a table missing or doubled with a matching count
                q = p + 8 + 48 * (k - 1)
                script(s, "B", put(s.ab[:q] + s.ab[q + 48:], p, k - 1, 8), "count", True, "last table of a cycle missing")
                script(s, "B", put(s.ab[:q] + s.ab[q:q + 48] + s.ab[q:], p, k + 1, 8), "count", True, "last table of a cycle doubled")
        for cutn in r.sample(range(len(s.ab)), ck.n(12, 200)):
            script(s, "B", s.ab[:cutn], "short", True, "stream of the garbler ends after %d of %d bytes" % (cutn, len(s.ab)))
        # (with a secret terminate wire a replayed evaluator may end the run earlier)
        for cutn in range(0, 0 if s.period else len(s.ba), max(1, len(s.ba) // ck.n(12, 200))):
            script(s, "A", s.ba[:cutn], "short", True, "stream of the evaluator ends after %d of %d bytes" % (cutn, len(s.ba)))
        # sizes of the evaluator's values
        q, bns = 0, []
        if not s.low or s.c.ei: 
            bns.append(0); q = 4 + int.from_bytes(s.ba[0:4], "little", signed=True)
        bns.append(q)
        for off in bns:
            n0 = int.from_bytes(s.ba[off:off + 4], "little")
            for val in EXTREME4:
                if val != n0: script(s, "A", put(s.ba, off, val, 4), "size", val >= (1 << 31) or val > len(s.ba) - off - 4, "size %d of the evaluator's value announced as %d" % (n0, val))
    for s in [s for s in S if s.ot]:
        # find the base transfer: message count of the sender, then big numbers
        n = s.c.ei + s.cc * s.c.e
        if not s.low and n <= 128:
            off = 16 + 16 * (s.c.gi + s.cc * s.c.g)
            if int.from_bytes(s.ab[off:off + 4], "little") != n: ck.violation("layout", "%s: no transfer of %d messages at byte %d" % (s.tag, n, off), None); continue
            for val in EXTREME4 + [n + 1, n - 1, n + 256, n + 65536]:
                if val % (1 << 32) != n: script(s, "B", put(s.ab, off, val, 4), "otlen", True, "oblivious transfer of %d messages announced as %d" % (n, val))
            cur = sess.Cursor(s.ab); cur.take(off + 4)
            bn = [off + 4]
            for i in range(2 + 2 * n - 1): cur.bn(); bn.append(cur.p)
            for i, o in enumerate(bn[:5]):
                n0 = int.from_bytes(s.ab[o:o + 4], "little")
                for val in r.sample(EXTREME4, ck.n(3, 13)):
                    if val != n0: script(s, "B", put(s.ab, o, val, 4), "size", val >= (1 << 31) or val > len(s.ab) - o - 4, "big number %d of the transfer: size %d announced as %d" % (i, n0, val))
                # degenerate contents: zero, one, an even or a tiny modulus, no bytes at all
                for body in (b"", b"\0", b"\1", b"\2", b"\0" * n0, b"\xff" * n0, s.ab[o + 4:o + 4 + n0 - 1] + b"\0", b"\x03"):
                    if i > 2 and r.random() < .7: continue
                    script(s, "B", s.ab[:o] + len(body).to_bytes(4, "little") + body + s.ab[o + 4 + n0:], "otbn", False, "big number %d of the transfer replaced by %d bytes %s" % (i, len(body), body[:4].hex()))
        else:
            # the roles of the base transfer are reversed in the extension: the evaluator's first bytes
            if n > 128:
                L0 = int.from_bytes(s.ba[0:4], "little")
                for val in EXTREME4 + [L0 + 1, L0 - 1]:
                    if val % (1 << 32) != L0: script(s, "A", put(s.ba, 0, val, 4), "otlen", True, "base transfer of %d messages announced as %d" % (L0, val))
                for o in (4,):
                    n0 = int.from_bytes(s.ba[o:o + 4], "little")
                    for body in (b"", b"\0", b"\1", b"\2", b"\0" * n0, b"\xff" * n0):
                        script(s, "A", s.ba[:o] + len(body).to_bytes(4, "little") + body + s.ba[o + 4 + n0:], "otbn", False, "modulus replaced by %d bytes" % len(body))
    # --- random mutations and garbage against every victim
    for s in S:
        for k in range(ck.n(12 if s.ot else 60, 200 if s.ot else 1500)):
            victim = r.choice("AB"); b = bytearray(s.ab if victim == "B" else s.ba)
            if not b: b = bytearray(4)
            lim = min(len(b), 1500) if s.ot else len(b)     # the head of a transfer holds its structure
            for _ in range(r.choice([1, 1, 2, 4])):
                o = r.randrange(lim); m = r.random()
                if m < .3: b[o] ^= 1 << r.randrange(8)
                elif m < .5: b[o:o + 4] = r.choice(EXTREME4).to_bytes(4, "little")
                elif m < .6: b[o:o + 8] = r.choice(EXTREME8).to_bytes(8, "little")
                elif m < .7: del b[o:o + r.choice([1, 2, 4, 8, 16, 48])]
                elif m < .8: b[o:o] = bytes(r.getrandbits(8) for _ in range(r.choice([1, 2, 4, 16, 48])))
                elif m < .9: b[o:] = b[o:] + b[o:]
                else: del b[o:]
                if len(b) == 0: b = bytearray(1)
                lim = min(lim, len(b))
            short = not s.ot and len(b) < len(s.ab if victim == "B" else s.ba) - 4 and victim == "B"
            script(s, victim, bytes(b), "mutated", False, "mutated stream", net="") if not short else script(s, victim, bytes(b), "mutated", False, "mutated stream")
        for k in range(ck.n(3, 30)):
            script(s, r.choice("AB"), bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 7, 15, 16, 300, 5000]))), "garbage", False, "random bytes")
        if s.ot: continue
        for f in (0, 0xff, 1, 0x80): script(s, r.choice("AB"), bytes([f]) * 20000, "garbage", False, "20000 bytes of %02x" % f)
    # --- big number receiver alone
    bj = []
    for k, (hd, body) in enumerate([(x, b) for x in EXTREME4 for b in (b"", b"\1" * 5, b"\7" * 200)]):
        p = ck.file("b%d" % k, hd.to_bytes(4, "little") + body)
        bj.append(dict(id="b%d" % k, kind="pair", role_a="script", role_b="bn2p", script=p, vals="0", count=1, timeout=60, _bad=hd > len(body), _want=int.from_bytes(body[:hd], "big") if hd <= len(body) else None))
    res = ck.run(tgh(), jobs + bj)
    for j in bj:
        x = res[j["id"]]; ck.case(("bn", j["id"]))
        p = sess.sanity(x, "B")
        if p: ck.violation("bn-" + p[0], p[1], dict(j))
        elif j["_bad"] and x["B"].get("ret") == "0": ck.violation("bn-success", "a big number whose bytes never arrived is reported as received: %s" % x["B"], dict(j))
        elif not j["_bad"] and (x["B"].get("ret") != "0" or int(x["B"].get("vals") or "0", 16) != j["_want"]): ck.violation("bn-value", "got %s" % x["B"], dict(j))
    stat = {}
    for j in jobs:
        x = res[j["id"]]; t = info[j["id"]]; s = t[1]
        if x.get("unconfirmed") or (x.get("timeout") and not x.get("stalled") and not x.get("reran")): ck.inconclusive(j["id"]); continue
        st = stat.setdefault(t[0], [0, 0]); st[0] += 1
        d = describe(s.c, s.v, cc=s.cc, ot=s.ot, low=s.low, period=s.period)
        if t[0] == "cut":
            _, s, dr, o = t
            ck.case(("cut", s.tag, dr, o))
            lab = "%s cut after byte %d of %d of %s" % (s.tag, o, len(s.ab if dr == 0 else s.ba), "the garbler's" if dr == 0 else "the evaluator's")
            p = sess.sanity(x)
            if x.get("timeout") and x.get("reran"): p = ("hang", "no end within the doubled time limit")
            if p: ck.violation("cut-" + p[0], "%s: %s | %s" % (lab, p[1], d), dict(j)); continue
            for role in "AB":
                if not total_ok(x, role): st[1] += 1; continue
                if not s.right(x, role): ck.violation("cut-wrong", "%s: %s reports success with %s | %s" % (lab, role, x[role].get("out"), d), dict(j))
                if not s.ot:
                    got, full = (x["ba"], len(s.ba)) if role == "A" else (x["ab"], len(s.ab))
                    if got < full: ck.violation("cut-success", "%s: %s reports success although it got %d of the %d bytes it needs | %s" % (lab, role, got, full, d), dict(j))
        else:
            kind, s, victim, must, what, data = t
            ck.case((kind, s.tag, victim, data))
            lab = "%s, hostile peer (%s)" % (s.tag, what)
            p = sess.sanity(x, victim)
            if x.get("timeout") and x.get("reran"): p = ("hang", "no end within the doubled time limit")
            if p: ck.violation("%s-%s" % (kind, p[0]), "%s: %s | %s" % (lab, p[1], d), dict(j)); continue
            ok = total_ok(x, victim)
            if not ok: st[1] += 1
            if kind == "replay" and (not ok or not s.right(x, victim)):
                # a recorded stream is a correct stream (no randomness of the evaluator without OT)
                ck.violation("replay", "%s: replaying the garbler's own stream gave ret=%s out=%s" % (lab, x[victim].get("ret"), x[victim].get("out")), dict(j))
            if must and ok:
                ck.violation(kind + "-success", "%s: %s reports success with %s | %s" % (lab, victim, x[victim].get("out"), d), dict(j))
    ck.cov["cases_and_failures_reported"] = stat
    j = jobs[len(jobs) // 2]; ck.sample({k: v for k, v in j.items()}); ck.sample(str(info[j["id"]][2:4]))
    # --- transfers on their own, cut anywhere: a message is delivered whole and right or not at all
    prims = []
    for kind, n in (("ot", 1), ("ot", 4), ("otext", 3), ("otext", 20), ("bn2p", 5)):
        for rep in range(ck.n(2, 8)):
            if kind == "bn2p": prims.append(dict(kind=kind, vals=",".join("%X" % r.getrandbits(r.choice([8, 128, 2000])) for _ in range(n)), count=n))
            else:
                m = [("%032x" % r.getrandbits(128), "%032x" % r.getrandbits(128)) for _ in range(n)]
                prims.append(dict(kind=kind, m=",".join(a + ":" + b for a, b in m), sel="".join(r.choice("01") for _ in range(n - 1)) + str(rep % 2)))
    for k, j in enumerate(prims): j.update(id="f%d" % k, timeout=60, _cost=20)
    full = ck.run(tgh(), prims)
    pj = []
    for k, j in enumerate(prims):
        x = full[j["id"]]
        for d, L in ((0, x.get("ab", 0)), (1, x.get("ba", 0))):
            if not L: continue
            offs = {1, 4, 5, L - 1, L - 2, L - 20, L - 60, L - 140} | {r.randrange(L) for _ in range(ck.n(6, 60))}
            for o in sorted(q for q in offs if 0 <= q < L):
                pj.append(dict(j, id="f%d.%d.%d" % (k, d, o), cut_dir=d, cut_at=o))
    res = ck.run(tgh(), pj)
    for j in pj:
        x = res[j["id"]]
        if x.get("unconfirmed") or (x.get("timeout") and not x.get("reran")): ck.inconclusive(j["id"]); continue
        ck.case(("prim", j["id"])); ck.count("transfers_cut")
        lab = "%s of %d messages cut after byte %d of %s" % (j["kind"], int(j.get("count") or len(j["sel"])), j["cut_at"], "the first party's" if j["cut_dir"] == 0 else "the second party's")
        p = sess.sanity(x)
        if x.get("timeout"): p = ("hang", "no end within the doubled time limit")
        if p: ck.violation("transfer-" + p[0], "%s: %s" % (lab, p[1]), dict(j)); continue
        if x["B"].get("ret") == "0":
            if j["kind"] == "bn2p": good = [int(q, 16) for q in x["B"].get("vals", "").split(",") if q] == [int(q, 16) for q in j["vals"].split(",")]
            else: good = x["B"].get("msgs") == "".join(a.split(":")[int(q)] for a, q in zip(j["m"].split(","), j["sel"]))
            if not good: ck.violation("transfer-wrong", "%s: the receiver reports success with wrong data %s" % (lab, {q: v for q, v in x["B"].items() if q in ("msgs", "vals")}), dict(j))
        if j["kind"] != "bn2p" and j["cut_dir"] == 1 and j["cut_at"] < full[j["id"].split(".")[0]]["ba"] - 600 and x["A"].get("ret") == "0" and x["B"].get("ret") != "0":
            ck.violation("transfer-success", "%s: the sender reports success although the receiver's choices never arrived" % lab, dict(j))
    # --- the same over real TCP, with connection resets
    tj = []
    for k in range(ck.n(20, 200)):
        s = r.choice(plain); victim = "B" if s.period else r.choice("AB")
        b = s.ab if victim == "B" else s.ba
        p = ck.file("t%d" % k, b[:r.randrange(len(b))])
        j = s.job("t%d" % k, script=p, timeout=60, net="tcp", port=free_port(r), _cost=3)
        j["kind"] = "pair"; j["role_a"], j["role_b"] = ("script", "gc") if victim == "B" else ("gc", "script")
        j["_v"] = victim; tj.append(j)
    res = ck.run(tgh(), tj)
    for j in tj:
        x = res[j["id"]]; v = j["_v"]
        if x.get("timeout") and not x.get("reran"): ck.inconclusive(j["id"]); continue
        if ("conn", "1") not in x[v].get("_all", []): ck.inconclusive("no connection"); continue
        ck.case(("tcp", j["id"])); ck.count("tcp_sessions_broken_off")
        p = sess.sanity(x, v)
        if p: ck.violation("tcp-" + p[0], p[1], dict(j))
        elif x[v].get("ret") == "0": ck.violation("tcp-success", "success although the peer closed early: %s" % x[v].get("out"), dict(j))


def free_port(r):
    for _ in range(200):
        p = r.randrange(1100, 65500) if r.random() < .5 else r.randrange(33000, 65500)
        s = socket.socket()
        try:
            s.bind(("", p)); return p
        except OSError: pass
        finally: s.close()
    return 0


# -------------------------------------------------------------- C15
def C15(ck):
    r = ck.rng
    ck.cov["rule"] = ("sessions of every mode run undisturbed, split into segments of 1..n bytes, delayed, with short and interrupted transfers at either party, with timer signals, and over loopback TCP; "
                      "distinct by (session, disturbance)")
    jobs, ex = [], {}
    sp = spec(r) + [dict(c=accumulator(8), cc=9, tag="accumulator"), dict(c=accumulator(8), cc=9, low=True, tag="accumulator, low memory"),
                    dict(c=adder(40), cc=1, tag="adder"), dict(c=accumulator(5), cc=3, ot=True, low=True, tag="accumulator, OT, low memory")]
    big = circ.rand_circ(r, seq=False, sizes=(0, 0, 0, 0, 300, 40), ng=9000, nout=100)
    sp += [dict(c=big, cc=2, tag="9000 gates")]
    S = sessions(ck, r, sp)
    k = 0
    for s in S:
        n = ck.n(4 if s.ot else 22, 40 if s.ot else 300)
        for i in range(n):
            m = i % 7; kw = dict(proxy_seed=r.randrange(1 << 30)); heavy = len(s.ab) > 20000
            if m == 0: kw.update(seg=1 if not heavy else 40)
            elif m == 1: kw.update(seg=r.choice([2, 3, 7, 15, 16, 17, 47, 48, 49, 1000]) * (20 if heavy else 1), delay_us=200, delay_den=16)
            elif m == 2: kw.update(shortio=r.choice([1, 3, 20, 200]))
            elif m == 3: kw.update(seg=r.choice([5, 100]) * (20 if heavy else 1), shortio=r.choice([8, 4000]))
            elif m == 4: kw.update(delay_us=3000, delay_den=3)
            elif m == 5: kw.update(net="tcp", port=free_port(r), shortio=r.choice([0, 30]))
            elif m == 6: kw.update(seg=1 << r.randrange(5, 14), shortio=1 << r.randrange(2, 14), delay_us=50, delay_den=4)
            j = s.job("d%d" % k, timeout=120, _cost=30 if s.ot else (6 if heavy else 2), **kw); k += 1
            jobs.append(j); ex[j["id"]] = (s, kw)
    res = ck.run(tgh(), jobs)
    io = [0, 0, 0]
    for j in jobs:
        s, kw = ex[j["id"]]; x = res[j["id"]]
        if x.get("unconfirmed") or (x.get("timeout") and not x.get("stalled") and not x.get("reran")): ck.inconclusive(j["id"]); continue
        if kw.get("net") and (("conn", "1") not in x["A"].get("_all", []) or ("conn", "1") not in x["B"].get("_all", [])): ck.inconclusive("no connection"); continue
        ck.case((s.tag, tuple(sorted(kw.items()))))
        ck.count("segments_forwarded", int(x.get("events", 0)))
        for role in "AB":
            for i, q in enumerate((x[role].get("io") or "0 0 0").split()): io[i] += int(q)
        p = sess.verdict(x, s.e, s.mode, s.e.n)
        if p: ck.violation("disturbed-" + p[0], "%s with %s: %s" % (s.tag, kw, p[1]), dict(j)); continue
        if not s.ot and not kw.get("net") and (x["ab"], x["ba"]) != (len(s.ab), len(s.ba)):
            ck.violation("traffic", "%s with %s: %d/%d bytes moved, undisturbed %d/%d" % (s.tag, kw, x["ab"], x["ba"], len(s.ab), len(s.ba)), dict(j))
    ck.cov["transfers"], ck.cov["short_transfers"], ck.cov["interrupted_transfers"] = io
    ck.sample(dict(jobs[0])); ck.sample(dict(jobs[-1]))
    # transfer primitives
    pj = []
    for i in range(ck.n(16, 150)):
        kind = r.choice(["ot", "bn2p", "bn2p", "otext"])
        kw = r.choice([dict(seg=1), dict(seg=r.choice([3, 130]), delay_us=100, delay_den=8), dict(shortio=r.choice([1, 5, 100])), dict(seg=20, shortio=7)])
        if kind == "bn2p": j = dict(vals=",".join("%X" % (r.getrandbits(r.choice([0, 1, 8, 31, 128, 2000])) if q else 0) for q in range(12)), count=12)
        else:
            n = r.choice([1, 3, 6]) if kind == "ot" else r.choice([1, 5, 130])
            m = [("%032x" % r.getrandbits(128), "%032x" % r.getrandbits(128)) for _ in range(n)]
            j = dict(m=",".join(a + ":" + b for a, b in m), sel="".join(r.choice("01") for _ in range(n)))
        j.update(id="q%d" % i, kind=kind, timeout=120, _cost=60 if kind != "bn2p" else 1, proxy_seed=r.randrange(1 << 30), **kw); pj.append(j)
    res = ck.run(tgh(), pj)
    for j in pj:
        x = res[j["id"]]
        if x.get("unconfirmed") or (x.get("timeout") and not x.get("stalled") and not x.get("reran")): ck.inconclusive(j["id"]); continue
        ck.case(("prim", j["id"], j["kind"]))
        p = sess.sanity(x)
        if p: ck.violation("primitive-" + p[0], p[1], dict(j)); continue
        if j["kind"] == "bn2p": good = [int(q, 16) for q in x["B"].get("vals", "").split(",") if q] == [int(q, 16) for q in j["vals"].split(",")]
        else: good = x["B"].get("msgs") == "".join(a.split(":")[int(q)] for a, q in zip(j["m"].split(","), j["sel"]))
        if not good or x["A"].get("ret") != "0" or x["B"].get("ret") != "0": ck.violation("primitive-value", "%s disturbed: %s" % (j["kind"], {k: v for k, v in x["B"].items() if k != "_all"}), dict(j))


# -------------------------------------------------------------- C29
def plans(r, total, maxn, both=True):
    """complementary plans: blocking calls in an order that cannot deadlock: alternate phases"""
    A, B = [], []
    left = total
    while left > 0:
        n = min(left, r.choice([1, 2, 4, 16, 48, 300, 5000, maxn])); left -= n
        d = r.random() < .5
        s, q = [], n
        while q: k = min(q, r.choice([1, 2, 3, 8, 16, 100, 4096, maxn])); s.append(k); q -= k
        t, q = [], n
        while q: k = min(q, r.choice([1, 2, 3, 8, 16, 100, 4096, maxn])); t.append(k); q -= k
        if r.random() < .15: s.insert(r.randrange(len(s) + 1), 0)
        if r.random() < .15: t.insert(r.randrange(len(t) + 1), 0)
        if len(s) > 300: s = [n]
        if len(t) > 300: t = [n]
        (A if d else B).extend("s%d" % k for k in s)
        (B if d else A).extend("r%d" % k for k in t)
    return A, B


def C29(ck):
    r = ck.rng
    ck.cov["rule"] = ("send/receive call sequences of both parties (lengths 0, 1 .. several MB, one and both directions at once) over a relay that splits, delays and cuts, with short/interrupted transfers and signals, "
                      "and over loopback TCP through the repository's server and client code; distinct by (plans, disturbance)")
    jobs = []

    def add(A, B, **kw):
        j = dict(id="t%d" % len(jobs), kind="tcp", plan_a=",".join(A), plan_b=",".join(B), proxy_seed=r.randrange(1, 1 << 30), timeout=120)
        j.update(kw); j.setdefault("_cut", None); jobs.append(j)
    for i in range(ck.n(220, 3000)):
        A, B = plans(r, r.choice([1, 5, 40, 300, 4000, 50000]), r.choice([1, 50, 3000, 70000]))
        kw = [dict(), dict(seg=r.choice([1, 2, 5, 50, 5000])), dict(shortio=r.choice([1, 4, 100, 10000])), dict(seg=r.choice([20, 3000]), shortio=50), dict(itimer_us=r.choice([200, 1000]), sa_restart=0, delay_us=2000, delay_den=2),
              dict(itimer_us=300, sa_restart=1, delay_us=1000, delay_den=2), dict(delay_us=500, delay_den=2)][i % 7]
        if kw.get("seg") == 1 and sum(int(x[1:]) for x in A) > 5000: kw["seg"] = 500
        add(A, B, **kw)
    M = 1 << 20
    for n, m in ((3 * M + 1, 0), (5 * M, 4 * M + 3), (1, 2 * M), (M, M), (255, 256), (65535, 65536), (65537, 1)):
        add(["x%d/%d" % (n, m)], ["x%d/%d" % (m, n)], _cost=10)
        add(["x%d/%d" % (n, m)], ["x%d/%d" % (m, n)], shortio=60000, _cost=20)
        add(["s%d" % n, "r%d" % m], ["r%d" % n, "s%d" % m], seg=30000, _cost=10)
    if ck.thorough:
        add(["s%d" % (80 * M)], ["r%d" % (80 * M)], _cost=50, timeout=300); add(["s%d" % (300 * M)], ["r%d" % (300 * M)], _cost=90, timeout=400)
    else: add(["s%d" % (17 * M + 5)], ["r%d" % (17 * M + 5)], _cost=20)
    # a message ends where it ends: sizes around powers of two, one call each
    for n in [0, 1, 2, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 200000]:
        add(["s%d" % n, "s1", "r1"], ["r%d" % n, "r1", "s1"])
        add(["s1"] * 3 + ["r%d" % n], ["r3", "s%d" % n], shortio=r.choice([7, 5000]))
    # connections closed or cut
    for i in range(ck.n(120, 1500)):
        n = r.choice([1, 2, 10, 16, 100, 5000, 70000]); k = r.randrange(n); d = r.choice([0, 1])
        pa, pb = (["s%d" % n], ["r%d" % n, "s1"]) if d == 0 else (["r%d" % n, "s1"], ["s%d" % n])
        if i % 3 == 0: add(pa, pb, cut_dir=d, cut_at=k, _cut=("cut", d, k, n))
        elif i % 3 == 1:   # the sender closes early
            q = (["s%d" % k], ["r%d" % n]) if d == 0 else (["r%d" % n], ["s%d" % k])
            add(q[0], q[1], _cut=("close", d, k, n), shortio=r.choice([0, 0, 13]))
        else:              # the receiver closes: sending fails instead of killing the process
            q = (["s%d" % (4 * M)], ["r%d" % k]) if d == 0 else (["r%d" % k], ["s%d" % (4 * M)])
            add(q[0], q[1], _cut=("deaf", d, k, 4 * M), _cost=4)
    # loopback TCP
    for i in range(ck.n(40, 300)):
        A, B = plans(r, r.choice([1, 40, 4000, 200000]), r.choice([50, 3000, 70000]))
        add(A, B, net="tcp", port=free_port(r), conns=r.choice([1, 2, 3]), srvfirst=int(r.random() < .4), way=r.choice(["init", "split"]), host=r.choice(["127.0.0.1", "127.0.0.1", "localhost"]), shortio=r.choice([0, 0, 100]), _cost=3)
    for n, m in ((3 * M, 5 * M), (M + 1, 0)): add(["x%d/%d" % (n, m)], ["x%d/%d" % (m, n)], net="tcp", port=free_port(r), _cost=10)
    res = ck.run(tgh(), jobs)
    # a server that could not open its port again gets another chance on another port
    taken = lambda x: ("conn", "0") in x["A"].get("_all", []) or x["A"].get("open") == "-1"
    again = [dict(j, port=free_port(r)) for j in jobs if j.get("net") == "tcp" and taken(res[j["id"]])]
    if again: res.update(ck.run(tgh(), again)); ck.cov["connections_tried_again"] = len(again)
    tot = [0, 0, 0]; by = 0
    ln = lambda p, c: sum(int(x[1:].split("/")[0]) if x[0] != c else 0 for x in p)
    for j in jobs:
        x = res[j["id"]]
        if x.get("unconfirmed") or (x.get("timeout") and not x.get("stalled") and not x.get("reran")): ck.inconclusive(j["id"]); continue
        net = j.get("net") == "tcp"
        if net and any(("conn", "0") in x[q].get("_all", []) for q in "AB"):
            if taken(x):
                if ("conn", "1") not in x["A"].get("_all", []): ck.inconclusive("port taken"); continue
                ck.violation("reopen", "the server could not accept another connection on its port after the previous one was closed (%s) | %s" % (x["A"].get("err", "")[-200:], {q: j.get(q) for q in ("conns", "way", "srvfirst")}), dict(j)); continue
        ck.case((j["plan_a"], j["plan_b"], j.get("seg"), j.get("shortio"), j.get("itimer_us"), j["_cut"], net))
        p = sess.sanity(x)
        what = "A: %s | B: %s | %s" % (j["plan_a"][:200], j["plan_b"][:200], {k: v for k, v in j.items() if k in ("seg", "shortio", "itimer_us", "sa_restart", "delay_us", "cut_dir", "cut_at", "net", "port", "conns", "way")})
        if p: ck.violation("transport-" + p[0], "%s: %s" % (what, p[1]), dict(j)); continue
        if x.get("timeout"): ck.violation("transport-hang", what, dict(j)); continue
        for role in "AB":
            y = x[role]
            for i, q in enumerate((y.get("io") or "0 0 0").split()): tot[i] += int(q)
            by += int(y.get("recvd", 0))
            if int(y.get("bad", 0)): ck.violation("bytes", "%s got %s wrong bytes | %s" % (role, y["bad"], what), dict(j))
            if int(y.get("guard", 0)): ck.violation("overrun", "%s: bytes outside the buffer changed | %s" % (role, what), dict(j))
        if j["_cut"] is None:
            n = int(j.get("conns", 1)) if net else 1
            for role in "AB":
                plan = j["plan_" + role.lower()].split(",")
                sent = sum(int(q[1:].split("/")[-1]) for q in plan if q[0] in "sx"); rcv = sum(int(q[1:].split("/")[0]) for q in plan if q[0] in "rx")
                al = x[role].get("_all", [])
                for k, want in (("ret", 0), ("sent", sent), ("recvd", rcv), ("done", len(plan))):
                    got = [int(v) for q, v in al if q == k]
                    if got != [want] * n: ck.violation("delivery", "%s: %s is %s, expected %s for %d connections | %s | %s" % (role, k, got, want, n, what, x[role].get("err", "")[-300:]), dict(j)); break
                if ("extra", "1") in al: ck.violation("extra", "bytes nobody sent arrived | " + what, dict(j))
        else:
            kind, d, k, n = j["_cut"]
            rcv, snd = ("B", "A") if d == 0 else ("A", "B")
            ck.count("closed_connections")
            if kind in ("cut", "close"):
                if x[rcv].get("ret") == "0" or int(x[rcv].get("recvd", 0)): ck.violation("closed", "%d of %d bytes arrived before the connection closed, reported as ret=%s recvd=%s | %s" % (k, n, x[rcv].get("ret"), x[rcv].get("recvd"), what), dict(j))
            elif x[snd].get("ret") == "0" and k < n - (3 << 20): ck.violation("closed-send", "sending %d bytes to a peer that closed after %d is reported as success | %s" % (n, k, what), dict(j))
    ck.cov["bytes_delivered"] = by
    ck.cov["transfers"], ck.cov["short_transfers"], ck.cov["interrupted_transfers"] = tot
    ck.sample({k: str(v)[:300] for k, v in jobs[0].items()}); ck.sample({k: str(v)[:300] for k, v in jobs[-1].items()})
    # failures that need no peer
    port = free_port(r)
    j = dict(id="n", kind="netops", port=port, ops="client;badhost;send;recv;send0;recv0;server;server")
    x = ck.run(tgh(), [j])["n"]; ck.case("netops", 8)
    p = sess.sanity(x, "S")
    if p: ck.violation("netops-" + p[0], p[1], j)
    else:
        want = ["client -1", "badhost -1", "send -1", "recv -1", "send0 0", "recv0 0", "server 0", "server -1"]
        got = x["S"].get("r", [])
        for w, g in zip(want, got):
            if w != g: ck.violation("netops", "expected %s, got %s (%s)" % (w, g, "second server on a port in use" if w == "server -1" else w), j)
        if len(got) != len(want): ck.violation("netops", "answers: %s" % got, j)
