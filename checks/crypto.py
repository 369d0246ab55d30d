"""Primitive-level properties: C06, C09-C13, C16, C23."""
import os, random
from lib import build, circ, sess, wire
from lib.circ import Circ, TYPES, NONLIN, XOR, XNOR, NOT, AND, NAMES, C0, C1, gate_op
from lib.run import streams
from checks.gcs import tgh, describe, values, adder, accumulator, xor


def report_sanity(ck, x, j, roles, label):
    p = sess.sanity(x, roles)
    if p: ck.violation("%s-%s" % (label, p[0]), p[1], dict(j))
    return p


# -------------------------------------------------------------- C06
def gate_public(t, k0, k1, rel):
    """value if the output does not depend on the secrets, else None (k: 0/1 public, 2 secret)"""
    res = set()
    for x in (0, 1):
        for y in (0, 1):
            if k0 != 2 and x != k0: continue
            if t != NOT and k1 != 2 and y != k1: continue
            if t != NOT and rel == 1 and x != y: continue
            if t != NOT and rel == 2 and x == y: continue
            res.add(gate_op(t, x, y, 1))
    return res.pop() if len(res) == 1 else None


def C06(ck):
    r = ck.rng
    ck.cov["rule"] = ("all 11 gate types x operand kinds (secret, public 0/1) x relation of secret operands (unrelated, same, inverse) x evaluator inversion flags x operand "
                      "values, for random labels, offsets, keys, gate and cycle numbers; distinct by (type, kinds, relation, flags, values)")
    nj, rounds = ck.n(32, 64), ck.n(30, 300)
    jobs = [dict(id="g%d" % i, kind="gate", seed=r.randrange(1, 1 << 40), rounds=rounds, _cost=1) for i in range(nj)]
    res = ck.run(tgh(), jobs)
    tabs = {}
    for j in jobs:
        x = res[j["id"]]
        if report_sanity(ck, x, j, "S", "gate"): continue
        for line in x["S"].get("g", []):
            t, k0, k1, rel, inv, a, b, ov, ti, eov, ei, eq0, eq1, gid, dist, eraw = map(int, line.split())
            z = gate_op(t, a, b, 1)
            case = (t, k0, k1, rel, inv, a, b)
            ck.case(case)
            d = "%s kinds=%s/%s relation=%d flags=%d operands %d,%d: garbler value %d tables %d, evaluator value %d tables %d label %s" % (
                NAMES[t], k0, k1, rel, inv, a, b, ov, ti, eraw, ei, "0" if eq0 else "1" if eq1 else "neither")
            pub = gate_public(t, k0, k1, rel)
            need = int(t in NONLIN and k0 == 2 and k1 == 2 and rel == 0)
            if ti != need: ck.violation("tables", "%d tables produced, expected %d: %s" % (ti, need, d), dict(j))
            elif ei != ti: ck.violation("consumed", "the evaluator consumed %d of %d tables: %s" % (ei, ti, d), dict(j))
            elif not gid: ck.violation("gid", "table carries another gate's number: %s" % d, dict(j))
            elif pub is not None:
                if ov != pub: ck.violation("public-garbler", "the result is publicly %d: %s" % (pub, d), dict(j))
                elif eraw != pub: ck.violation("public-evaluator", "the result is publicly %d: %s" % (pub, d), dict(j))
            elif ov >= 0 or eov >= 0: ck.violation("not-public", "a secret result is taken as public: %s" % d, dict(j))
            elif not dist: ck.violation("labels", "both labels of the result are equal: %s" % d, dict(j))
            elif not (eq1 if z else eq0) or (eq0 if z else eq1): ck.violation("label", "wrong label for result %d: %s" % (z, d), dict(j))
            tabs[ti] = tabs.get(ti, 0) + 1
    ck.cov["gates_by_tables"] = tabs
    ck.sample(dict(jobs[0])); ck.sample(line)
    # gates chained in circuits: flags and labels of one gate's result feed the next ones
    jobs, ex = [], {}
    for i in range(ck.n(600, 6000)):
        ts = r.choice([TYPES, [r.choice(TYPES), NOT, XNOR], NONLIN + [NOT, XNOR]])
        c = circ.rand_circ(r, types=ts, dup=r.choice([.2, .6]), consts=r.choice([.05, .3]), pubw=.5, ng=r.choice([2, 4, 8, 20, 60]))
        c.outs = list(range(c.g_lo, c.wires))
        cc = r.choice([1, 2, 3]); v = values(r, c, cc, "rnd"); p = os.path.join(ck.wd, "k%d.scd" % i); c.write(p)
        j = sess.job("k%d" % i, p, v, cc, 0, 0, False, r.random() < .3, r=r)
        jobs.append(j); ex[j["id"]] = (c, v, cc)
    res = ck.run(tgh(), jobs)
    for j in jobs:
        c, v, cc = ex[j["id"]]; e = sess.Exp(c, v, cc)
        ck.case(("chain", c.scd(), cc, tuple(sorted(v.items()))))
        p = sess.verdict(res[j["id"]], e, 0, e.n)
        if p: ck.violation("chain-" + p[0], "%s %s" % (p[1], describe(c, v, cc=cc, low=j["low_mem"])), dict(j))


# -------------------------------------------------------------- randomness battery
def gf2_rank_and_span(vecs):
    """xor basis as dict top-bit -> vector"""
    basis = {}
    for v in vecs:
        while v:
            h = v.bit_length() - 1
            if h not in basis: basis[h] = v; break
            v ^= basis[h]
    return basis


def dependent(blocks, what):
    """are label-sized values linearly dependent over GF(2)?  windows of 80 (a chance of 2^-48 each)"""
    for o in range(0, max(1, len(blocks) - 40), 40):
        z = blocks[o:o + 80]
        k = len(gf2_rank_and_span([int.from_bytes(b, "little") for b in z]))
        if k < len(z): return "%d %s (from number %d on) span only %d dimensions" % (len(z), what, o, k)
    return None


def in_span(basis, v):
    while v:
        h = v.bit_length() - 1
        if h not in basis: return False
        v ^= basis[h]
    return True


def berlekamp_massey(bits):
    """linear complexity over GF(2); bits: list of 0/1"""
    n = len(bits); C, B, L, m = 1, 1, 0, 1
    S = 0   # window: bit k = s[i-k]
    for i in range(n):
        S = (S << 1) | bits[i]
        d = bin(S & C & ((1 << (L + 1)) - 1)).count("1") & 1
        if d:
            T = C
            C ^= B << m
            if 2 * L <= i: L, B, m = i + 1 - L, T, 1
            else: m += 1
        else: m += 1
    return L


def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    t = y
    for _ in range(7): t = y ^ ((t << 7) & 0x9D2C5680)
    y = t & 0xFFFFFFFF
    t = y
    for _ in range(3): t = y ^ (t >> 11)
    return t & 0xFFFFFFFF


def predictable(blocks):
    """tries to predict a sequence of 16-byte blocks from its own past; returns a description or None"""
    n = len(blocks)
    I = [int.from_bytes(b, "little") for b in blocks]
    if len(set(I)) != n: return "a block repeats"
    for nm, f in (("xor", lambda a, b: a ^ b), ("difference", lambda a, b: (a - b) % (1 << 128))):
        d = [f(I[k + 1], I[k]) for k in range(n - 1)]
        if len(set(d)) != n - 1: return "the %s of consecutive blocks repeats" % nm
    q = [x for b in blocks for x in (int.from_bytes(b[:8], "little"), int.from_bytes(b[8:], "little"))]
    if len(set(q)) != len(q): return "a 64-bit half repeats"
    for step in (1, 2):
        d = [(q[k + step] - q[k]) % (1 << 64) for k in range(len(q) - step)]
        if len(set(d)) != len(d): return "the difference of 64-bit halves repeats"
        # linear congruential generator modulo 2^64 or 2^32: recover the factor from one odd difference
        for bits in (64, 32):
            s = [x % (1 << bits) for x in q[:400]] if bits == 64 else None
            for sub in ([s] if s else [[x & 0xffffffff for x in q[:400]], [x >> 32 for x in q[:400]],
                                      [(x >> k) & 0xffffffff for x in q[:200] for k in (0, 32)]]):
                M = 1 << bits
                for st in (1, step, 4):
                    for k0 in range(8):
                        z = sub[k0::st]
                        if len(z) < 12: continue
                        dd = [(z[k + 1] - z[k]) % M for k in range(len(z) - 1)]
                        o = [k for k in range(len(dd) - 1) if dd[k] & 1]
                        if not o: return "differences of %d-bit words are all even" % bits
                        a = dd[o[0] + 1] * pow(dd[o[0]], -1, M) % M
                        if sum((dd[k] * a - dd[k + 1]) % M == 0 for k in range(min(len(dd) - 1, 60))) > 4:
                            return "a linear congruential generator modulo 2^%d" % bits
    w = [int.from_bytes(b[k:k + 4], "little") for b in blocks for k in (0, 4, 8, 12)]
    z = w[:2000]
    for sh in (0, 1):   # the C library's additive generator (31-bit outputs, perhaps shifted)
        v = [(x >> sh) & 0x7fffffff for x in z]
        hit = sum(((v[k] - v[k - 3] - v[k - 31]) & 0x7fffffff) in (0, 1) for k in range(31, len(v)))
        if hit > 20: return "the C library's additive generator"
    if len(w) > 700:
        u = [untemper(x) for x in w[:1400]]
        hit = 0
        for k in range(624, len(u)):
            y = (u[k - 624] & 0x80000000) | (u[k - 623] & 0x7fffffff)
            hit += u[k] == (u[k - 227] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0))
        if hit > 5: return "a Mersenne twister"
    m = min(n, 1200)
    for pos in range(128):
        one = sum((x >> pos) & 1 for x in I)
        if abs(one - n / 2) > 4.5 * n ** .5: return "bit %d is set in %d of %d blocks" % (pos, one, n)
    for pos in (0, 1, 7, 31, 32, 63, 64, 96, 127):
        L = berlekamp_massey([(x >> pos) & 1 for x in I[:m]])
        if L < m // 2 - 60: return "bit %d follows a linear recurrence of length %d" % (pos, L)
    rk = len(gf2_rank_and_span(I[:400] if n >= 400 else I))
    if n >= 200 and rk < 128: return "blocks span only %d dimensions" % rk
    return None


# -------------------------------------------------------------- C09
def C09(ck):
    r = ck.rng
    ck.cov["rule"] = ("random blocks of processes with the same seed, clock and process id; recorded sessions started with the same seed, clock, process id and inputs, also several in one "
                      "process: offsets, keys, labels, OT values pairwise compared and tried against predictors; distinct by value observed")
    jobs = []
    for i in range(ck.n(24, 120)):
        jobs.append(dict(id="same%d" % i, kind="rand", srand=1700000000, n=8, freeze=1))
    for i in range(ck.n(6, 30)):
        jobs.append(dict(id="seed%d" % i, kind="rand", srand=r.randrange(1, 1 << 31), n=4, freeze=0))
    jobs.append(dict(id="long", kind="rand", srand=5, n=ck.n(200000, 1000000), freeze=1, _cost=30, timeout=200))
    for i in range(ck.n(3, 12)):
        jobs.append(dict(id="seq%d" % i, kind="rand", srand=(1, 0, 12345)[i % 3], n=3000, freeze=1))
    res = ck.run(tgh(), jobs)
    first = {}
    pool = {}

    def fresh(v, what, key, j):
        ck.case(v)
        if v in pool: ck.violation(key, "%s equals %s: %s" % (what, pool[v], v if isinstance(v, str) else v.hex()), dict(j))
        pool[v] = what
    for j in jobs:
        x = res[j["id"]]
        if report_sanity(ck, x, j, "S", "rand"): continue
        bl = [bytes.fromhex(b) for b in x["S"]["blocks"].split(",")]
        ck.count("random_blocks", len(bl))
        if len(set(bl)) != len(bl): ck.violation("repeat", "%s: a random block repeats within one process" % j["id"], dict(j))
        if j["id"][:3] == "seq":
            p = predictable(bl)
            if p: ck.violation("predictable", "the generator is predictable: %s" % p, dict(j))
        for b in bl[:8]: fresh(b, "block of process %s" % j["id"], "same-process-blocks" if j["id"][0] == "l" else "cross-process", j)
    # sessions
    jobs, ex = [], {}
    c = accumulator(8); p = os.path.join(ck.wd, "a.scd"); c.write(p)
    v = dict(p_init=0, g_init=0xFF, e_init=0, p_input=0, g_input=0x5A5A5A, e_input=0xFFFFFF)
    cs = circ.rand_circ(r, seq=True, sizes=(0, 9, 9, 0, 9, 9)); ps = os.path.join(ck.wd, "b.scd"); cs.write(ps)
    vs = values(r, cs, 2, "rnd")
    for i in range(ck.n(60, 600)):
        low = i % 3 == 2
        cir, path, val, cc = ((c, p, v, 3), (cs, ps, vs, 2))[i % 2]
        j = sess.job("s%d" % i, path, val, cc, 0, 0, False, low, rec=os.path.join(ck.wd, "r%d" % i), srand=1700000000, freeze=int(i % 4 != 3))
        jobs.append(j); ex[j["id"]] = (cir, val, cc)
    for i in range(ck.n(8, 40)):
        j = sess.job("t%d" % i, p, v, 3, 0, 0, False, i % 2, srand=1700000000, freeze=1, repeat=6)
        jobs.append(j); ex[j["id"]] = (c, v, 3)
    for i in range(ck.n(10, 60)):
        j = sess.job("o%d" % i, ps, vs, 2, 0, 0, True, i % 2, rec=os.path.join(ck.wd, "ro%d" % i), srand=1700000000, freeze=1)
        jobs.append(j); ex[j["id"]] = (cs, vs, 2)
    wide = circ.rand_circ(r, seq=False, sizes=(0, 0, 0, 0, 4, 140), ng=60); pw = os.path.join(ck.wd, "w.scd"); wide.write(pw); vw = values(r, wide, 1, "rnd")
    for i in range(ck.n(3, 20)):
        j = sess.job("e%d" % i, pw, vw, 1, 0, 0, True, 0, rec=os.path.join(ck.wd, "re%d" % i), srand=1700000000, freeze=1, _cost=60)
        jobs.append(j); ex[j["id"]] = (wide, vw, 1)
    res = ck.run(tgh(), jobs)
    diffs = {}
    hooked = 0
    offsets, keys, halves = [], [], {}
    alllab = []
    for j in jobs:
        x = res[j["id"]]
        if report_sanity(ck, x, j, "AB", "session"): continue
        if x["A"].get("ret") != "0" or x["B"].get("ret") != "0":
            ck.violation("session-fail", "session failed: %s %s" % (x["A"].get("ret"), x["B"].get("ret")), dict(j)); continue
        cir, val, cc = ex[j["id"]]
        sec = [s.split(":") for s in x["A"].get("secrets", "").split(",") if s]
        for k, (R, K) in enumerate(sec):
            hooked += 1
            Rb, Kb = bytearray(bytes.fromhex(R)), bytes.fromhex(K)
            Rb[0] &= 0xFE; Rb = bytes(Rb)
            fresh(b"R" + Rb, "offset of session %s/%d" % (j["id"], k), "offset", j)
            fresh(Kb, "key of session %s/%d" % (j["id"], k), "key", j)
            offsets.append(Rb); keys.append(Kb)
            for nm, b in (("offset", Rb), ("key", Kb)):
                for z in (b[:8], b[8:]):
                    if z in halves: ck.violation("half", "half of the %s of session %s/%d was used before: %s" % (nm, j["id"], k, z.hex()), dict(j))
                    halves[z] = 1
            for b in (xor(Rb, Kb),):
                b = bytes([b[0] & 0xFE]) + b[1:]
                if b in diffs or b == bytes(16): ck.violation("derived", "the offset follows from the fixed key: %s" % b.hex(), dict(j))
                diffs[b] = 1
        if "rec" not in j: continue
        ab, ba = streams(j["rec"])
        try: t = wire.walk(cir, wire.Secrecy(cir, val, cc, cc), cc, cc, 0, 0, j["low_mem"], ab, ba, ot=not j["disable_ot"])
        except ValueError as er:
            ck.violation("shape", "transcript of %s: %s" % (j["id"], er), dict(j)); continue
        if not sec: fresh(t["key"], "key of session %s" % j["id"], "key", j)
        labs = t["labels"] + t["e_labels"]
        alllab += labs
        q = dependent([t["key"]] + [bytes.fromhex(R) for R, K in sec[:1]] + labs, "values of session %s (key, offset, labels)" % j["id"])
        if q: ck.violation("dependent", q, dict(j))
        for i, b in enumerate(labs): fresh(b, "label %d of session %s" % (i, j["id"]), "label", j)
        dl = [xor(labs[k], labs[k + 1]) for k in range(len(labs) - 1)]
        for b in dl:
            if b in diffs: ck.violation("label-difference", "a difference of labels occurs again in another session: %s" % b.hex(), dict(j))
            diffs[b] = 1
        if sec:
            R = bytes.fromhex(sec[0][0])
            for nm, b in [("label", l) for l in labs] + [("key", t["key"])]:
                if bytes([b[0] & 0xFE]) + b[1:] == bytes([R[0] & 0xFE]) + R[1:]: ck.violation("offset-sent", "a %s sent in the clear equals the offset" % nm, dict(j))
            clear = [t["key"]] + labs[:40]
            Ri = int.from_bytes(R, "little") & ~1
            for a in range(len(clear)):
                A_ = int.from_bytes(clear[a], "little")
                for nm, f in (("shift", (A_ << 1) % (1 << 128)), ("rotate", ((A_ << 1) | (A_ >> 127)) % (1 << 128)), ("complement", A_ ^ ((1 << 128) - 1)),
                              ("swap", (A_ >> 64) | ((A_ & ((1 << 64) - 1)) << 64)), ("increment", (A_ + 1) % (1 << 128)), ("decrement", (A_ - 1) % (1 << 128))):
                    if (f & ~1) == Ri: ck.violation("derived", "the offset is the %s of a value sent in the clear" % nm, dict(j))
            aes = AES(t["key"])
            for pt in range(64):
                e_ = aes.enc(pt.to_bytes(16, "little")); e2 = aes.enc(pt.to_bytes(16, "big"))
                for y in (e_, e2):
                    if int.from_bytes(y, "little") & ~1 == Ri or y in labs: ck.violation("derived", "a secret is the encryption of the counter %d under the key sent in the clear" % pt, dict(j))
        for o in t["ots"]:
            b = o.get("base", o)
            fresh(("N%x" % b["N"]), "RSA modulus of session %s" % j["id"], "rsa", j)
            for i, (x0, x1) in enumerate(b["x"]):
                fresh("x%x" % x0, "x0 of %s/%d" % (j["id"], i), "ot-x", j); fresh("x%x" % x1, "x1 of %s/%d" % (j["id"], i), "ot-x", j)
            for i, y in enumerate(b["v"]): fresh("v%x" % y, "v of %s/%d" % (j["id"], i), "ot-v", j)
            for i, y in enumerate(o.get("u", [])): fresh("u%x" % y, "column of %s/%d" % (j["id"], i), "ot-u", j)
            ck.count("ot_values", len(b["x"]) * 2 + len(b["v"]))
    for nm, z, d in (("offsets", offsets, 127), ("keys", keys, 128)):
        if len(z) >= 40:
            k = len(gf2_rank_and_span([int.from_bytes(b, "little") for b in z]))
            ck.cov["rank_%s" % nm] = "%d of %d values" % (k, len(z))
            if k < min(len(z), d) - 20: ck.violation("few-bits", "%d %s of sessions span only %d dimensions" % (len(z), nm, k), None)
            for pos in range(d < 128, 128):
                one = sum((int.from_bytes(b, "little") >> pos) & 1 for b in z)
                if abs(one - len(z) / 2) > 4.5 * len(z) ** .5: ck.violation("bit", "bit %d is set in %d of %d %s" % (pos, one, len(z), nm), None)
    p = predictable(alllab[:3000]) if len(alllab) >= 400 else None
    if p: ck.violation("labels-predictable", "labels of successive sessions are predictable: %s" % p, None)
    ck.count("labels", len(alllab)); ck.cov["offsets_observed"] = hooked
    if not hooked: ck.assumptions.append("the function receiving the offset has an unknown signature: offsets were not observed")
    # a long session: labels of many cycles
    n = ck.n(3000, 30000)
    j = sess.job("L", p0(ck, c), dict(v, g_input=0, e_input=0), n, 0, 2, False, True, rec=os.path.join(ck.wd, "rl"), srand=1700000000, freeze=1, timeout=300)
    x = ck.run(tgh(), [j])["L"]
    if not report_sanity(ck, x, j, "AB", "session"):
        ab, ba = streams(j["rec"])
        # labels of every cycle: 8 + 8 per cycle behind the key and the initial labels
        cur = wire.Cursor(ab); cur.take(16); lab = [cur.take(16) for _ in range(8)]
        try:
            for cid in range(n):
                lab += [cur.take(16) for _ in range(16)]
                k = cur.u64(); cur.take(48 * k)
                cur.take(2 * 8)
        except ValueError as er: ck.violation("shape", "long session: %s" % er, dict(j))
        ck.count("labels_long_session", len(lab)); ck.case(("long", len(lab)))
        if len(set(lab)) != len(lab): ck.violation("label-repeat", "a label is used for two inputs of one session (%d labels, %d distinct)" % (len(lab), len(set(lab))), dict(j))
    ck.sample(dict(session=jobs[0]["id"], key=res[jobs[0]["id"]]["A"].get("secrets", "")[-32:]))


def p0(ck, c):
    p = os.path.join(ck.wd, "p0.scd"); c.write(p)
    return p


# -------------------------------------------------------------- C10 / C11
def blockhex(r, style=None):
    style = style or r.choice(["r", "r", "r", "z", "f", "hi", "lo", "b"])
    x = {"z": 0, "f": (1 << 128) - 1, "hi": 1 << 127, "lo": 1, "b": r.getrandbits(8) << 120}.get(style)
    if x is None: x = r.getrandbits(128)
    return x.to_bytes(16, "little").hex()


def ot_job(r, id, kind, n, bits=128, **kw):
    if kind in ("ot", "otext"):
        ms = [(blockhex(r), blockhex(r)) for _ in range(n)]
    else:
        def num():
            s = r.random()
            if s < .1: return 0
            if s < .2: return (1 << bits) - 1
            if s < .3: return 1 << (bits - 1)
            return r.getrandbits(bits) >> r.choice([0, 0, 0, r.randrange(bits)])
        ms = [("%X" % num(), "%X" % num()) for _ in range(n)]
    st = r.random()
    if st < .1: sel = "0" * n
    elif st < .2: sel = "1" * n
    elif st < .3: sel = "01" * n
    else: sel = "".join(r.choice("01") for _ in range(n))
    j = dict(id=id, kind=kind, m=",".join("%s:%s" % p for p in ms), sel=sel[:n], bits=bits, seed=r.randrange(1, 1 << 20), _cost=10 + n // 8, timeout=240)
    j.update(kw)
    return j


def ot_judge(ck, j, x, label):
    n = len(j["sel"])
    ms = [p.split(":") for p in j["m"].split(",")] if n else []
    ck.case((j["kind"], j["m"], j["sel"])); ck.count("transfers", n)
    d = "%s of %d messages of %d bits" % (j["kind"], n, j["bits"])
    p = sess.sanity(x)
    if p: ck.violation("%s-%s" % (label, p[0]), "%s: %s" % (d, p[1]), dict(j)); return False
    if x.get("timeout"): ck.inconclusive("%s: time limit" % j["id"]); return False
    for k in "AB":
        if x[k].get("ret") != "0": ck.violation(label + "-fail", "%s: %s reported failure %s" % (d, k, x[k].get("err", "")[-500:]), dict(j)); return False
    if j["kind"] in ("ot", "otext"):
        b = x["B"].get("msgs", "")
        got = [b[32 * i:32 * i + 32] for i in range(n)]
        want = [ms[i][int(j["sel"][i])] for i in range(n)]
    else:
        got = [int(q, 16) for q in x["B"].get("msgs", "").split(",") if q]
        want = [int(ms[i][int(j["sel"][i])], 16) for i in range(n)]
    bad = [i for i in range(n) if i >= len(got) or got[i] != want[i]]
    if bad:
        i = bad[0]
        ck.violation(label + "-message", "%s: %d wrong messages, first at %d (choice %s): got %s, expected %s" % (d, len(bad), i, j["sel"][i], got[i] if i < len(got) else None, want[i]), dict(j))
        return False
    return True


def C10(ck):
    r = ck.rng
    ck.cov["rule"] = "base transfers of 0..520 blocks and of integers of 1..1000 bits with boundary messages and random, constant and alternating choices; distinct by messages and choices"
    jobs = []
    for n in [1, 1, 2, 3, 5, 8, 16, 33, 64, 100, 128, 150, 300, 520] + ([200, 128, 127, 1030] if ck.thorough else []):
        jobs.append(ot_job(r, "b%d" % len(jobs), "ot", n))
    for i in range(ck.n(80, 600)): jobs.append(ot_job(r, "b%d" % len(jobs), "ot", r.randint(1, 12)))
    for i in range(ck.n(100, 800)): jobs.append(ot_job(r, "b%d" % len(jobs), "otbn", r.randint(1, 10), r.choice([1, 2, 7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 400, 512, 800, 1000])))
    jobs.append(ot_job(r, "b%d" % len(jobs), "otbn", 128, 128))
    jobs.append(ot_job(r, "b%d" % len(jobs), "ot", 3, repeat=1, seg=3))
    res = ck.run(tgh(), jobs)
    for j in jobs: ot_judge(ck, j, res[j["id"]], "ot")
    # every choice vector of a few bits
    jobs = []
    m = [(blockhex(r, "r"), blockhex(r, "r")) for _ in range(4)]
    for s in range(16): jobs.append(dict(id="v%d" % s, kind="ot", m=",".join("%s:%s" % p for p in m), sel=format(s, "04b"), bits=128, seed=3, _cost=10))
    # differing lengths
    bad = []
    for a, b in ((1, 2), (2, 1), (5, 4), (4, 128), (128, 4), (3, 0), (1, 129)):
        for kind in ("ot", "otbn"):
            j = ot_job(r, "d%d" % len(bad), kind, a); j["sel"] = "".join(r.choice("01") for _ in range(b)); bad.append((j, a, b))
    res = ck.run(tgh(), jobs + [j for j, _, _ in bad])
    for j in jobs: ot_judge(ck, j, res[j["id"]], "ot")
    for j, a, b in bad:
        x = res[j["id"]]; ck.case(("len", j["kind"], a, b)); ck.count("refusals")
        p = sess.sanity(x)
        if p: ck.violation("length-" + p[0], "%d messages against %d choices: %s" % (a, b, p[1]), dict(j))
        elif x["B"].get("ret") == "0" or x["A"].get("ret") == "0":
            ck.violation("length", "%d messages against %d choices: sender returned %s, receiver %s" % (a, b, x["A"].get("ret"), x["B"].get("ret")), dict(j))
    ck.sample({k: str(v)[:200] for k, v in bad[0][0].items()})


def C11(ck):
    r = ck.rng
    ck.cov["rule"] = "extended transfers of 0..2000 blocks and of integers of 1..256 bits with boundary messages and random, constant and alternating choices; distinct by messages and choices"
    jobs = []
    for n in [1, 2, 127, 128, 129, 130, 255, 256, 257, 500] + ([1024, 2000, 1500, 3000, 70000] if ck.thorough else [1100]) + [4500, 66000]:
        jobs.append(ot_job(r, "x%d" % len(jobs), "otext", n))
    for i in range(ck.n(60, 400)): jobs.append(ot_job(r, "x%d" % len(jobs), "otext", r.randint(1, 260)))
    for i in range(ck.n(80, 500)): jobs.append(ot_job(r, "x%d" % len(jobs), "otextbn", r.randint(1, 200), r.choice([1, 2, 3, 7, 8, 9, 31, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256])))
    for j in jobs: j["_cost"] = 60 + len(j["sel"]) // 5
    jobs.append(ot_job(r, "x%d" % len(jobs), "otext", 140, seg=50))
    res = ck.run(tgh(), jobs)
    for j in jobs: ot_judge(ck, j, res[j["id"]], "otext")
    ck.sample({k: str(v)[:200] for k, v in jobs[0].items()})


# -------------------------------------------------------------- C12
def small_root(y, e):
    """integer e-th root if exact"""
    if y < 2: return y
    if e > 64: return None
    lo, hi = 1, 1 << (y.bit_length() // e + 1)
    while lo < hi:
        m = (lo + hi) // 2
        if m ** e < y: lo = m + 1
        else: hi = m
    return lo if lo ** e == y else None


def encodings(bits):
    """byte strings the choice bits might be sent as (64-bit windows at every offset)"""
    for off in range(0, len(bits) - 63):
        w = bits[off:off + 64]
        x = int("".join(map(str, w)), 2)
        y = int("".join(map(str, reversed(w))), 2)
        for z in (x, y):
            yield z.to_bytes(8, "big"); yield z.to_bytes(8, "little")


def base_leak(t, sel, table=None):
    """attacks of the sender on one base transfer; returns a description or None"""
    N, e, n = t["N"], t["e"], t["n"]
    seen = {}
    vals = {}
    for i in range(n):
        v = t["v"][i]
        if v >= N: return "v of position %d is not reduced modulo the RSA modulus" % i
        if v in seen: return "positions %d and %d have the same v" % (seen[v], i)
        seen[v] = i
        for c in (0, 1):
            y = (v - t["x"][i][c]) % N
            if y < 2 or y > N - 2: return "v of position %d is x%d" % (i, c)
            if y in vals: return "positions %d and %d share their blinding (candidate choices %d and %d)" % (vals[y][0], i, vals[y][1], c)
            vals[y] = (i, c)
            k = small_root(y, e)
            if k is not None: return "the blinding of position %d is the small number %d" % (i, k)
            if table and y in table: return "the blinding of position %d is the power of the small number %d" % (i, table[y])
    return None


def columns_leak(u, m, sel):
    """attacks of the sender on the 128 columns u (m bits each); sel: int"""
    full = (1 << m) - 1
    for i, x in enumerate(u):
        if x > full: return "column %d is longer than the number of messages" % i
        if m >= 40 and x in (sel, sel ^ full, 0, full): return "column %d is %s" % (i, "the choice vector" if x in (sel, sel ^ full) else "constant")
    if m >= 40 and len(set(u)) != len(u): return "two columns are equal"
    if m >= 40:
        prs = {}
        for i in range(len(u)):
            for k in range(i):
                x = u[i] ^ u[k]
                if x in (sel, sel ^ full): return "columns %d and %d differ by the choice vector" % (k, i)
                if x in prs: return "columns %s and %s have the same difference" % (prs[x], (k, i))
                prs[x] = (k, i)
    # rows
    k = len(u)
    rows = [sum(((x >> j) & 1) << i for i, x in enumerate(u)) for j in range(m)]
    seen = {}
    for j, w in enumerate(rows):
        n1 = bin(w).count("1")
        if n1 <= k // 2 - 50 or n1 >= k // 2 + 50: return "row %d has weight %d of %d" % (j, n1, k)
        for z, c in ((w, 0), (w ^ ((1 << k) - 1), 1)):
            if z in seen: return "rows %d and %d are %s" % (seen[z], j, "equal" if c == 0 else "complementary")
        seen[w] = j
    if m >= k + 80:
        b = gf2_rank_and_span(u)
        if in_span(b, sel): return "the choice vector is a sum of columns"
        if in_span(gf2_rank_and_span(u + [full]), sel): return "the choice vector is a sum of columns, complemented"
    return None


def columns_again(u, m):
    """equal choices everywhere: a window of a column which occurs again, straight or inverted, shows that two positions agree"""
    M = (1 << 64) - 1
    seen = {}
    for i, x in enumerate(u):
        b = x.to_bytes(m // 8 + 8, "little")
        if x >> m: return "column %d is longer than the number of messages" % i
        for o in range(0, m // 8 - 7, 8):
            w = int.from_bytes(b[o:o + 8], "little")
            for z in (w, w ^ M):
                if z in seen: return "bits %d.. of column %d are those of column %d from bit %d on%s: the receiver's choices there compare" % (8 * o, i, seen[z][0], 8 * seen[z][1], "" if z == w else ", inverted")
            seen[w] = (i, o)
    return None


def C12(ck):
    r = ck.rng
    ck.cov["rule"] = ("recorded base and extended transfers and OT sessions with random choices; attacks of the sender: unreduced, repeated, small or low-exponent blindings, equal, constant or linearly "
                      "dependent columns and rows, raw choice bits on the wire, across two transfers; distinct by transcript")
    jobs = []
    for i, n in enumerate([128, 100, 64] + [r.randint(2, 40) for _ in range(ck.n(40, 300))]):
        j = ot_job(r, "b%d" % i, "ot", n, rec=os.path.join(ck.wd, "b%d" % i))
        j["sel"] = "".join(r.choice("01") for _ in range(n)); jobs.append(j)
    for i, n in enumerate([1000, 300, 300, 520, 520, 220, 128, 64] + [r.randint(41, 400) for _ in range(ck.n(6, 60))]):
        j = ot_job(r, "x%d" % i, "otext" if i % 4 else "otextbn", n, rec=os.path.join(ck.wd, "x%d" % i))
        j["sel"] = "".join(r.choice("01") for _ in range(n)); j["_cost"] = 100; jobs.append(j)
    # one long extension: nothing the columns are made of repeats, so constant choices show nothing
    for i, (n, z) in enumerate([(70000, "0"), (70000, "1")] + [(140000, "0")] * ck.thorough):
        j = ot_job(r, "big%d" % i, "otext", n, rec=os.path.join(ck.wd, "big%d" % i), _cost=4000, timeout=400)
        j["sel"] = z * n; jobs.append(j)
    res = ck.run(tgh(), jobs)
    prev = {}
    st = {}
    stat = [0, 0]
    cand = Candidates()
    first = True
    for j in jobs:
        x = res[j["id"]]
        if not ot_judge(ck, j, x, "transfer"): continue
        ab, ba = streams(j["rec"])
        S, V = wire.Cursor(ab), wire.Cursor(ba)
        n = len(j["sel"]); sel = int(j["sel"][::-1], 2)
        try: t = wire.take_ot(S, V) if j["kind"] == "ot" else wire.take_ext(S, V, n)
        except ValueError as er: ck.violation("shape", "%s: %s" % (j["id"], er), dict(j)); continue
        if (S.left(), V.left()) != (0, 0): ck.violation("extra", "%d and %d bytes besides the transfer" % (S.left(), V.left()), dict(j))
        ck.count("receiver_bytes_inspected", len(ba))
        bits = [int(b) for b in j["sel"]]
        for w in encodings(bits) if n < 5000 else encodings(bits[:200]):
            if w in ba: ck.violation("raw", "64 consecutive choice bits appear on the wire (%d of %d)" % (n, ba.find(w)), dict(j)); break
        if j["kind"] == "ot":
            table = None
            if first or n >= 100:
                first = False
                lim = ck.n(2048, 1 << 16)
                table = {pow(k, t["e"], t["N"]): k for k in range(lim)}; ck.count("small_blindings_tried", lim)
            p = base_leak(t, sel, table)
            ck.count("base_positions", n)
            for i in range(n):     # does the size of v give the choice away?
                c = int(t["v"][i] >= t["x"][i][0]); stat[0] += 1; stat[1] += c == bits[i]
            ms = [tuple(int.from_bytes(bytes.fromhex(q), "little") for q in z.split(":")) for z in j["m"].split(",")]
            for i in range(n):
                k = [t["c"][i][c] - ms[i][c] for c in (0, 1)]
                p = p or cand.add(t["N"], k[bits[i]], k[1 - bits[i]])
            if p: ck.violation("base", "%d transfers: %s" % (n, p), dict(j))
        else:
            ext_inputs(ck, st, x, j["id"], j)
            p = columns_leak(t["u"], n, sel) if n < 5000 else columns_again(t["u"], n)
            if n >= 5000: ck.count("long_columns", len(t["u"]))
            if p: ck.violation("extension", "%d transfers: %s" % (n, p), dict(j))
            ck.count("columns", len(t["u"])); ck.count("extended_positions", n)
            p = base_leak(t["base"], None)
            seeds = [int(z, 16) for z in x["B"].get("otmsg", "").split(",") if z]
            S_ = x["A"].get("otsel", "").split(",")[-1]
            if len(seeds) == 2 * t["base"]["n"] and ":" in S_:
                S_ = int(S_.split(":")[1], 16)
                for i in range(t["base"]["n"]):
                    k = [t["base"]["c"][i][c] - seeds[2 * i + c] for c in (0, 1)]; b = (S_ >> i) & 1
                    p = p or cand.add(t["base"]["N"], k[b], k[1 - b])
            if p: ck.violation("extension-base", "the sender's own choices in the base transfer: %s" % p, dict(j))
            if n in prev:
                pu, psel = prev[n]
                full = (1 << n) - 1
                if any((pu[i] ^ t["u"][i]) in (psel ^ sel, psel ^ sel ^ full) for i in range(len(pu))):
                    ck.violation("two-runs", "columns of two runs differ by the difference of the choices", dict(j))
                if n >= 400 and in_span(gf2_rank_and_span(pu + t["u"]), sel): ck.violation("two-runs", "the choice vector is a sum of columns of two runs", dict(j))
                ck.count("pairs_of_runs")
            prev[n] = (t["u"], sel)
    ck.count("blinding_candidates", 2 * cand.n)
    p = cand.judge()
    if p: ck.violation("base-candidates", p, None)
    if stat[0] > 100 and abs(stat[1] - stat[0] / 2) > 4 * stat[0] ** .5:
        ck.violation("base-order", "comparing v with x0 predicts the choice in %d of %d positions" % (stat[1], stat[0]), None)
    # sessions: the evaluator's bits
    jobs, ex = [], {}
    for i, (ei, e, cc, low) in enumerate([(70, 0, 1, 0), (0, 100, 1, 0), (0, 66, 2, 1), (64, 64, 2, 1), (0, 140, 1, 0), (130, 10, 2, 1), (30, 70, 2, 0), (0, 135, 2, 1)]):
        c = circ.rand_circ(r, seq=True, sizes=(0, 2, ei, 0, 3, e), ng=60); p = os.path.join(ck.wd, "g%d.scd" % i); c.write(p)
        v = values(r, c, cc, "rnd")
        j = sess.job("g%d" % i, p, v, cc, 0, 0, True, low, rec=os.path.join(ck.wd, "g%d" % i), _cost=100)
        jobs.append(j); ex[j["id"]] = (c, v, cc)
    res = ck.run(tgh(), jobs)
    for j in jobs:
        c, v, cc = ex[j["id"]]; x = res[j["id"]]; e = sess.Exp(c, v, cc)
        ck.case(("session", c.header(), cc, tuple(sorted(v.items()))))
        p = sess.verdict(x, e, 0, e.n)
        if p: ck.violation("session-" + p[0], p[1] + " %s" % describe(c, v, cc=cc), dict(j)); continue
        ab, ba = streams(j["rec"])
        try: t = wire.walk(c, wire.Secrecy(c, v, cc, cc), cc, cc, 0, 0, j["low_mem"], ab, ba, ot=True)
        except ValueError as er: ck.violation("session-shape", "%s %s" % (er, describe(c, v, cc=cc)), dict(j)); continue
        if t["left"] != (0, 0): ck.violation("session-extra", "%d/%d unexplained bytes %s" % (t["left"] + (describe(c, v, cc=cc),)), dict(j))
        for k, n in (("e_init", c.ei), ("e_input", c.e * cc)):
            bits = [(v[k] >> i) & 1 for i in range(n)]
            for w in encodings(bits):
                if w in ba: ck.violation("session-raw", "64 consecutive bits of %s appear on the wire %s" % (k, describe(c, v, cc=cc)), dict(j)); break
        off, seli = 0, []
        allsel = [(v["e_init"] >> i) & 1 for i in range(c.ei)] + [(v["e_input"] >> i) & 1 for i in range(c.e * cc)]
        for o in t["ots"]:
            b = allsel[off:off + o["n"]]; off += o["n"]
            if not b: continue
            si = sum(z << i for i, z in enumerate(b))
            p = columns_leak(o["u"], o["n"], si) if "u" in o else base_leak(o, si)
            if p: ck.violation("session-ot", "%s %s" % (p, describe(c, v, cc=cc)), dict(j))
            ck.count("session_choices", o["n"])
    ck.sample({k: str(v)[:120] for k, v in jobs[0].items()})


class Candidates:
    """the sender of a base transfer sees two candidates for the receiver's blinding of every position: its own mask
    of each message.  Nothing may tell the one the receiver really drew from the other"""
    def __init__(s): s.n, s.bits, s.less, s.width = 0, {}, 0, 0
    def add(s, N, true, other):
        s.n += 1; s.width = max(s.width, N.bit_length()); s.less += true < other
        for nm, k in (("true", true), ("other", other)):
            if k < 0 or k.bit_length() < N.bit_length() - 64: return "the %s candidate for a blinding has %d bits only" % (nm, k.bit_length())
        s.bits.setdefault("t", []).append(true); s.bits.setdefault("o", []).append(other)
    def judge(s):
        if s.n < 300: return None
        if abs(s.less - s.n / 2) > 4 * s.n ** .5: return "the blinding the receiver drew is the smaller candidate in %d of %d positions" % (s.less, s.n)
        cnt = []
        for l in (s.bits["t"], s.bits["o"]):
            # bit counts of all positions at once
            acc = [0] * s.width
            for k in l:
                for b, ch in enumerate(reversed(bin(k)[2:])):
                    if ch == "1" and b < s.width: acc[b] += 1
            cnt.append(acc)
        for b in range(s.width):
            if abs(cnt[0][b] - cnt[1][b]) > 6 * s.n ** .5:
                return "bit %d is set in %d of %d blindings the receiver drew but in %d of the others" % (b, cnt[0][b], s.n, cnt[1][b])
        return None


def ext_inputs(ck, st, x, what, j):
    """the extension's own choices and seeds as they enter the base transfer"""
    for z in x["A"].get("otsel", "").split(","):
        if not z: continue
        n, h = z.split(":"); n = int(n); s = int(h, 16); k = bin(s).count("1")
        ck.count("extension_choice_vectors")
        if n < 80: ck.violation("ext-base-size", "%s: the extension rests on only %d base transfers" % (what, n), dict(j))
        elif s >> n or k <= n / 2 - 4 * n ** .5 or k >= n / 2 + 4 * n ** .5:
            ck.violation("ext-choices", "%s: the sender's %d secret choices of the base transfer are %X: guessable, so the receiver can compute every mask" % (what, n, s), dict(j))
        elif (n, s) in st: ck.violation("ext-choices-again", "%s: the sender's secret choices of the base transfer are those of %s" % (what, st[(n, s)]), dict(j))
        st[(n, s)] = what
    m = [int(z, 16) for z in x["B"].get("otmsg", "").split(",") if z]
    if m:
        ck.count("extension_seeds", len(m))
        if min(m).bit_length() < 64: ck.violation("ext-seed", "%s: a seed of the extension is the guessable value %X" % (what, min(m)), dict(j))
        for z in m:
            if ("seed", z) in st: ck.violation("ext-seed-again", "%s: the seed %X was used before, in %s" % (what, z, st[("seed", z)]), dict(j)); break
            st[("seed", z)] = what


# -------------------------------------------------------------- C13
def C13(ck):
    r = ck.rng
    ck.cov["rule"] = ("recorded base and extended transfers of known messages; masks recovered from messages and ciphertexts must be fresh in every position and word, unrelated to what the receiver holds, and "
                      "the unchosen message must not be readable; distinct by transcript")
    jobs = []
    for i in range(ck.n(40, 300)):
        bits = r.choice([128, 128, 64, 200, 500]) if i % 2 else 128
        j = ot_job(r, "b%d" % i, "otbn" if i % 2 else "ot", r.choice([1, 3, 10, 30, 128][:4 + (i == 0)]), bits, rec=os.path.join(ck.wd, "b%d" % i)); jobs.append(j)
    for i in range(ck.n(40, 300)):
        bits = r.choice([3, 7, 13, 60, 65, 100, 120, 127, 129, 200, 250, 255, 256]) if i % 2 else 128
        j = ot_job(r, "x%d" % i, "otextbn" if i % 2 else "otext", r.choice([2, 60, 129, 200, 300]), bits, rec=os.path.join(ck.wd, "x%d" % i)); j["_cost"] = 100; jobs.append(j)
    for i, n in enumerate([66000] + [140000] * ck.thorough):
        jobs.append(ot_job(r, "big%d" % i, "otext", n, rec=os.path.join(ck.wd, "big%d" % i), _cost=4000, timeout=400))
    res = ck.run(tgh(), jobs)
    st = {}
    agg = {}
    for j in jobs:
        x = res[j["id"]]
        if not ot_judge(ck, j, x, "transfer"): continue
        ab, ba = streams(j["rec"])
        S, V = wire.Cursor(ab), wire.Cursor(ba)
        n = len(j["sel"]); base = j["kind"] in ("ot", "otbn"); L = j["bits"]
        try: t = wire.take_ot(S, V) if base else wire.take_ext(S, V, n)
        except ValueError as er: ck.violation("shape", "%s: %s" % (j["id"], er), dict(j)); continue
        if (S.left(), V.left()) != (0, 0): ck.violation("extra", "%d and %d bytes besides the transfer" % (S.left(), V.left()), dict(j))
        if j["kind"] in ("ot", "otext"): ms = [tuple(int.from_bytes(bytes.fromhex(q), "little") for q in p.split(":")) for p in j["m"].split(",")]
        else: ms = [tuple(int(q, 16) for q in p.split(":")) for p in j["m"].split(",")]
        sel = [int(b) for b in j["sel"]]
        d = "%s, %d messages of %d bits" % (j["kind"], n, L)
        p = None
        if not base: ext_inputs(ck, st, x, d + " (%s)" % j["id"], j)
        if base:
            N = t["N"]
            masks = [(t["c"][i][0] - ms[i][0], t["c"][i][1] - ms[i][1]) for i in range(n)]
            seen = {}
            for i in range(n):
                if t["x"][i][0] == t["x"][i][1]: p = "position %d: x0 equals x1, so both masks are the receiver's" % i
                for c in (0, 1):
                    k = masks[i][c]
                    if k < 0 or k >> (min(L + 80, 960)) == 0: p = p or "position %d message %d is masked by the small number %d" % (i, c, k)
                    if k in seen: p = p or "the mask of position %d message %d is that of position %d message %d" % ((i, c) + seen[k])
                    seen[k] = (i, c)
                k, kc = masks[i][sel[i]], t["c"][i][1 - sel[i]]
                m1 = ms[i][1 - sel[i]]
                if L >= 64:
                    # what the receiver can compute from its own mask, positions and public values
                    for nm, z in (("the ciphertext itself", kc), ("its own mask", kc - k), ("the negated mask", kc - (N - k)), ("its mask and the x values", kc - (k + t["x"][i][1 - sel[i]] - t["x"][i][sel[i]]) % N),
                                  ("its mask, xored", kc ^ k)):
                        if z == m1 and m1 >> 32: p = p or "position %d: the unchosen message follows from %s" % (i, nm)
                # is the mask the RSA root it should be?  (k_c ^ e == v - x_c)
                for c in (0, 1):
                    if pow(masks[i][c], t["e"], N) != (t["v"][i] - t["x"][i][c]) % N: p = p or "position %d message %d: the mask is not the secret power of v - x%d" % (i, c, c)
            if N.bit_length() < 1000: p = p or "RSA modulus of %d bits" % N.bit_length()
            if t["e"] < 3: p = p or "RSA exponent %d" % t["e"]
            p = p or x_again(t, st)
            ck.count("base_masks", 2 * n)
        else:
            full = (1 << L) - 1
            masks = [tuple((t["y"][i][c] ^ ms[i][c]) for c in (0, 1)) for i in range(n)]
            if any(k > full for q in masks for k in q): p = "a ciphertext is longer than the message"
            else:
                # every bit of every mask is used: neither constant over the positions nor equal between the two messages
                if n >= 60:
                    for b in range(L):
                        for nm, col in (("message 0", [(q[0] >> b) & 1 for q in masks]), ("message 1", [(q[1] >> b) & 1 for q in masks]),
                                        ("their difference", [((q[0] ^ q[1]) >> b) & 1 for q in masks])):
                            k = sum(col)
                            if abs(k - n / 2) > 4.5 * n ** .5: p = p or "bit %d of the mask of %s is %d in %d of %d positions" % (b, nm, int(k > n / 2), max(k, n - k), n)
                if L >= 64:
                    W = 60
                    seen = {}
                    for i in range(n):
                        for c in (0, 1):
                            for o in range(0, L - W + 1, 64):
                                k = (masks[i][c] >> o) & ((1 << W) - 1)
                                if k in seen: p = p or "%d bits of the mask of position %d message %d at bit %d occur again in position %d message %d at bit %d" % ((W, i, c, o) + seen[k])
                                seen[k] = (i, c, o)
                        if L >= 100:
                            dd = masks[i][0] ^ masks[i][1]
                            if ("d", dd) in seen: p = p or "positions %d and %d have the same difference of masks" % (i, seen[("d", dd)])
                            seen[("d", dd)] = i
                for i in range(n):
                    for c in (0, 1):
                        k = masks[i][c]
                        for b in {0, 1, 7, 8, 63, 64, L // 2, L - 8, L - 2, L - 1}:
                            if 0 <= b < L:
                                for key in {("bit", b, c), ("bit from the top", L - 1 - b, c), ("bit at even positions", b, c) if i % 2 == 0 else ("bit at odd positions", b, c),
                                            (("top-bit at even positions" if i % 2 == 0 else "top-bit at odd positions"), L - 1 - b, c)}:
                                    z = agg.setdefault(key, [0, 0]); z[0] += 1; z[1] += (k >> b) & 1
                ck.count("extension_masks", 2 * n)
            q = base_mask_leak(t["base"], st)
            if q: p = p or "base transfer of the extension: " + q
        # the unchosen message in the clear
        if L >= 64:
            for i in range(n):
                m1 = ms[i][1 - sel[i]]
                if m1 >> 48 and m1 not in (full_of(L), 1 << (L - 1)) and (m1 & (m1 + 1)):
                    if bin(m1).count("1") < 12 or bin(m1).count("0") < 12: continue
                    for w in (m1.to_bytes((L + 7) // 8, "big"), m1.to_bytes((L + 7) // 8, "little")):
                        if w.strip(b"\0") in ab and len(w.strip(b"\0")) >= 8: p = p or "position %d: the unchosen message is on the wire" % i
        if p: ck.violation("mask", "%s: %s" % (d, p), dict(j))
    for (nm, b, c), (n, one) in sorted(agg.items()):
        if n >= 200 and abs(one - n / 2) > 4.5 * n ** .5:
            ck.violation("bias", "%s %d of the masks of message %d is set in %d of %d positions of all transfers" % (nm, b, c, one, n), None)
    ck.cov["bit_positions_tested"] = len(agg)
    # the masks of the extension depend on every bit of what only the receiver's other choice would give
    jobs, ex = [], {}
    for i in range(ck.n(3, 20)):
        v = r.getrandbits(128); L = r.choice([64, 128, 200, 256]); tw = r.choice([0, 1, 77, 128, 65536])
        vs = [v] + [v ^ (1 << b) for b in range(128)]
        jobs.append(dict(id="h%d" % i, kind="bnops", ops=";".join("hash:%d:%d:%X" % (L, tw, z) for z in vs), _cost=1)); ex["h%d" % i] = (L, vs)
    res = ck.run(tgh(), jobs)
    for j in jobs:
        L, vs = ex[j["id"]]; x = res[j["id"]]
        if report_sanity(ck, x, j, "S", "hash"): continue
        o = [l.split() for l in x["S"].get("r", [])]
        if not o or o[0][0] == "-7": continue     # no such function here
        seen = {}
        for z, y in zip(vs, o):
            ck.case(("hash", L, z)); ck.count("hash_inputs")
            if y[1] in seen: ck.violation("hash", "the masks of %032X and %032X are the same: a bit of the secret does not matter" % (seen[y[1]], z), dict(j)); break
            seen[y[1]] = z
    ck.sample({k: str(v)[:120] for k, v in jobs[0].items()})
    sessions_otr(ck, r)


def full_of(L): return (1 << L) - 1


def x_again(t, st):
    """a receiver which answers a repeated pair x0, x1 as before gets the same masks"""
    for i, (a, b) in enumerate(t["x"]):
        for z in (a, b):
            if ("x", z) in st: return "the random value %X.. of position %d was used before" % (z >> max(0, z.bit_length() - 64), i)
            st[("x", z)] = i
    return None


def base_mask_leak(t, st):
    """with unknown messages of 128 bits: the top of the ciphertexts is the top of the masks"""
    p = x_again(t, st)
    if p: return p
    seen = {}
    for i, (a, b) in enumerate(t["c"]):
        for c, k in ((0, a), (1, b)):
            if k >> 300 == 0: return "ciphertext %d/%d has only %d bits" % (i, c, k.bit_length())
            h = k >> 200
            if h in seen or h + 1 in seen: return "masks of position %d and %d agree" % (i, seen.get(h, seen.get(h + 1)))
            seen[h] = i
    return None


def sessions_otr(ck, r):
    """garbled-circuit sessions over OT: what the evaluator receives, with the offset known"""
    jobs, ex = [], {}
    for i, (ei, e, cc, low) in enumerate([(20, 0, 1, 0), (0, 30, 1, 0), (3, 20, 2, 1), (0, 140, 1, 0), (131, 3, 2, 1), (5, 6, 3, 0)]):
        c = circ.rand_circ(r, seq=True, sizes=(0, 2, ei, 0, 3, e), ng=60); p = os.path.join(ck.wd, "s%d.scd" % i); c.write(p)
        v = values(r, c, cc, "rnd")
        j = sess.job("s%d" % i, p, v, cc, 0, 0, True, low, rec=os.path.join(ck.wd, "s%d" % i), _cost=100)
        jobs.append(j); ex[j["id"]] = (c, v, cc)
    res = ck.run(tgh(), jobs)
    for j in jobs:
        c, v, cc = ex[j["id"]]; x = res[j["id"]]; e = sess.Exp(c, v, cc)
        ck.case(("session", c.header(), cc, tuple(sorted(v.items()))))
        d = describe(c, v, cc=cc, low=j["low_mem"])
        p = sess.verdict(x, e, 0, e.n)
        if p: ck.violation("session-" + p[0], p[1] + " %s" % d, dict(j)); continue
        ab, ba = streams(j["rec"])
        try: t = wire.walk(c, wire.Secrecy(c, v, cc, cc), cc, cc, 0, 0, j["low_mem"], ab, ba, ot=True)
        except ValueError as er: ck.violation("session-shape", "%s %s" % (er, d), dict(j)); continue
        if t["left"] != (0, 0): ck.violation("session-extra", "%d/%d unexplained bytes %s" % (t["left"] + (d,)), dict(j))
        R = x["A"].get("secrets", "").split(":")[0]
        R = int.from_bytes(bytes.fromhex(R), "little") if R else None
        seen = {}
        for o in t["ots"]:
            if "u" in o:
                for i, (a, b) in enumerate(o["y"]):
                    ck.count("session_pairs")
                    if R is not None and (a ^ b == R or a ^ b == 0): ck.violation("session-pair", "position %d: both labels are masked alike %s" % (i, d), dict(j))
                    for k in (a, b, a ^ b):
                        if k in seen: ck.violation("session-repeat", "positions %d and %d repeat a masked label %s" % (i, seen[k], d), dict(j))
                        seen[k] = i
            else:
                for i, (a, b) in enumerate(o["c"]):
                    ck.count("session_pairs")
                    if a.bit_length() < 300 or b.bit_length() < 300 or abs(a - b).bit_length() < 300: ck.violation("session-pair", "position %d: a label is hardly masked %s" % (i, d), dict(j))


# -------------------------------------------------------------- C16
def C16(ck):
    r = ck.rng
    ck.cov["rule"] = "random and boundary numbers and blocks: conversions, xor, inversion, all-ones, transposition and transfer against integer arithmetic; distinct by operation"
    jobs, want = [], {}
    tr = lambda vals, bl: [sum(((v >> i) & 1) << k for k, v in enumerate(vals)) for i in range(bl)]

    def num(bits):
        s = r.random()
        if s < .12: return 0
        if s < .24: return (1 << bits) - 1
        if s < .3: return 1
        if s < .36: return 1 << max(bits - 1, 0)
        return r.getrandbits(max(bits, 1)) >> r.choice([0, 0, r.randrange(max(bits, 1))])
    per = ck.n(3000, 20000)
    ops = []

    def op(text, f): ops.append((text, f))
    B = [0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]
    for i in range(per):
        b = r.choice(B); x, y, z = num(r.choice(B)), num(r.choice(B)), num(r.choice([0, 0, 5, 64, 128, 300]))
        m = (1 << b) - 1
        op("xor:%d:%X:%X:%X" % (b, x, y, z), lambda w, b=b, x=x, y=y, z=z, m=m: int(w[1], 16) & m == (x ^ y) & m and int(w[1], 16) & ~m in (z & ~m, 0))
        op("inv:%d:%X" % (b, x), lambda w, x=x, m=m: w[0] == "1" and int(w[1], 16) == x ^ m)
        op("ones:%d:%X" % (b, x), lambda w, m=m: w[0] == "1" and int(w[1], 16) == m)
        k = num(128)
        h = k.to_bytes(16, "little").hex()
        op("b2n:%s" % h, lambda w, k=k, h=h: int(w[0], 16) == k and w[1] == h)
        q = num(r.choice([0, 1, 8, 15, 16, 64, 120, 127, 128, 129, 200]))
        op("n2b:%X" % q, lambda w, q=q: w[0] == (q & ((1 << 128) - 1)).to_bytes(16, "little").hex())
        if i % 4 == 0:
            n, bl = r.choice([1, 2, 3, 8, 9, 17, 64, 65, 130]), r.choice([1, 2, 8, 15, 64, 128, 131])
            vals = [num(bl) for _ in range(n)]
            op("sw:%d:%s" % (bl, ",".join("%X" % v for v in vals)),
               lambda w, vals=vals, bl=bl: w[0] == "0" and [int(t, 16) for t in w[1].split(",")] == tr(vals, bl) and w[2] == "0" and [int(t, 16) for t in w[3].split(",")] == vals)
            v1 = [num(bl) for _ in range(n)]
            op("swp:%d:%s:%s" % (bl, ",".join("%X" % v for v in vals), ",".join("%X" % v for v in v1)),
               lambda w, vals=vals, v1=v1, bl=bl: w[0] == "0" and [int(t, 16) for t in w[1].split(",")] == tr(vals, bl) and [int(t, 16) for t in w[2].split(",")] == tr(v1, bl))
    # wide matrices: an extension of thousands of transfers
    for n, bl in [(128, 5000), (3, 66000), (2500, 40), (1, 9000), (70000, 2)] + [(128, 70000), (5000, 128)] * ck.thorough:
        for z in range(2):
            vals = [r.getrandbits(bl) for _ in range(n)]
            v1 = [r.getrandbits(bl) for _ in range(n)]
            op("sw:%d:%s" % (bl, ",".join("%X" % v for v in vals)),
               lambda w, vals=vals, bl=bl: w[0] == "0" and [int(t, 16) for t in w[1].split(",")] == tr(vals, bl) and w[2] == "0" and [int(t, 16) for t in w[3].split(",")] == vals)
            op("swp:%d:%s:%s" % (bl, ",".join("%X" % v for v in vals), ",".join("%X" % v for v in v1)),
               lambda w, vals=vals, v1=v1, bl=bl: w[0] == "0" and [int(t, 16) for t in w[1].split(",")] == tr(vals, bl) and [int(t, 16) for t in w[2].split(",")] == tr(v1, bl))
    for i in range(0, len(ops), 40): jobs.append(dict(id="o%d" % i, kind="bnops", ops=";".join(o for o, _ in ops[i:i + 40])))
    res = ck.run(tgh(), jobs)
    for i, j in zip(range(0, len(ops), 40), jobs):
        x = res[j["id"]]
        if report_sanity(ck, x, j, "S", "bn"): continue
        lines = x["S"].get("r", [])
        for (text, f), line in zip(ops[i:i + 40], lines):
            ck.case(text)
            try: ok = f(line.split())
            except (IndexError, ValueError): ok = False
            if not ok: ck.violation("op-" + text.split(":")[0], "%s gave %s" % (text[:300], line[:300]), dict(kind="bnops", ops=text))
        if len(lines) != len(ops[i:i + 40]): ck.violation("op-missing", "%d results of %d" % (len(lines), len(ops[i:i + 40])), dict(j))
    # transfer of numbers
    jobs, ex = [], {}
    for i in range(ck.n(200, 2000)):
        vals = [num(r.choice([0, 1, 7, 8, 9, 64, 128, 1000, 1024, 2048, 5000])) for _ in range(r.choice([1, 2, 5, 12]))]
        if i == 0: vals = [0, 0, 1, 0, 255, 256]
        if i == 1: vals = [r.getrandbits(8 * 70000), 0, r.getrandbits(8 * 300000)]
        if i == 2: vals = [7, r.getrandbits(8 * 1500000), 5, r.getrandbits(8 * 3000000), 1]
        j = dict(id="t%d" % i, kind="bn2p", vals=",".join("%X" % v for v in vals), count=len(vals), pre="%X" % num(r.choice([0, 8, 200, 4000])), seg=r.choice([0, 0, 1, 3, 4, 5]) if i not in (1, 2) else 0)
        jobs.append(j); ex[j["id"]] = vals
    res = ck.run(tgh(), jobs)
    for j in jobs:
        x = res[j["id"]]; vals = ex[j["id"]]; ck.case(("send", j["vals"]), len(vals))
        if report_sanity(ck, x, j, "AB", "send"): continue
        got = [int(g, 16) for g in x["B"].get("vals", "").split(",") if g]
        if x["A"].get("ret") != "0" or x["B"].get("ret") != "0" or got != vals:
            ck.violation("send", "sent %s, received %s (ret %s/%s)" % (j["vals"][:200], x["B"].get("vals", "")[:200], x["A"].get("ret"), x["B"].get("ret")), dict(j))
    ck.sample(ops[0][0]); ck.sample(dict(jobs[0]))


# -------------------------------------------------------------- C23
class AES:
    SB = None

    @classmethod
    def tables(cls):
        p = q = 1; sb = [0] * 256
        while True:
            p = p ^ ((p << 1) & 255) ^ (0x1B if p & 0x80 else 0)
            q ^= q << 1; q ^= q << 2; q ^= q << 4; q &= 255
            if q & 0x80: q ^= 0x09
            rot = lambda x, k: ((x << k) | (x >> (8 - k))) & 255
            sb[p] = (q ^ rot(q, 1) ^ rot(q, 2) ^ rot(q, 3) ^ rot(q, 4)) ^ 0x63
            if p == 1: break
        sb[0] = 0x63
        cls.SB = sb
        cls.X2 = [((x << 1) & 255) ^ (0x1B if x & 0x80 else 0) for x in range(256)]

    def __init__(s, key):
        if AES.SB is None: AES.tables()
        SB = AES.SB
        nk = len(key) // 4; s.nr = nk + 6
        w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
        rc = 1
        for i in range(nk, 4 * (s.nr + 1)):
            t = list(w[i - 1])
            if i % nk == 0:
                t = [SB[t[1]] ^ rc, SB[t[2]], SB[t[3]], SB[t[0]]]; rc = AES.X2[rc]
            elif nk > 6 and i % nk == 4: t = [SB[x] for x in t]
            w.append([a ^ b for a, b in zip(w[i - nk], t)])
        s.rk = [sum(w[4 * i:4 * i + 4], []) for i in range(s.nr + 1)]

    def enc(s, pt):
        SB, X2 = AES.SB, AES.X2
        st = [a ^ b for a, b in zip(pt, s.rk[0])]
        for rd in range(1, s.nr + 1):
            st = [SB[st[(4 * ((i // 4 + i % 4) % 4)) + i % 4]] for i in range(16)]
            if rd < s.nr:
                o = []
                for c in range(0, 16, 4):
                    a = st[c:c + 4]; t = a[0] ^ a[1] ^ a[2] ^ a[3]
                    o += [a[k] ^ t ^ X2[a[k] ^ a[(k + 1) % 4]] for k in range(4)]
                st = o
            st = [a ^ b for a, b in zip(st, s.rk[rd])]
        return bytes(st)


def C23(ck):
    r = ck.rng
    ck.cov["rule"] = "FIPS-197 and random/boundary keys of 128, 192 and 256 bits, batches of 0..300 blocks, encrypted together and one by one and decrypted again, each compared with an independent AES; distinct by key and blocks"
    for n, h in ((16, "69c4e0d86a7b0430d8cdb78070b4c55a"), (24, "dda97ca4864cdfe06eaf70a0ec0d7191"), (32, "8ea2b7ca516745bfeafc49904b496089")):   # FIPS-197, appendix C
        assert AES(bytes(range(n))).enc(bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == h
    cases = []
    rb = lambda n: bytes(r.getrandbits(8) for _ in range(n))
    keys = [bytes(16), b"\xff" * 16, bytes(range(16))] + [bytes([0] * k + [0x80] + [0] * (15 - k)) for k in range(16)]
    for i in range(ck.n(1200, 8000)):
        key = keys[i] if i < len(keys) else rb(r.choice([16, 16, 24, 32]))
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64] + [300] * (i % 40 == 0))
        blk = [rb(16) if r.random() < .85 else r.choice([bytes(16), b"\xff" * 16, key[:16]]) for _ in range(n)]
        cases.append((key, blk))
    # every single-bit plaintext and key
    for i in range(128):
        cases.append(((1 << i).to_bytes(16, "big"), [bytes(16)])); cases.append(((1 << 2 * i).to_bytes(32, "big"), [bytes(16)])); cases.append(((3 << i).to_bytes(24, "big"), [bytes(16)])); cases.append((bytes(16), [(1 << i).to_bytes(16, "big")] * 2))
    jobs = []
    for i in range(0, len(cases), 40): jobs.append(dict(id="a%d" % i, kind="aes", cases=";".join("%s:%s" % (k.hex(), b"".join(b).hex()) for k, b in cases[i:i + 40])))
    res = ck.run(tgh(), jobs)
    for i, j in zip(range(0, len(cases), 40), jobs):
        x = res[j["id"]]
        if report_sanity(ck, x, j, "S", "aes"): continue
        lines = x["S"].get("r", [])
        for (key, blk), line in zip(cases[i:i + 40], lines):
            w = line.split("|")
            ck.case((key, tuple(blk)), max(1, len(blk))); ck.count("blocks", len(blk)); ck.count("keys_of_%d_bits" % (8 * len(key)))
            a = AES(key); want = b"".join(a.enc(b) for b in blk).hex(); plain = b"".join(blk).hex()
            rep = dict(kind="aes", cases="%s:%s" % (key.hex(), plain))
            for nm, what, got, exp in zip(("value", "value-one", "back", "back-fast", "back-one"),
                                          ("encryption", "encryption one by one", "decryption", "decryption with the derived key", "decryption one by one"), w, (want, want, plain, plain, plain)):
                if got != exp: ck.violation(nm, "key %s, %d blocks, %s: got %s expected %s" % (key.hex(), len(blk), what, got[:200], exp[:200]), rep); break
            else:
                if w[-1] != "0": ck.violation("bounds", "memory around the blocks was changed (%d blocks)" % len(blk), dict(j))
        if len(lines) != len(cases[i:i + 40]): ck.violation("missing", "%d results of %d" % (len(lines), len(cases[i:i + 40])), dict(j))
    ck.sample(dict(key=cases[20][0].hex(), blocks=[b.hex() for b in cases[20][1]][:2]))
