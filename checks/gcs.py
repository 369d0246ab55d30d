"""Session-level properties: C01-C05, C07, C08."""
import os, random
from lib import build, circ, sess, wire
from lib.circ import Circ, AND, ANDN, NAND, NANDN, OR, ORN, NOR, NORN, XOR, XNOR, NOT, C0, C1, TYPES, NONLIN


def tgh():
    return build.build("san")["tgh"]


def vary_mask(r, n):
    x = r.random()
    if x < .3: return 0
    if x < .45: return (1 << n) - 1
    if x < .55: return 1 << r.randrange(n)
    if x < .65: return r.getrandbits(n + 7)   # longer than the outputs
    return r.getrandbits(n)


def describe(c, v, **kw):
    d = dict(header=c.header(), gates=len(c.gates), **{k: "%X" % x for k, x in v.items()})
    d.update(kw)
    return d


# -------------------------------------------------------------- circuit families
def wide(r, seq=None, term=None, **kw):
    """sizes around the machine word widths: every kind of input, register, output and the mask may be wide"""
    if seq is None: seq = r.random() < .5
    w = lambda: r.choice([0, 1, 2, 9, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 160, 257])
    n = lambda: r.choice([0, 1, 2, 5])
    k = r.randrange(4)          # which side is wide
    sz = [n() for _ in range(6)]
    for x in ((0, 3), (1, 4), (2, 5), (0, 1, 2, 3, 4, 5))[k]:
        if r.random() < .7: sz[x] = w()
    if not seq: sz[:3] = [0, 0, 0]
    if not any(sz[3:]): sz[3 + r.randrange(3)] = w() or 5
    no = r.choice([1, 8, 31, 32, 33, 64, 65, 66, 80, 96, 128, 130, 200, 260])
    kw.setdefault("local", r.choice([.05, .3]))
    kw.setdefault("consts", r.choice([.02, .2]))
    c = circ.rand_circ(r, seq=seq, sizes=tuple(sz), ng=r.choice([20, 70, 140, 300]), nout=no, term=term, **kw)
    return c


def adder(n, kinds=(AND, XOR)):
    """ripple adder g + e, n+1 outputs"""
    c = Circ(0, 0, 0, 0, n, n)
    lo = c.g_lo; carry = C0

    def gate(a, b, t):
        c.gates.append((a, b, t)); return lo + len(c.gates) - 1
    for i in range(n):
        x, y = i, n + i
        a = gate(x, carry, XOR); b = gate(y, carry, XOR)
        s = gate(a, y, XOR); d = gate(a, b, AND); carry = gate(d, carry, XOR)
        c.outs.append(s)
    c.outs.append(carry)
    return c


def accumulator(n, term_bit=None):
    """q <- q + g + e per cycle; output q"""
    c = Circ(0, n, 0, 0, n, n)
    c.I = list(range(n)); c.D = [0] * n
    lo = c.g_lo; q = c.q_lo

    def gate(a, b, t):
        c.gates.append((a, b, t)); return lo + len(c.gates) - 1

    def add(A, B):
        cy, o = C0, []
        for x, y in zip(A, B):
            a = gate(x, cy, XOR); b = gate(y, cy, XOR)
            o.append(gate(a, y, XOR)); d = gate(a, b, AND); cy = gate(d, cy, XOR)
        return o
    G = [c.in_lo + i for i in range(n)]; E = [c.in_lo + n + i for i in range(n)]; Q = [q + i for i in range(n)]
    s = add(add(G, E), Q)
    c.D = list(s); c.outs = list(s)
    if term_bit is not None: c.term = s[term_bit]
    return c


def counter(n, limit_bit, start_secret=True):
    """n-bit counter with a secret (or constant) start; terminate = bit"""
    c = Circ(0, n if start_secret else 0, 0, 0, 1, 1)
    c.I = list(range(n)) if start_secret else [C0] * n
    c.D = [0] * n
    q, lo = c.q_lo, c.q_lo + n
    cy = C1
    nx = []
    for i in range(n):
        c.gates.append((q + i, cy, XOR)); nx.append(lo + len(c.gates) - 1)
        c.gates.append((q + i, cy, AND)); cy = lo + len(c.gates) - 1
    c.gates.append((c.in_lo, c.in_lo + 1, AND)); a = lo + len(c.gates) - 1
    c.D = nx
    c.outs = [a] + nx
    c.term = nx[limit_bit]
    return c


def big_layered(r, ng, g=16, e=16, nonlin=.5):
    """many gates whose low-order ids repeat modulo 2^8 / 2^16; every gate is near an output via xor folding"""
    c = Circ(0, 0, 0, 0, g, e)
    lo = c.g_lo
    for i in range(ng):
        w = lo + i
        a, b = r.randint(max(0, w - 40), w - 1), r.randint(max(0, w - 400), w - 1)
        t = r.choice(NONLIN) if r.random() < nonlin else r.choice([XOR, XNOR])
        if i % 3 == 2: t = XOR; a = w - 1
        c.gates.append((a, b, t))
    acc = []
    for k in range(8):
        x = lo + ng - 1 - k
        for i in range(k, ng, max(8, ng // 500)):
            c.gates.append((x, lo + i, XOR)); x = lo + len(c.gates) - 1
        acc.append(x)
    c.outs = acc + [lo + ng - 1 - i for i in range(8)]
    return c


def echo(r, p, g, e):
    """Every input bit of every cycle shows in an output of that cycle, and in later ones through a DFF."""
    c = circ.Circ(0, 0, 0, p, g, e); n = max(p, g, e); c.I = [C0 if r.random() < .5 else C1 for _ in range(n)]; c.D = [0] * n
    w = lambda: c.g_lo + len(c.gates)
    for i in range(n):
        xs = ([c.in_lo + i] if i < p else []) + ([c.in_lo + p + i] if i < g else []) + ([c.in_lo + p + g + i] if i < e else [])
        r.shuffle(xs); t = xs[0]
        for x in xs[1:]:
            c.gates.append((t, x, r.choice([XOR, XNOR]))); t = w() - 1
        c.outs.append(t); q = c.q_lo + i
        c.gates.append((q, t, r.choice([AND, NOR, ORN])))
        c.gates.append((w() - 1, q if r.random() < .5 else t, r.choice([XOR, NAND])))
        c.D[i] = w() - 1
        if i % 4 == 0: c.outs.append(q)
    return c


def same_operands(r, n=3):
    """several gates of all types over the same operand pairs, on inputs and on held registers"""
    c = Circ(0, n, n, 0, n, n)
    c.I = list(range(2 * n)); c.D = [0] * (2 * n)
    q, lo = c.q_lo, c.q_lo + 2 * n
    c.D = [q + i for i in range(2 * n)]        # registers that keep their value
    src = list(range(c.in_lo, c.in_lo + 2 * n)) + [q + i for i in range(2 * n)]
    for k in range(4):
        a, b = r.sample(src, 2)
        for t in r.sample(NONLIN, 5) + [r.choice(NONLIN)] * 2:
            c.gates.append((a, b, t) if r.random() < .7 else (b, a, t))
    a, b = q + r.randrange(n), q + n + r.randrange(n)
    for t in NONLIN: c.gates.append((a, b, t))
    c.outs = [lo + i for i in range(len(c.gates))]
    return c


def held_operand(r, ng=10):
    """gates of one held register and ever new inputs: the same label under the tweaks of every cycle"""
    c = Circ(0, 2, 1, 0, 2, 2)
    q = c.q_lo
    c.I = [0, 1, 2]; c.D = [q, q + 1, q + 2]
    for k in range(ng):
        a, b = q + r.randrange(3), c.in_lo + r.randrange(4)
        # the first gates fix the order, so that each operand position holds the lasting label at least once
        c.gates.append((a, b, r.choice(NONLIN)) if (k == 0 or k > 1 and r.random() < .6) else (b, a, r.choice(NONLIN)))
    c.outs = [c.g_lo + i for i in range(ng)]
    return c


def one_operand(r, ng):
    """a very long circuit in which one label is an operand of every gate"""
    c = Circ(0, 0, 0, 0, 10, 9)
    for k in range(ng):
        a, b = 0, 1 + k % 17
        c.gates.append((a, b, AND) if k % 3 else (b, a, NORN))
    c.outs = [c.g_lo + k for k in range(ng)]
    return c


def in_span(vs, x):
    """is x a XOR of some of the vs (integers)?"""
    b = {}
    def red(v):
        while v and v.bit_length() in b: v ^= b[v.bit_length()]
        return v
    for v in map(red, vs):
        if v: b[v.bit_length()] = v
    return red(x) == 0


# -------------------------------------------------------------- common driver
class Batch:
    def __init__(s, ck, mode_default=0):
        s.ck, s.jobs, s.exp = ck, [], {}
        s.nc = 0

    def circuit(s, c):
        p = os.path.join(s.ck.wd, "c%d.scd" % s.nc); s.nc += 1
        c.write(p)
        return p

    def add(s, c, v, cc, mask=0, mode=0, ot=False, low=False, period=0, path=None, tag="", **kw):
        r = s.ck.rng
        path = path or s.circuit(c)
        i = "%d" % len(s.jobs)
        mstr = circ.hexv(mask, r)
        j = sess.job(i, path, v, cc, mstr, mode, ot, low, period, r=r, **kw)
        s.jobs.append(j)
        s.exp[i] = (sess.Exp(c, v, cc, mask, period), mode, c, v, tag)
        return j

    def judge(s, label, res=None, keyf=None):
        ck = s.ck
        res = res or ck.run(tgh(), s.jobs)
        out = []
        for j in s.jobs:
            e, mode, c, v, tag = s.exp[j["id"]]
            x = res[j["id"]]
            if x.get("unconfirmed") or (x.get("timeout") and not x.get("stalled") and not x.get("reran")):
                ck.inconclusive("%s: time limit" % j["id"]); continue
            p = sess.verdict(x, e, mode, e.n)
            ck.case((c.scd(), j["cc"], mode, j["mask"], tuple(sorted(v.items())), j["low_mem"], j["disable_ot"], j["period"]))
            ck.count("cycles", e.done); ck.count("gates_evaluated", e.done * len(c.gates)); ck.count("output_bits", e.done * e.n)
            if not j["disable_ot"]: ck.count("sessions_with_ot")
            if j["low_mem"]: ck.count("sessions_low_mem")
            if e.done < j["cc"]: ck.count("sessions_terminated_early")
            if p:
                ck.violation("%s-%s" % (label, p[0]), "%s %s: %s | %s" % (label, tag, p[1], describe(c, v, cc=j["cc"], mask=j["mask"], mode=mode, ot=not j["disable_ot"], low=j["low_mem"], period=j["period"])), dict(j))
            out.append((j, x, e, c, v, p))
        if s.jobs:
            j = s.jobs[0]; ck.sample({k: j[k] for k in j if k not in ("scd", "_cost")} | {"circuit": s.exp[j["id"]][2].header()})
        return out


def values(r, c, cc, style=None): return circ.rand_vals(r, c, cc, style)


# -------------------------------------------------------------- C01
def C01(ck):
    r = ck.rng
    ck.cov["rule"] = ("random sequential/combinational circuits (all 11 gate types, constants, repeated/inverted/public operands, dead gates, "
                      "0..n inputs of each kind), adders, accumulators, circuits with >65536 gates or >256 cycles, chained sessions; each with random values; "
                      "distinct by (circuit, values, options)")
    b = Batch(ck)
    for i in range(ck.n(900, 9000)):
        c = circ.rand_circ(r, const_out=r.random() < .15, dup=r.choice([.05, .12, .5]), pubw=r.choice([0, .3, .6]), nonlin=r.choice([.3, .6, .95]))
        cc = r.choice([1, 1, 2, 3, 5, 9])
        b.add(c, values(r, c, cc), cc, vary_mask(r, len(c.outs)), tag="random")
    for i in range(ck.n(12, 150)):       # OT, base
        c = circ.rand_circ(r)
        cc = r.choice([1, 2, 3])
        b.add(c, values(r, c, cc), cc, vary_mask(r, len(c.outs)), ot=True, tag="ot")
    for i in range(ck.n(5, 40)):         # OT extension: more than 128 evaluator bits
        n = r.choice([129, 130, 200, 260])
        c = circ.rand_circ(r, seq=r.random() < .5, sizes=(0, 2, r.choice([0, 40]), 0, 9, n), ng=150, nout=40)
        cc = r.choice([1, 2]) if n < 200 else 1
        b.add(c, values(r, c, cc), cc, vary_mask(r, len(c.outs)), ot=True, tag="ot-ext", _cost=60)
    # exactly 128 bits, and 127
    for n in (127, 128):
        c = circ.rand_circ(r, seq=False, sizes=(0, 0, 0, 0, 3, n), ng=120, nout=60)
        b.add(c, values(r, c, 1), 1, 0, ot=True, tag="ot-%d" % n, _cost=60)
    for i in range(ck.n(4, 40)):
        n = r.choice([8, 16, 32, 64, 100])
        c = adder(n); b.add(c, values(r, c, 1), 1, vary_mask(r, n + 1), tag="adder")
        c = accumulator(n); cc = r.choice([3, 17]); b.add(c, values(r, c, cc), cc, vary_mask(r, n), tag="accumulator")
    # identifiers and cycle numbers beyond 8 and 16 bits
    c = accumulator(3); b.add(c, values(r, c, 300, "rnd"), 300, vary_mask(r, 3), tag="300 cycles")
    c = circ.rand_circ(r, ng=40, seq=True); b.add(c, values(r, c, 700), 700, 0, tag="700 cycles", _cost=10)
    # positions of input bits beyond 10, 12 and 16 bits, in cycles beyond 8, 10 and 12 bits
    for sz, cc, ot in [((3, 3, 3), 1100, False), ((2, 3, 2), 1100, True), ((40, 44, 42), 1700, False), ((2, 1, 1), 4300, False)] + ([((9, 8, 9), 7400, True)] if ck.thorough else []):
        c = echo(r, *sz); b.add(c, values(r, c, cc, "rnd"), cc, vary_mask(r, len(c.outs)), ot=ot, tag="%d cycles" % cc, _cost=60, timeout=300)
    c = big_layered(r, 700); b.add(c, values(r, c, 1, "rnd"), 1, vary_mask(r, 16), tag="700 gates")
    c = big_layered(r, 70000, 200, 40); b.add(c, values(r, c, 1, "rnd"), 1, 0, tag="70000 gates", _cost=60, timeout=200)
    if ck.thorough:
        c = accumulator(1); b.add(c, values(r, c, 66000, "rnd"), 66000, 0, tag="66000 cycles", _cost=200, timeout=400)
        for i in range(6):
            c = big_layered(r, r.choice([30000, 140000]), 60, 60); b.add(c, values(r, c, 2, "rnd"), 2, vary_mask(r, 16), tag="big", _cost=60, timeout=400)
    # wide inputs / outputs
    for g, e, o in ((300, 20, 300), (20, 300, 260), (1, 0, 40), (0, 1, 40)):
        c = circ.rand_circ(r, seq=False, sizes=(0, 0, 0, r.choice([0, 5]), g, e), ng=400, nout=o)
        b.add(c, values(r, c, 1, "rnd"), 1, vary_mask(r, o), tag="wide")
    for i in range(ck.n(70, 700)):
        c = wide(r, const_out=r.random() < .2); cc = r.choice([1, 1, 2, 3, 7])
        b.add(c, values(r, c, cc, "rnd"), cc, vary_mask(r, len(c.outs)), tag="wide")
    # many private bits of the evaluator (and of the garbler), all of them observed
    for n in [97, 128, 129, r.randrange(98, 300)] + ([r.randrange(2, 300) for _ in range(20)] if ck.thorough else []):
        for k in range(2):
            c = Circ(1, 3, n, 1, 1, 1) if k else Circ(0, 0, 0, 1, 3, n)
            if k: c.I = list(range(c.init_n)); c.D = [c.q_lo + x for x in range(c.init_n)]
            lo = c.q_lo if k else c.in_lo; c.gates = [(lo, lo + 1, AND)]
            c.outs = list(range(lo, lo + n + 4)) + [c.g_lo]; r.shuffle(c.outs)
            cc = r.choice([1, 2]); b.add(c, values(r, c, cc, "rnd"), cc, vary_mask(r, len(c.outs)), ot=True, tag="%d private bits" % n)
    # all initial-value sources and inputs used as outputs
    for i in range(ck.n(20, 200)):
        sz = tuple(r.choice([0, 1, 2, 5]) for _ in range(6))
        if not any(sz[3:]): sz = sz[:5] + (2,)
        c = circ.rand_circ(r, seq=True, sizes=sz, ng=r.choice([1, 3, 10]), nout=r.choice([1, 4, 9]))
        c.outs = [r.randrange(c.in_lo, c.wires) for _ in c.outs]
        c.D = [r.randrange(c.in_lo, c.wires) if r.random() < .9 else r.choice([C0, C1]) for _ in c.D]
        cc = r.choice([1, 2, 4])
        b.add(c, values(r, c, cc, "rnd"), cc, vary_mask(r, len(c.outs)), tag="wires as outputs")
    b.judge("result")
    # several sessions one after the other on one connection
    jobs, ex = [], {}
    for i in range(ck.n(8, 60)):
        c = circ.rand_circ(r, ng=r.choice([5, 20, 60])); cc = r.choice([1, 3]); v = values(r, c, cc)
        j = sess.job("r%d" % i, b.circuit(c), v, cc, "0", 0, r.random() < .15, r.random() < .3, r=r, repeat=4)
        jobs.append(j); ex[j["id"]] = (c, v, cc)
    res = ck.run(tgh(), jobs)
    for j in jobs:
        c, v, cc = ex[j["id"]]; e = sess.Exp(c, v, cc); x = res[j["id"]]
        ck.case(("rep", c.scd(), cc, tuple(sorted(v.items()))), 4)
        p = sess.sanity(x)
        if not p:
            for k in range(4):
                sfx = str(k) if k else ""
                y = dict(status="exit:0")
                for role, want in (("A", e.a), ("B", e.b)):
                    if x[role].get("ret" + sfx) != "0" or sess.parse_out(x[role].get("out" + sfx, ""), 0) != sess.render(want, e.n, 0):
                        p = ("repeat", "session %d of 4 on one connection: %s got ret=%s out=%s" % (k, role, x[role].get("ret" + sfx), x[role].get("out" + sfx)))
        if p: ck.violation("chained-" + p[0], p[1] + " %s" % describe(c, v, cc=cc), dict(j))


# -------------------------------------------------------------- C02
def C02(ck):
    r = ck.rng
    ck.cov["rule"] = ("random circuits whose outputs mix secret, public and constant bits, random masks (empty, full, longer than the outputs); values of both "
                      "parties bit by bit, and for recorded sessions the number and direction of the output messages; distinct by circuit, values, mask")
    b = Batch(ck)
    n = ck.n(700, 8000)
    for i in range(n):
        c = circ.rand_circ(r, const_out=r.random() < .2, pubw=r.choice([.1, .6, 1]), nout=r.choice([1, 2, 5, 9, 20, 33]))
        cc = r.choice([1, 2, 3, 5])
        low = r.random() < .4
        kw = {}
        if i % 3 == 0 or low: kw["rec"] = os.path.join(ck.wd, "rec%d" % i)
        b.add(c, values(r, c, cc), cc, vary_mask(r, len(c.outs)), mode=r.choice([0, 0, 1, 2]), low=low, tag="mask", **kw)
    for i in range(ck.n(6, 80)):
        c = circ.rand_circ(r, pubw=.6, nout=12); cc = r.choice([1, 2])
        b.add(c, values(r, c, cc), cc, vary_mask(r, 12), mode=r.choice([0, 1, 2]), ot=True, low=r.random() < .5, tag="mask-ot")
    for i in range(ck.n(120, 1200)):     # outputs and masks wider than a machine word
        c = wide(r, const_out=r.random() < .3); cc = r.choice([1, 2, 3])
        kw = {"rec": os.path.join(ck.wd, "recw%d" % i)} if i % 3 == 0 else {}
        b.add(c, values(r, c, cc, r.choice(["rnd", "ones"])), cc, vary_mask(r, len(c.outs)), mode=r.choice([0, 0, 1, 2]), low=r.random() < .4, tag="wide", **kw)
    # both parties give masks of different lengths for the same set (leading zeros are added by hexv)
    for j, x, e, c, v, p in b.judge("mask"):
        if p or "rec" not in j: continue
        from lib.run import streams
        ab, ba = streams(j["rec"])
        sec = wire.Secrecy(c, v, j["cc"], e.done)
        mask = int(j["mask"], 16)
        try:
            t = wire.walk(c, sec, j["cc"], e.done, mask, j["period"], j["low_mem"], ab, ba)
        except ValueError as ex:
            ck.violation("wire-missing", "the recorded session does not contain the messages the parties' outputs need: %s %s" % (ex, describe(c, v, cc=j["cc"], mask=j["mask"])), dict(j))
            continue
        ck.count("output_messages_to_evaluator", len(t["out_ab"])); ck.count("output_messages_to_garbler", len(t["out_ba"]))
        if t["left"] != (0, 0):
            ck.violation("wire-extra", "bytes beyond what the mask allows were sent: %d to the evaluator, %d to the garbler; %s" % (t["left"] + (describe(c, v, cc=j["cc"], mask=j["mask"], low=j["low_mem"]),)), dict(j))


# -------------------------------------------------------------- C03
def C03(ck):
    r = ck.rng
    ck.cov["rule"] = "random sequential circuits run with the low-memory option in all output modes, masks, with and without OT and termination; distinct by circuit, values, options"
    b = Batch(ck)
    for i in range(ck.n(900, 9000)):
        term = r.random() < .35
        c = circ.rand_circ(r, seq=r.random() < .85, term=term, const_out=r.random() < .1, dup=r.choice([.05, .3]), pubw=r.choice([.1, .5]))
        cc = r.choice([1, 2, 2, 3, 4, 6, 11])
        b.add(c, values(r, c, cc), cc, vary_mask(r, len(c.outs)), mode=r.choice([0, 0, 1, 2]), low=True, period=r.choice([0, 1, 1, 2, 3]) if term else 0, tag="low")
    for i in range(ck.n(8, 120)):
        c = circ.rand_circ(r, seq=True); cc = r.choice([2, 3])
        b.add(c, values(r, c, cc), cc, vary_mask(r, len(c.outs)), mode=r.choice([0, 1, 2]), ot=True, low=True, tag="low-ot")
    for i in range(ck.n(3, 20)):
        k = r.choice([129, 150])
        if r.random() < .5: sz = (0, 2, k, 0, 4, 5)
        else: sz = (1, 2, 3, 0, 4, k)
        c = circ.rand_circ(r, seq=True, sizes=sz, ng=120, nout=30)
        b.add(c, values(r, c, 2, "rnd"), 2, vary_mask(r, 30), ot=True, low=True, tag="low-ot-ext", _cost=60)
    for i in range(ck.n(4, 30)):
        n = r.choice([8, 33, 70]); c = accumulator(n, term_bit=n - 1); cc = r.choice([20, 40])
        b.add(c, values(r, c, cc, "rnd"), cc, vary_mask(r, n), mode=r.choice([0, 1, 2]), low=True, period=r.choice([0, 1, 3]), tag="accumulator")
    for i in range(ck.n(70, 700)):
        term = r.random() < .3
        c = wide(r, seq=r.random() < .9, term=term, const_out=r.random() < .2); cc = r.choice([2, 3, 7])
        b.add(c, values(r, c, cc, "rnd"), cc, vary_mask(r, len(c.outs)), mode=r.choice([0, 0, 1, 2]), low=True, period=r.choice([1, 2]) if term else 0, tag="wide")
    c = accumulator(2); b.add(c, values(r, c, 300, "rnd"), 300, 1, low=True, tag="300 cycles")
    c = circ.rand_circ(r, seq=True, ng=40); b.add(c, values(r, c, 290, "rnd"), 290, 0, mode=1, low=True, tag="290 cycles")
    for sz, cc, ot in (((3, 3, 3), 1100, False), ((40, 44, 42), 1700, False), ((1, 2, 2100), 33, True), ((2, 1, 1), 4300, False)):
        c = echo(r, *sz); b.add(c, values(r, c, cc, "rnd"), cc, vary_mask(r, len(c.outs)), mode=r.choice([0, 1]), ot=ot, low=True, tag="%d cycles" % cc, _cost=60, timeout=300)
    c = big_layered(r, 700); c.D = []; b.add(c, values(r, c, 2, "rnd"), 2, vary_mask(r, 16), low=True, tag="700 gates")
    if ck.thorough:
        c = big_layered(r, 70000, 50, 40); b.add(c, values(r, c, 2, "rnd"), 2, 0, low=True, tag="70000 gates", _cost=60, timeout=300)
    b.judge("lowmem")


# -------------------------------------------------------------- C04
def term_circuit(r):
    """returns (circuit, kind)"""
    kind = r.choice(["secret", "secret", "public", "const-public", "counter", "dff", "input", "mixed", "p_input"])
    if kind == "counter": return counter(r.choice([3, 4, 5]), r.choice([1, 2]), r.random() < .5), kind
    if kind in ("public", "p_input"):
        c = circ.rand_circ(r, seq=r.random() < .7, sizes=(r.randint(0, 2), 2, 2, 3, 3, 3), nout=r.choice([1, 3, 8]))
        if kind == "p_input": c.term = c.in_lo + r.randrange(c.p)
        else:
            c.gates.append((c.in_lo, c.in_lo + r.choice([0, 1, 2]), r.choice([AND, NAND, XOR, OR, NOR, XNOR]))); c.term = c.wires - 1
        if c.term == 0: c.term = 1
        return c, kind
    if kind == "const-public":
        c = circ.rand_circ(r, seq=r.random() < .7)
        a = r.choice([C0, C1]); c.gates.append((a, r.choice([C0, C1]), r.choice([AND, OR, XOR, NAND]))); c.term = c.wires - 1
        return c, kind
    if kind == "dff":
        c = circ.rand_circ(r, seq=True); c.term = max(1, c.q_lo + r.randrange(len(c.D)))
        return c, kind
    if kind == "input":
        c = circ.rand_circ(r, seq=r.random() < .7, sizes=(0, 2, 2, 0, 3, 3)); c.term = max(1, c.in_lo + r.randrange(c.in_n))
        return c, kind
    c = circ.rand_circ(r, term=True)
    if kind == "mixed":  # rarely true
        a = c.wires - 1
        for _ in range(2):
            c.gates.append((a, r.randrange(c.in_lo, c.wires), AND)); a = c.wires - 1
        c.term = a
    return c, kind


def C04(ck):
    r = ck.rng
    ck.cov["rule"] = ("circuits with a secret, public, constant, DFF, input or shared terminate wire, periods 1..9, periods no run reaches and cycle limits beyond 2^32 (low-memory), both memory modes; number of printed cycles of both "
                      "parties and their outputs against the simulator; distinct by circuit, values, options")
    b = Batch(ck)
    kinds = {}
    for i in range(ck.n(900, 9000)):
        c, kind = term_circuit(r)
        cc = r.choice([1, 2, 3, 5, 8, 12])
        per = r.choice([1, 1, 1, 2, 2, 3, 4, 7, 9])
        b.add(c, values(r, c, cc), cc, vary_mask(r, len(c.outs)), mode=r.choice([1, 1, 1, 0, 2]), low=r.random() < .4, period=per, tag=kind)
        kinds[kind] = kinds.get(kind, 0) + 1
    for i in range(ck.n(6, 60)):
        c, kind = term_circuit(r); cc = r.choice([2, 4])
        b.add(c, values(r, c, cc), cc, 0, mode=1, ot=True, low=r.random() < .5, period=r.choice([1, 2]), tag=kind)
    for i in range(ck.n(40, 400)):
        c = wide(r, seq=True, term=True); cc = r.choice([2, 5])
        b.add(c, values(r, c, cc, "rnd"), cc, vary_mask(r, len(c.outs)), mode=r.choice([0, 1, 2]), low=r.random() < .5, period=r.choice([1, 2, 3]), tag="wide")
    # periods no run reaches: only the first cycle can end it
    for i in range(ck.n(24, 240)):
        c, kind = term_circuit(r); cc = r.choice([2, 5, 9])
        b.add(c, values(r, c, cc), cc, vary_mask(r, len(c.outs)), mode=1, low=r.random() < .4, period=r.choice([(1 << 32) + 1, (1 << 32) + 2, 1 << 33, (1 << 31) + 1, 65537, 257, (1 << 63) - 1]), tag=kind + "/long period")
    # period 0: the terminate wire is ignored
    for i in range(ck.n(20, 200)):
        c, kind = term_circuit(r); cc = r.choice([2, 5])
        b.add(c, values(r, c, cc), cc, vary_mask(r, len(c.outs)), mode=1, low=r.random() < .4, period=0, tag=kind + "/period 0")
    # a limit on the cycles that only the terminate wire keeps the run from reaching
    for i in range(ck.n(24, 240)):
        while True:
            c, kind = term_circuit(r); v = values(r, c, 12); per = r.choice([1, 1, 2, 3])
            e = sess.Exp(c, v, 12, 0, per)
            if e.done < 12: break
        j = b.add(c, v, 12, vary_mask(r, len(c.outs)), mode=r.choice([0, 1, 2]), ot=i % 12 == 0, low=True, period=per, tag=kind + "/huge limit")
        j["cc"] = r.choice([(1 << 32) + e.done - 1, (1 << 32) + 1, 1 << 32, 1 << 31, (1 << 31) + 1, 65536, 65537, 256, 1 << 40, (1 << 62) + 3])
    c = counter(9, 8, False); b.add(c, values(r, c, 300), 300, 0, mode=2, period=1, tag="long counter")
    c = counter(9, 8, False); b.add(c, values(r, c, 300), 300, 0, mode=2, low=True, period=5, tag="long counter")
    ck.cov["kinds"] = kinds
    b.judge("terminate")
    # refusal
    jobs = []
    for i in range(ck.n(8, 40)):
        c = circ.rand_circ(r); c.term = 0
        v = values(r, c, 3); p = os.path.join(ck.wd, "nt%d.scd" % i); c.write(p)
        jobs.append(sess.job("n%d" % i, p, v, 3, "0", 0, False, r.random() < .5, r.choice([1, 2, 5])))
    res = ck.run(tgh(), jobs)
    for j in jobs:
        x = res[j["id"]]; ck.case(("refuse", j["id"], j["period"]))
        p = sess.sanity(x)
        if p: ck.violation("refuse-" + p[0], p[1], dict(j))
        else:
            for k in "AB":
                if x[k].get("ret") == "0":
                    ck.violation("refuse", "termination was accepted by %s for a circuit without a terminate wire" % k, dict(j))


# -------------------------------------------------------------- C05
def C05(ck):
    r = ck.rng
    ck.cov["rule"] = "each session in the three output modes x {standard, low-memory, plaintext}; the nine decoded outputs must denote the simulator's values; distinct by circuit and values"
    jobs, ex = [], {}
    for i in range(ck.n(160, 2000)):
        term = r.random() < .3
        c = circ.rand_circ(r, seq=r.random() < .8, term=term, const_out=r.random() < .2, nout=r.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 64, 65, 100])) if i % 8 else wide(r, term=term, const_out=r.random() < .3)
        cc = r.choice([1, 2, 3, 5, 9]); per = r.choice([1, 2]) if term else 0
        v = values(r, c, cc); mask = vary_mask(r, len(c.outs))
        p = os.path.join(ck.wd, "c%d.scd" % i); c.write(p); c.write_map(p + ".map")
        e = sess.Exp(c, v, cc, mask, per)
        for mode in (0, 1, 2):
            for eng in ("high", "low", "plain"):
                id = "%d/%d/%s" % (i, mode, eng)
                if eng == "plain":
                    pp = os.path.join(ck.wd, "c%d_%d.scd" % (i, mode)); c.write(pp); c.write_map(pp + ".map")
                    j = dict(id=id, kind="plain", scd=pp, cc=cc, period=per, mode=mode)
                    for k, x in v.items(): j[k] = "%X" % x
                else: j = sess.job(id, p, v, cc, mask, mode, False, eng == "low", per)
                jobs.append(j); ex[id] = (c, v, e, mode, eng)
    res = ck.run(tgh(), jobs)
    for j in jobs:
        c, v, e, mode, eng = ex[j["id"]]; x = res[j["id"]]
        ck.case((c.scd(), tuple(sorted(v.items())), mode, eng))
        if eng == "plain":
            p = sess.sanity(x, "S")
            if not p:
                got, want = sess.parse_out(x["S"].get("out", ""), mode), sess.render(e.full, e.n, mode)
                if x["S"].get("ret") != "0" or got != want: p = ("value", "plaintext ret=%s printed %r, expected %r" % (x["S"].get("ret"), x["S"].get("out"), want))
        else: p = sess.verdict(x, e, mode, e.n)
        if p: ck.violation("%s-mode%d-%s" % (eng, mode, p[0]), "%s mode %d: %s %s" % (eng, mode, p[1], describe(c, v, done=e.done)), dict(j))
    ck.sample({k: v for k, v in jobs[1].items() if k != "scd"})
    # formatting alone, for many shapes
    jobs, ex = [], {}
    for i in range(ck.n(200, 3000)):
        n, cc = r.choice([1, 3, 4, 8, 31, 64, 65, 128, 200]), r.choice([1, 2, 3, 10])
        vals = [r.choice([0, 0, (1 << n) - 1, 1, r.getrandbits(n)]) for _ in range(cc)]
        mode, low = r.randrange(3), r.randrange(2)
        bn = vals[-1] if (low and mode == 2) else sess.render(vals, n, 0)
        j = dict(id="o%d" % i, kind="outstr", osize=n, cc=cc, mode=mode, low=low, bn="%X" % bn)
        jobs.append(j); ex[j["id"]] = (vals, n, mode)
    res = ck.run(tgh(), jobs)
    for j in jobs:
        vals, n, mode = ex[j["id"]]; x = res[j["id"]]; ck.case(("fmt", tuple(vals), n, mode, j["low"]))
        p = sess.sanity(x, "S")
        if not p and sess.parse_out(x["S"].get("out", ""), mode) != sess.render(vals, n, mode):
            p = ("value", "formatted %r, expected the values %r" % (x["S"].get("out"), sess.render(vals, n, mode)))
        if p: ck.violation("format-%s" % p[0], p[1], dict(j))


# -------------------------------------------------------------- recorded sessions (C07, C08)
def recorded(ck, items):
    """items: list of (tag, c, v, cc, kw); yields (tag, c, v, cc, j, transcript-or-None, exp, sec, error)"""
    from lib.run import streams
    jobs, ex = [], {}
    for i, (tag, c, v, cc, kw) in enumerate(items):
        p = os.path.join(ck.wd, "w%d.scd" % i); c.write(p)
        j = sess.job("w%d" % i, p, v, cc, kw.get("mask", 0), 0, False, kw.get("low", False), kw.get("period", 0), rec=os.path.join(ck.wd, "rec-w%d" % i))
        if "R" in kw:
            j["kind"] = "gcbn"; j["R"] = kw["R"].hex(); j["key"] = kw["key"].hex()
            if cc == 1: j["low_mem"] = 0
        jobs.append(j); ex[j["id"]] = (tag, c, v, cc, kw)
    res = ck.run(tgh(), jobs)
    for j in jobs:
        tag, c, v, cc, kw = ex[j["id"]]; x = res[j["id"]]
        e = sess.Exp(c, v, cc, kw.get("mask", 0), kw.get("period", 0))
        p = sess.sanity(x)
        if not p and (x["A"].get("ret") != "0" or x["B"].get("ret") != "0"):
            p = ("fail", "A ret=%s B ret=%s" % (x["A"].get("ret"), x["B"].get("ret")))
        ab, ba = streams(j["rec"])
        if p:
            yield tag, c, v, cc, j, None, e, None, ab, ba, p
            continue
        sec = wire.Secrecy(c, v, cc, e.done)
        try:
            t = wire.walk(c, sec, cc, e.done, kw.get("mask", 0), kw.get("period", 0), j["low_mem"], ab, ba, key=j["kind"] == "gc")
            yield tag, c, v, cc, j, t, e, sec, ab, ba, None
        except ValueError as er:
            yield tag, c, v, cc, j, None, e, sec, ab, ba, ("shape", str(er))


# -------------------------------------------------------------- C07
def C07(ck):
    r = ck.rng
    ck.cov["rule"] = ("recorded sessions of random circuits with public/constant/related operands and of the same circuits with other private values; tables of every "
                      "cycle against a formal GF(2) cost model; distinct by circuit and values")
    items = []
    for i in range(ck.n(700, 8000)):
        term = r.random() < .2
        c = circ.rand_circ(r, consts=r.choice([.06, .25, .4]), dup=r.choice([.1, .4]), pubw=r.choice([.2, .6, 1]), prune=True, nout=r.choice([1, 2, 3, 8]), term=term,
                           ng=r.choice([3, 8, 20, 40, 70, 120]))
        if not c.gates: continue
        cc = r.choice([1, 2, 3, 5]); low = r.random() < .4
        v = values(r, c, cc, "rnd")
        kw = dict(mask=vary_mask(r, len(c.outs)), low=low, period=r.choice([1, 2]) if term else 0)
        items.append(("pruned", c, v, cc, kw))
        if i % 3 == 0 and not term:
            # same circuit, other private values (same lengths on the wire)
            v2 = dict(v); v2["g_init"], v2["g_input"] = r.getrandbits(c.gi) if c.gi else 0, r.getrandbits(c.g * cc) if c.g else 0
            for k, n in (("e_init", c.ei), ("e_input", c.e * cc)):
                if n:
                    v2[k] = (1 << (n - 1)) | r.getrandbits(n)
                    v2[k] &= (1 << n) - 1
                    items[-1][2][k] = (1 << (n - 1)) | v[k]
            items.append(("twin", c, v2, cc, kw))
    for i in range(ck.n(50, 500)):
        c = wide(r, prune=True, dup=r.choice([.1, .4])); cc = r.choice([1, 2, 4])
        if c.gates: items.append(("wide", c, values(r, c, cc, "rnd"), cc, dict(mask=vary_mask(r, len(c.outs)), low=r.random() < .4)))
    # dead gates
    for i in range(ck.n(40, 400)):
        c = circ.rand_circ(r, nout=1, ng=r.choice([10, 40])); cc = r.choice([1, 3])
        items.append(("dead", c, values(r, c, cc, "rnd"), cc, dict(low=r.random() < .4)))
    prev = None
    for tag, c, v, cc, j, t, e, sec, ab, ba, p in recorded(ck, items):
        ck.case((c.scd(), cc, tuple(sorted(v.items()))))
        d = describe(c, v, cc=cc, low=j["low_mem"], period=j["period"], mask=j["mask"])
        if p:
            ck.violation("session-" + p[0], "%s: %s %s" % (tag, p[1], d), dict(j)); prev = None
            continue
        if t["left"] != (0, 0): ck.violation("extra-bytes", "%s: %d/%d unexplained bytes %s" % (tag, t["left"][0], t["left"][1], d), dict(j))
        g0 = c.g_lo
        for cid, tab in enumerate(t["tables"]):
            gids = [x[2] for x in tab]
            live, syn = sec.need[cid]
            ck.count("tables_seen", len(gids)); ck.count("cycles_seen")
            if len(gids) == len(syn): ck.count("cycles_exact")
            ck.count("tables_skipped_for_public_or_related_operands", sum(1 for g in c.gates if g[2] in NONLIN) - len(gids))
            if len(set(gids)) != len(gids): ck.violation("twice", "cycle %d: a gate got two tables %s %s" % (cid, gids, d), dict(j))
            lin = [g for g in gids if g >= len(c.gates) or c.gates[g][2] not in NONLIN]
            if lin: ck.violation("linear", "cycle %d: tables for linear or unknown gates %s %s" % (cid, lin, d), dict(j))
            if set(gids) - set(syn): ck.violation("unneeded", "cycle %d: tables for gates %s which are public, related or dead %s" % (cid, sorted(set(gids) - set(syn)), d), dict(j))
            if tag != "dead" and set(live) - set(gids): ck.violation("missing", "cycle %d: no table for gates %s %s" % (cid, sorted(set(live) - set(gids)), d), dict(j))
        if tag == "twin" and prev:
            ck.count("twins")
            pj, pt, pl = prev
            if [[x[2] for x in tab] for tab in pt["tables"]] != [[x[2] for x in tab] for tab in t["tables"]] or pl != (len(ab), len(ba)):
                ck.violation("value-dependent", "traffic of two runs differing in private values only differs: %s vs %s bytes %s" % (pl, (len(ab), len(ba)), d), dict(j))
        prev = (j, t, (len(ab), len(ba)))
    ck.sample(dict(circuit=items[0][1].header(), values={k: "%X" % x for k, x in items[0][2].items()}))


# -------------------------------------------------------------- C08
def xor(a, b): return bytes(x ^ y for x, y in zip(a, b))


def C08(ck):
    r = ck.rng
    ck.cov["rule"] = ("recorded sessions with an offset chosen by the check (and sessions with the garbler's own): all label-sized values sent are compared pairwise; circuits with "
                      "many gates over the same operands and registers holding their value; distinct by circuit and values")
    items = []
    blk = lambda: bytes(r.getrandbits(8) for _ in range(16))
    for i in range(ck.n(600, 6000)):
        k = i % 4
        if k == 0: c = same_operands(r, r.choice([1, 2, 3]))
        elif k == 1: c = circ.rand_circ(r, seq=True, consts=.15, dup=.4, types=NONLIN, ng=r.choice([10, 40]))
        else: c = circ.rand_circ(r, dup=r.choice([.1, .5]), pubw=.5, term=r.random() < .3)
        cc = r.choice([1, 2, 3, 4])
        R = bytearray(blk()); R[0] |= 1
        low = r.random() < .4
        kw = dict(mask=vary_mask(r, len(c.outs)), low=low, period=r.choice([0, 1, 2]) if c.term else 0)
        if i % 5: kw.update(R=bytes(R), key=blk())
        items.append(("", c, values(r, c, cc, "rnd"), cc, kw))
    for i in range(ck.n(40, 400)):
        c = wide(r, dup=.3); cc = r.choice([1, 2])
        R = bytearray(blk()); R[0] |= 1
        items.append(("wide", c, values(r, c, cc, "rnd"), cc, dict(mask=vary_mask(r, len(c.outs)), low=r.random() < .4, R=bytes(R), key=blk())))
    # the tweaks of far apart cycles and of far apart gates: a label must never be hashed twice under the same one
    for k, (ng, cc) in enumerate([(8, 300), (8, 300), (4, 700), (4, 700), (2, 66000)] + ([(1, 66000), (2, 70000), (20, 3000)] if ck.thorough else [])):
        c = held_operand(r, ng); R = bytearray(blk()); R[0] |= 1
        items.append(("cycles", c, values(r, c, cc, "rnd"), cc, dict(low=k % 2 == 1, R=bytes(R), key=blk())))
    for ng, cc in [(66500, 1), (34000, 2)] + ([(140000, 1)] if ck.thorough else []):
        c = one_operand(r, ng); R = bytearray(blk()); R[0] |= 1
        items.append(("gates", c, values(r, c, cc, "rnd"), cc, dict(low=False, R=bytes(R), key=blk())))
    stat = [0, 0]
    outstat = [0, 0]
    for tag, c, v, cc, j, t, e, sec, ab, ba, p in recorded(ck, items):
        ck.case((c.scd(), cc, tuple((k, hex(x)) for k, x in sorted(v.items()))))
        d = describe(c, v, cc=cc, low=j["low_mem"], mask=j["mask"])
        if p:
            ck.violation("session-" + p[0], "%s %s" % (p[1], d), dict(j)); continue
        if t["left"] != (0, 0): ck.violation("extra-bytes", "%d/%d unexplained bytes %s" % (t["left"] + (d,)), dict(j))
        blocks = []   # (what, 16 bytes)
        for i, x in enumerate(t["labels"]): blocks.append(("garbler label %d" % i, x))
        for i, x in enumerate(t["e_labels"]): blocks.append(("evaluator label %d" % i, x))
        for cid, tab in enumerate(t["tables"]):
            for r0, r1, g, pad in tab:
                blocks.append(("row 0 of gate %d cycle %d" % (g, cid), r0)); blocks.append(("row 1 of gate %d cycle %d" % (g, cid), r1))
        if t["key"]: blocks.append(("fixed key", t["key"]))
        ck.count("label_sized_values", len(blocks))
        byv = {}
        for w, x in blocks:
            if x in byv: ck.violation("repeat", "%s and %s are the same value %s %s" % (byv[x], w, x.hex(), d), dict(j))
            byv[x] = w
        if "R" in j and j["kind"] == "gcbn":
            R = bytearray(bytes.fromhex(j["R"])); R[0] |= 1; R = bytes(R)
            for w, x in blocks:
                y = xor(x, R)
                if y in byv: ck.violation("both-labels", "%s and %s differ by the secret offset %s" % (w, byv[y], d), dict(j)); break
                if x == R: ck.violation("offset-sent", "%s is the offset %s" % (w, d), dict(j))
            if len(blocks) <= 56:
                ck.count("spans_tested")
                if in_span([int.from_bytes(x, "little") for w, x in blocks], int.from_bytes(R, "little")):
                    ck.violation("offset-span", "the offset is the XOR of some of the %d label-sized values sent %s" % (len(blocks), d), dict(j))
            if R in ab: ck.violation("offset-sent", "the offset occurs in the stream at %d %s" % (ab.find(R), d), dict(j))
            ck.count("pairs_compared", len(blocks) * (len(blocks) - 1) // 2)
        elif len(blocks) <= 400:
            seen = {}
            for a in range(len(blocks)):
                for b2 in range(a):
                    x = xor(blocks[a][1], blocks[b2][1])
                    if x in seen: ck.violation("difference", "%s ^ %s == %s ^ %s %s" % (blocks[a][0], blocks[b2][0], seen[x][0], seen[x][1], d), dict(j))
                    seen[x] = (blocks[a][0], blocks[b2][0])
            ck.count("pairs_compared", len(seen))
        # permute bits of the garbler's labels against the bits they stand for
        bits = [(v["g_init"] >> i) & 1 for i in range(c.gi)] + [(v["g_input"] >> i) & 1 for i in range(c.g * cc)]
        for x, bit in zip(t["labels"], bits):
            stat[0] += 1; stat[1] += (x[0] & 1) == bit
        ebits = [(v["e_init"] >> i) & 1 for i in range(c.ei)] + [(v["e_input"] >> i) & 1 for i in range(c.e * cc)]
        for x, bit in zip(t["e_labels"], ebits):
            outstat[0] += 1; outstat[1] += (x[0] & 1) == bit
    for nm, (n, k) in (("garbler", stat), ("evaluator", outstat)):
        ck.count("permute_bits_%s" % nm, n)
        if n > 100 and abs(k - n / 2) > 4 * (n ** .5):  # 8 standard deviations
            ck.violation("permute-%s" % nm, "the permute bit equals the %s's input bit in %d of %d cases" % (nm, k, n), None)
    ck.sample(dict(circuit=items[0][1].header(), values={k: "%X" % x for k, x in items[0][2].items()}, R=items[1][4].get("R", b"").hex()))
