"""Independent model of sequential Boolean circuits: generator, SCD reader/writer, reference
simulator and the cost model (which gates need a garbled table).  Nothing here is derived from
the code under test at run time."""
import random

AND, ANDN, NAND, NANDN, OR, ORN, NOR, NORN, XOR, XNOR, NOT = 8, 4, 7, 11, 14, 13, 1, 2, 6, 9, 12
TYPES = [AND, ANDN, NAND, NANDN, OR, ORN, NOR, NORN, XOR, XNOR, NOT]
NAMES = {AND: "AND", ANDN: "ANDN", NAND: "NAND", NANDN: "NANDN", OR: "OR", ORN: "ORN", NOR: "NOR",
         NORN: "NORN", XOR: "XOR", XNOR: "XNOR", NOT: "NOT"}
NONLIN = [AND, ANDN, NAND, NANDN, OR, ORN, NOR, NORN]
C0, C1 = -2, -3


def gate_op(t, a, b, m):
    """m: mask of ones (bit-parallel)"""
    if t == AND: return a & b
    if t == ANDN: return a & (b ^ m)
    if t == NAND: return (a & b) ^ m
    if t == NANDN: return (a & (b ^ m)) ^ m
    if t == OR: return a | b
    if t == ORN: return a | (b ^ m)
    if t == NOR: return (a | b) ^ m
    if t == NORN: return (a | (b ^ m)) ^ m
    if t == XOR: return a ^ b
    if t == XNOR: return (a ^ b) ^ m
    if t == NOT: return a ^ m
    raise ValueError(t)


class Circ:
    def __init__(s, pi=0, gi=0, ei=0, p=0, g=0, e=0):
        s.pi, s.gi, s.ei, s.p, s.g, s.e = pi, gi, ei, p, g, e
        s.D, s.I, s.gates, s.outs, s.term = [], [], [], [], 0

    @property
    def init_n(s): return s.pi + s.gi + s.ei
    @property
    def in_lo(s): return s.init_n
    @property
    def in_n(s): return s.p + s.g + s.e
    @property
    def q_lo(s): return s.init_n + s.in_n
    @property
    def g_lo(s): return s.q_lo + len(s.D)
    @property
    def wires(s): return s.g_lo + len(s.gates)

    def copy(s):
        c = Circ(s.pi, s.gi, s.ei, s.p, s.g, s.e)
        c.D, c.I, c.gates, c.outs, c.term = list(s.D), list(s.I), list(s.gates), list(s.outs), s.term
        return c

    def header(s):
        return [s.pi, s.gi, s.ei, s.p, s.g, s.e, len(s.D), len(s.outs), s.term, len(s.gates)]

    def scd(s):
        L = [" ".join(map(str, s.header()))]
        for f in (0, 1, 2):
            L.append("".join("%d " % g[f] for g in s.gates))
        L.append("".join("%d " % o for o in s.outs))
        L.append("".join("%d " % d for d in s.D))
        L.append("".join("%d " % d for d in s.I))
        return "\n".join(L) + "\n"

    def write(s, path):
        with open(path, "w") as f:
            f.write(s.scd())

    def write_map(s, path, names=True):
        with open(path, "w") as f:
            for i in range(len(s.D)):
                f.write("q%d %d\n" % (i, s.q_lo + i))
            for i in range(len(s.gates)):
                f.write("w%d %d\n" % (i, s.g_lo + i))
            f.write("terminate %d\n" % s.term)

    def prune(s):
        """drop gates nobody uses (repeatedly) and renumber"""
        lo = s.g_lo
        live = set()
        stack = [w for w in s.outs + s.D if w >= lo]
        if s.term >= lo: stack.append(s.term)
        while stack:
            w = stack.pop()
            if w in live: continue
            live.add(w)
            a, b, t = s.gates[w - lo]
            stack += [x for x in (a, b) if x >= lo]
        new, m = [], {}
        for i, (a, b, t) in enumerate(s.gates):
            if lo + i in live:
                m[lo + i] = lo + len(new)
                new.append((m.get(a, a), m.get(b, b), t))
        r = s.copy()
        r.gates = new
        r.outs = [m.get(o, o) for o in s.outs]
        r.D = [m.get(o, o) for o in s.D]
        r.term = m.get(s.term, s.term)
        return r


def read_scd(text):
    t = [int(x) for x in text.split()]
    c = Circ(*t[:6])
    nd, no, c.term, ng = t[6], t[7], t[8], t[9]
    p = 10
    a, b, ty = t[p:p + ng], t[p + ng:p + 2 * ng], t[p + 2 * ng:p + 3 * ng]
    p += 3 * ng
    c.gates = list(zip(a, b, ty))
    c.outs = t[p:p + no]; p += no
    c.D = t[p:p + nd]; p += nd
    c.I = t[p:p + nd]; p += nd
    if p != len(t) or len(c.I) != nd:
        raise ValueError("scd has %d numbers, expected %d" % (len(t), p))
    return c


def simulate(c, v, cc, period=0, width=1, trace=False):
    """v: dict p_init,g_init,e_init,p_input,g_input,e_input -> integer (width 1) or list per bit of
    integers of `width` parallel lanes.  Returns (list of per-cycle lists of output lane values,
    executed cycles, trace)."""
    m = (1 << width) - 1

    def bit(k, i):
        x = v.get(k, 0)
        if isinstance(x, int): return (x >> i) & 1 if width == 1 else (m if (x >> i) & 1 else 0)
        return x[i] if i < len(x) else 0
    w = [0] * c.wires
    ini = [bit("p_init", i) for i in range(c.pi)] + [bit("g_init", i) for i in range(c.gi)] + \
          [bit("e_init", i) for i in range(c.ei)]
    get = lambda x: w[x] if x >= 0 else (m if x == C1 else 0)
    res, tr, done = [], [], cc
    lo, q, g0 = c.in_lo, c.q_lo, c.g_lo
    for cid in range(cc):
        if cid == 0:
            nq = [(m if x == C1 else 0) if x < 0 else ini[x] for x in c.I]
        else:
            nq = [get(d) for d in c.D]
        w[q:q + len(nq)] = nq
        for i in range(c.p): w[lo + i] = bit("p_input", cid * c.p + i)
        for i in range(c.g): w[lo + c.p + i] = bit("g_input", cid * c.g + i)
        for i in range(c.e): w[lo + c.p + c.g + i] = bit("e_input", cid * c.e + i)
        k = g0
        for a, b, t in c.gates:
            x = w[a] if a >= 0 else (m if a == C1 else 0)
            y = (w[b] if b >= 0 else (m if b == C1 else 0)) if t != NOT else 0
            w[k] = gate_op(t, x, y, m)
            k += 1
        res.append([get(o) for o in c.outs])
        if trace: tr.append(list(w))
        if period and c.term > 0 and cid % period == 0 and w[c.term]:
            done = cid + 1
            break
    return res, done, tr


def public_cost(c, v, cc, done=None, want_out=False):
    """Per-cycle list of gate ids that need a table, from first principles: a gate needs a table iff
    it is nonlinear, both operands are secret and neither equal nor complementary to one another, and
    its result can still influence an output, DFF or terminate wire of this cycle, given the public
    values.  Secrets are tracked as formal GF(2) sums of fresh symbols (public = constant)."""
    # value representation: (frozenset of symbols, const bit)
    sym = [0]

    def fresh():
        sym[0] += 1
        return (frozenset([sym[0]]), 0)
    def pub(b): return (frozenset(), b)
    w = [None] * c.wires
    ini = [pub((v.get("p_init", 0) >> i) & 1) for i in range(c.pi)] + [fresh() for _ in range(c.gi + c.ei)]
    get = lambda x: w[x] if x >= 0 else pub(1 if x == C1 else 0)
    lo, q, g0 = c.in_lo, c.q_lo, c.g_lo
    per = []
    info = {}
    for cid in range(done if done is not None else cc):
        nq = [(pub(1 if x == C1 else 0) if x < 0 else ini[x]) for x in c.I] if cid == 0 else [get(d) for d in c.D]
        w[q:q + len(nq)] = nq
        for i in range(c.p): w[lo + i] = pub((v.get("p_input", 0) >> (cid * c.p + i)) & 1)
        for i in range(c.g + c.e): w[lo + c.p + i] = fresh()
        tab, deps = {}, {}
        for i, (a, b, t) in enumerate(c.gates):
            x = get(a)
            y = get(b) if t != NOT else None
            o = g0 + i
            if t == NOT:
                w[o] = (x[0], x[1] ^ 1); deps[o] = [a]
            elif t in (XOR, XNOR):
                w[o] = (x[0] ^ y[0], x[1] ^ y[1] ^ (t == XNOR)); deps[o] = [a, b]
            else:
                px, py = not x[0], not y[0]
                f = lambda p_, q_: gate_op(t, p_, q_, 1)
                if px and py:
                    w[o] = pub(f(x[1], y[1])); deps[o] = []
                elif px or py:
                    r0, r1 = (f(x[1], 0), f(x[1], 1)) if px else (f(0, y[1]), f(1, y[1]))
                    s_, sw = (y, b) if px else (x, a)
                    if r0 == r1: w[o] = pub(r0); deps[o] = []
                    else:
                        w[o] = s_ if r0 == 0 else (s_[0], s_[1] ^ 1); deps[o] = [sw]
                elif x[0] == y[0]:
                    if x[1] == y[1]: r0, r1 = f(0, 0), f(1, 1)
                    else: r0, r1 = f(0, 1), f(1, 0)
                    if r0 == r1: w[o] = pub(r0); deps[o] = []
                    else: w[o] = x if r0 == 0 else (x[0], x[1] ^ 1); deps[o] = [a, b]
                else:
                    w[o] = fresh(); tab[o] = i; deps[o] = [a, b]
            if not w[o][0]: deps[o] = []
        # liveness; the code counts syntactic uses: a wire is live if an output/D/terminate is it, or
        # a live gate with secret result uses it
        live = set()
        st = [x for x in c.outs + c.D + ([c.term] if c.term > 0 else []) if x >= g0 and w[x][0]]
        # what a gate reads that nothing reads itself may count as used (such a gate is a defect of the
        # circuit, reported when it is loaded), but the unread gate itself costs nothing
        rd = set(c.outs) | set(c.D) | {c.term}
        for ga, gb, gt in c.gates: rd.update((ga,) if gt == NOT else (ga, gb))
        st_syn = list(st)
        for i, (ga, gb, gt) in enumerate(c.gates):
            if g0 + i not in rd: st_syn += [z for z in ((ga,) if gt == NOT else (ga, gb)) if z >= g0]
        while st:
            x = st.pop()
            if x in live or x < g0 or not w[x][0]: continue
            live.add(x)
            st += [z for z in deps[x] if z >= g0]
        syn = set()
        st = st_syn
        while st:
            x = st.pop()
            if x in syn or x < g0 or not w[x][0]: continue
            syn.add(x)
            a, b, t = c.gates[x - g0]
            st += [z for z in ((a,) if t == NOT else (a, b)) if z >= g0]
        e = ([tab[o] for o in sorted(tab) if o in live], [tab[o] for o in sorted(tab) if o in syn])
        if want_out:
            e += ([bool(get(o)[0]) for o in c.outs], bool(get(c.term)[0]) if c.term > 0 else False)
        per.append(e)
        info["syms"] = sym[0]
    return per


# ------------------------------------------------------------------ random circuits
def rand_circ(r, ng=None, seq=None, sizes=None, consts=0.06, dup=0.12, local=0.5, nonlin=0.6,
              prune=False, term=None, nout=None, pubw=0.3, out_kinds=True, maxin=12, const_out=False,
              types=None, trees=False):
    """One random circuit.  Knobs: consts probability of a constant operand, dup probability that the
    second operand is the first one or its inversion, pubw weight of public wires."""
    if seq is None: seq = r.random() < 0.6
    if sizes is None:
        z = lambda hi: 0 if r.random() < 0.2 else r.randint(1, hi)
        p, g, e = (z(4) if r.random() < pubw * 2 else 0), z(maxin), z(maxin)
        pi, gi, ei = (z(3), z(6), z(6)) if seq else (0, 0, 0)
        if g + e == 0: g = r.randint(1, maxin)
    else:
        pi, gi, ei, p, g, e = sizes
    c = Circ(pi, gi, ei, p, g, e)
    if seq:
        nd = max(1, min(gi + ei + pi + r.randint(0, 4), 14 if sizes is None else gi + ei + pi + 4))
        use = list(range(pi + gi + ei))
        r.shuffle(use)
        for i in range(nd):
            x = r.random()
            if use and (x < 0.85): c.I.append(use.pop())
            elif x < 0.93 or not c.init_n: c.I.append(r.choice([C0, C1]))
            else: c.I.append(r.randrange(c.init_n))
        c.D = [0] * nd
    if ng is None: ng = r.choice([1, 2, 3, 5, 8, 13, 20, 40, 70])
    base = list(range(c.in_lo, c.g_lo))
    inv_of = {}
    last = c.g_lo - 1

    def pick(i):
        if r.random() < consts: return r.choice([C0, C1])
        n = c.g_lo + i
        if i and r.random() < local: return r.randint(max(c.g_lo, n - 6), n - 1)
        lo = c.in_lo
        if n <= lo: return r.choice([C0, C1])
        x = r.randint(lo, n - 1)
        return x
    for i in range(ng):
        a = pick(i)
        t = r.choice(types) if types else (r.choice(NONLIN) if r.random() < nonlin else r.choice([XOR, XNOR, NOT]))
        if t == NOT: b = -1
        else:
            if r.random() < dup:
                b = inv_of.get(a, a) if r.random() < 0.5 else a
            else: b = pick(i)
            if r.random() < 0.5: a, b = b, a
        c.gates.append((a, b, t))
        if t == NOT: inv_of[a] = c.g_lo + i
    # outputs / DFF inputs
    hi = c.wires
    allw = list(range(c.in_lo, hi))
    gts = list(range(c.g_lo, hi))

    def sink():
        x = r.random()
        if x < 0.75 or not out_kinds: return r.choice(gts[-max(4, len(gts) // 2):])
        return r.choice(allw)
    used = set()
    for a, b, t in c.gates: used.update((a, b))
    dead = [w for w in gts if w not in used]
    no = nout if nout is not None else r.choice([1, 1, 2, 3, 5, 8, 12, 17])
    r.shuffle(dead)
    c.outs = [dead.pop() if dead and r.random() < 0.8 else sink() for _ in range(no)]
    if const_out:
        for k in range(no):
            if r.random() < 0.2: c.outs[k] = r.choice([C0, C1])
    for i in range(len(c.D)):
        x = r.random()
        c.D[i] = r.choice([C0, C1]) if x < consts else (dead.pop() if dead and x < 0.6 else sink())
    if term:
        c.term = sink() if term is True else term
        if c.term <= 0: c.term = gts[-1]
    if prune: c = c.prune()
    return c


def rand_vals(r, c, cc, style=None):
    style = style or r.choice(["rnd"] * 6 + ["ones", "zero", "sparse", "short"])

    def val(n):
        if n == 0: return 0
        if style == "ones": return (1 << n) - 1
        if style == "zero": return 0
        if style == "sparse": return 1 << r.randrange(n)
        if style == "short": return r.getrandbits(n) >> r.randrange(n)
        return r.getrandbits(n)
    v = dict(p_init=val(c.pi), g_init=val(c.gi), e_init=val(c.ei), p_input=val(c.p * cc),
             g_input=val(c.g * cc), e_input=val(c.e * cc))
    return v


def hexv(x, r=None):
    s = "%X" % x
    if r is not None:
        k = r.random()
        if k < 0.2: s = s.lower()
        elif k < 0.4: s = "0" * r.randint(1, 5) + s
    return s


def pack(outs):
    """list of bits -> int"""
    return sum(b << i for i, b in enumerate(outs))
