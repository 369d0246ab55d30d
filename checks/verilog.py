"""Verilog library: C28.  The modules are executed by lib/vsim.py and watched by an oracle per design."""
import os, sys, glob, math, random, hashlib, subprocess, time, multiprocessing
from lib import vsim, build as B
from lib.vparse import VError

if hasattr(sys, "set_int_max_str_digits"): sys.set_int_max_str_digits(0)


def sx(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v


def m(w): return (1 << w) - 1


def pc(v): return bin(v).count("1")


def log2n(v): return v.bit_length()             # the library's log2(value): number of bits of value


def clog(v): return (v - 1).bit_length()        # the library's log2 with value-1


class Lib:
    """the sources as a synthesis script would read them: one directory plus syn_lib"""

    def __init__(self, ck):
        self.ck, self.base, self.cache = ck, os.path.join(B.REPO, "circuit_synthesis"), {}
        self.undecided, self.fill = {}, float(os.environ.get("FILL", ".75"))

    def mods(self, d):
        if d not in self.cache:
            fs = sorted(glob.glob(os.path.join(self.base, "syn_lib", "*.v")))
            if d != "syn_lib": fs += sorted(glob.glob(os.path.join(self.base, d, "*.v")))
            L = {}
            for f in fs:
                L.update(vsim.load([f]))
            self.cache[d] = L
        return self.cache[d]

    def design(self, d, top, params=None, black=None):
        try:
            fill = self.ck.rng.getrandbits if self.ck.rng.random() < self.fill else None     # what a register not yet written holds
            D = vsim.Design(self.mods(d), top, params or {}, black, fill)
            if D.multi: self.ck.violation("drivers:" + top, "%s(%s): %d bits have several drivers, e.g. %s" % (top, params or "", sum(b.bit_count() for _, b in D.multi), D.where(*D.multi[0])))
            return D
        except Exception as e:       # a construct the simulator does not know: nothing is decided
            self.skip(d, top, e)

    def skip(self, d, top, e):
        k = "%s/%s" % (d, top)
        if isinstance(e, vsim.Endless): self.ck.violation("endless:" + top, "%s: a procedural loop of the design does not end" % k); return
        if k not in self.undecided:
            self.undecided[k] = "%s: %s" % (type(e).__name__, str(e)[:160])


class T:
    """one design: runs cases, reports differences"""

    def __init__(self, lib, d, top, params=None, black=None, tag=None):
        self.lib, self.ck, self.d, self.top, self.p = lib, lib.ck, d, top, dict(params or {})
        self.tag = tag or top
        self.D = lib.design(d, top, params, black)
        self.bad = 0

    def __bool__(self): return self.D is not None

    def name(self): return "%s%s" % (self.top, "(%s)" % ",".join("%s=%s" % x for x in sorted(self.p.items())) if self.p else "")

    def run(self, fn, what=""):
        """fn(D) -> None or (got, expected, description); simulator errors leave the case undecided"""
        if not self.D: return
        try: r = fn(self.D)
        except VError as e: return self.lib.skip(self.d, self.top, e)
        self.ck.count("cases_" + self.d)
        return r

    def check(self, port, want, ins, key=None):
        """compare one output port now"""
        try: got = self.D.get(port)
        except KeyError: return self.lib.skip(self.d, self.top, VError("no port " + port))
        self.ck.case((self.tag, tuple(sorted(self.p.items())), port, repr(ins)))
        self.ck.count("cases_" + self.d)
        if got != want:
            self.bad += 1
            if self.bad <= 5:
                short = lambda v: "%x" % v if isinstance(v, int) and v.bit_length() < 400 else str(v)[:100]
                desc = "; ".join("%s=%s" % (k, short(v)) for k, v in ins.items()) if isinstance(ins, dict) else str(ins)[:400]
                self.ck.violation("%s:%s" % (self.tag, key or "value"),
                                  "%s: %s = %s, expected %s for %s" % (self.name(), port, short(got), short(want), desc[:700]))
            return False
        return True

    def set(self, **kv):
        try:
            self.D.set(**kv); return True
        except (VError, KeyError) as e:
            self.lib.skip(self.d, self.top, e)

    def clk(self, n=1):
        for _ in range(n): self.D.tick("clk")

    def reset(self): self.D.reset("rst")


def comb(lib, d, top, params, ins, oracle, n, black=None, special=()):
    """combinational design: ins {port: width}, oracle(values) -> {port: value} or None (outside the domain)"""
    t = T(lib, d, top, params, black)
    if not t: return
    r = lib.ck.rng
    tot = sum(ins.values())
    if tot <= 9:
        vals = []
        for x in range(1 << tot):
            v = {}
            for k, w in ins.items(): v[k] = x & m(w); x >>= w
            vals.append(v)
    else:
        vals = [dict(s) for s in special]
        for i in range(n):
            v = {}
            for k, w in ins.items():
                c = r.random()
                v[k] = r.getrandbits(w) if c < .6 else r.choice([0, 1, m(w), m(w) >> 1, 1 << (w - 1), m(w) - 1]) & m(w) if c < .85 else r.getrandbits(r.randrange(1, w + 1))
            if len(ins) > 1 and r.random() < .15:
                ks = [k for k in ins]; v[ks[1]] = (v[ks[0]] + r.choice([0, 0, 1, -1])) & m(ins[ks[1]])
            vals.append(v)
    for v in vals:
        o = oracle(v)
        if o is None: continue
        try:
            if not t.set(**v): return
            for k, w in o.items(): t.check(k, w & m(t.D.width(k)) if w < 0 else w, v)
        except VError as e: return lib.skip(d, top, e)


# ------------------------------------------------------------------ syn_lib
def synlib(lib):
    ck = lib.ck; r = ck.rng; d = "syn_lib"; n = ck.n(40, 400)
    big = [600, 1025] if not ck.thorough else [511, 512, 513, 600, 1024, 1025, 1600]
    ws = sorted(set([1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64] + [r.randrange(2, 130) for _ in range(ck.n(4, 30))]))
    for N in ws + big:
        comb(lib, d, "ADD", dict(N=N), dict(A=N, B=N, CI=1), lambda v: dict(S=(v["A"] + v["B"] + v["CI"]) & m(N), CO=(v["A"] + v["B"] + v["CI"]) >> N), n)
        for M in {r.randrange(1, N) if N > 1 else 1}:
            comb(lib, d, "ADD", dict(N=N, M=M), dict(A=N, B=M, CI=1), lambda v: dict(S=(v["A"] + v["B"] + v["CI"]) & m(N), CO=(v["A"] + v["B"] + v["CI"]) >> N), n)
        M = N
        comb(lib, d, "SUB", dict(N=N), dict(A=N, B=N), lambda v: dict(S=(v["A"] - v["B"]) & m(N), CO=int(v["A"] >= v["B"])), n)
        comb(lib, d, "COMP", dict(N=N), dict(A=N, B=N), lambda v: dict(O=int(v["A"] >= v["B"])), n)
        comb(lib, d, "MUX", dict(N=N), dict(A=N, B=N, S=1), lambda v: dict(O=v["B"] if v["S"] else v["A"]), n)
    for N in ws:
        comb(lib, d, "TwosComplement", dict(N=N), dict(A=N), lambda v: dict(O=-v["A"] & m(N)), n)
        comb(lib, d, "COUNT", dict(N=N), dict(A=N), lambda v: dict(S=pc(v["A"])), n)
        M = r.randrange(1, N + 1)
        for M in {N, M}:
            if N > 1:
                comb(lib, d, "ADD_", dict(N=N, M=M), dict(A=N, B=M), lambda v: dict(O=(sx(v["A"], N) + sx(v["B"], M)) & m(N + 1)), n)
                comb(lib, d, "SUB_", dict(N=N, M=M), dict(A=N, B=M), lambda v: dict(O=(sx(v["A"], N) - sx(v["B"], M)) & m(N + 1)), n)
            if M < N: comb(lib, d, "COMP", dict(N=N, M=M), dict(A=N, B=M), lambda v: dict(O=int(v["A"] >= v["B"])), n)
            if M < N: comb(lib, d, "SUB", dict(N=N, M=M), dict(A=N, B=M), lambda v: dict(S=(v["A"] - v["B"]) & m(N), CO=int(v["A"] >= v["B"])), n)
    for N in range(1, ck.n(40, 140)):
        comb(lib, d, "COUNT", dict(N=N), dict(A=N), lambda v: dict(S=pc(v["A"])), 20)
    small = [(N, M) for N in (1, 2, 3, 4, 5, 8) for M in (1, 2, 3, 4, 5, 8)]
    for N, M in r.sample(small, ck.n(14, 36)) + [(8, 8), (16, 16), (32, 32), (24, 9), (9, 24)]:
        comb(lib, d, "MULT", dict(N=N, M=M), dict(A=N, B=M), lambda v: dict(O=v["A"] * v["B"]), n)
        comb(lib, d, "DIV", dict(N=N, M=M), dict(A=N, B=M), lambda v: dict(O=v["A"] // v["B"]) if v["B"] else None, n)
        if N > 1 and M > 1:
            comb(lib, d, "MULT_", dict(N=N, M=M), dict(A=N, B=M), lambda v: dict(O=sx(v["A"], N) * sx(v["B"], M) & m(N + M)), n)

            def sdiv(v):
                a, b = sx(v["A"], N), sx(v["B"], M)
                if not b: return None
                q = abs(a) // abs(b)
                return dict(O=(-q if (a < 0) != (b < 0) else q) & m(N))
            comb(lib, d, "DIV_", dict(N=N, M=M), dict(A=N, B=M), sdiv, n)
    for N in [2, 3, 5, 8, 16, 17, 32, 64]:
        L = clog(N) + 1
        comb(lib, d, "SHIFT_LEFT", dict(N=N), {"a": N, "shift_amount": L}, lambda v: dict(o=v["a"] << v["shift_amount"] & m(N)), n)
        comb(lib, d, "SHIFT_RIGHT", dict(N=N), {"a": N, "shift_amount": L}, lambda v: dict(o=v["a"] >> v["shift_amount"]), n)
    for N, M in ((4, 2), (8, 4), (8, 16), (16, 8), (16, 16), (32, 16), (64, 32)):
        comb(lib, d, "square_root_comb", dict(N=N, M=M), dict(A=N), lambda v: dict(O=math.isqrt(v["A"])), n,
             special=[dict(A=x) for k in (3, 7, 100, 255, (1 << (N // 2)) - 1) for x in (k * k, k * k - 1, k * k + 1) if x < 1 << N])


# ------------------------------------------------------------------ small designs
def serial(lib, d, top, N, CC, prep, want, n, params=None):
    """word-serial design: least significant words first, output words gathered (or the last one)"""
    t = T(lib, d, top, dict(N=N, CC=CC))
    if not t: return
    r = lib.ck.rng; w = N // CC
    for _ in range(n):
        a, b = r.getrandbits(N), r.getrandbits(N)
        if r.random() < .2: b = (a + r.choice([0, 1, -1])) & m(N)
        if r.random() < .1: a = r.choice([0, m(N)])
        try:
            if CC > 1: t.reset()
            o = []
            for i in range(CC):
                if not t.set(g_input=a >> (w * i) & m(w), e_input=b >> (w * i) & m(w)): return
                o.append(t.D.get("o"))
                if CC > 1: t.clk()
        except VError as e: return lib.skip(d, top, e)
        lib.ck.case((top, N, CC, a, b)); lib.ck.count("cases_" + d)
        got, exp = prep(o, w), want(a, b)
        if got != exp:
            t.bad += 1
            if t.bad < 5: lib.ck.violation("%s:value" % top, "%s: %x, expected %x for g=%x e=%x" % (t.name(), got, exp, a, b))


def words(o, w): return sum(v << (w * i) for i, v in enumerate(o))


def small(lib):
    ck = lib.ck; r = ck.rng; n = ck.n(40, 300)
    for N, CC in [(8, 1), (8, 2), (8, 8), (32, 1), (32, 4), (32, 32), (33, 3), (64, 16), (128, 1), (160, 160), (1024, 8), (1200, 1)]:
        serial(lib, "sum", "sum", N, CC, words, lambda a, b: (a + b) & m(N), n)
        serial(lib, "compare", "compare", N, CC, lambda o, w: o[-1], lambda a, b: int(a >= b), n)
        if N <= 400: serial(lib, "hamming", "hamming", N, CC, lambda o, w: o[-1], lambda a, b: pc(a ^ b), n)
    for N in (2, 4, 8, 16, 32):
        comb(lib, "mult", "mult", dict(N=N), dict(g_input=N, e_input=N), lambda v: dict(o=v["g_input"] * v["e_input"] & m(N)), n)
    # division over the vendor's divider: only the wiring is ours
    for W in (4, 8, 32):
        for tc in (0, 1):
            for rem in (0, 1):
                def dw(ps, a, b):
                    w = ps["a_width"]; bw = ps["b_width"]
                    if ps["tc_mode"]: a, b = sx(a, w), sx(b, bw)
                    if b == 0: return m(w), a & m(bw)
                    q = abs(a) // abs(b); q = -q if (a < 0) != (b < 0) else q
                    rm = a - q * b
                    if not ps["rem_mode"]: rm %= b
                    return q & m(w), rm & m(bw)
                bb = {"DW_div": (["a_width", "b_width", "tc_mode", "rem_mode"],
                                 [("a", "input", lambda p: p["a_width"]), ("b", "input", lambda p: p["b_width"]),
                                  ("quotient", "output", lambda p: p["a_width"]), ("remainder", "output", lambda p: p["b_width"]), ("divide_by_0", "output", lambda p: 1)],
                                 lambda ps, a, b: dw(ps, a, b) + (int(b == 0),))}
                P = dict(width=W, tc_mode=tc, rem_mode=rem)

                def orc(v, k):
                    if not v["e_input"]: return None
                    q, rm = dw(dict(a_width=W, b_width=W, tc_mode=tc, rem_mode=rem), v["g_input"], v["e_input"])
                    return dict(o={"div": q << W | rm, "div_q": q, "div_r": rm}[k])
                for k in ("div", "div_q", "div_r"):
                    comb(lib, "div", k, P, dict(g_input=W, e_input=W), lambda v: orc(v, k), ck.n(10, 60), bb)
    for L in (1, 2, 3, 4, 6, 8):
        S = 1 << L
        t = T(lib, "encoder", "encoder", dict(logS=L)) if L else None
        t2 = T(lib, "stable_match", "encoder", dict(logS=L))
        for i in range(S):
            for x, f in ((t, lambda t: t.set(g_input=(1 << i) & m(S // 2), e_input=(1 << i) >> (S // 2)) and t.check("o", i, dict(hot=i))),
                         (t2, lambda t: t.set(**{"in": 1 << i}) and t.check("out", i, dict(hot=i)))):
                if x: f(x)
    for N, M in ((1, 8), (2, 4), (3, 5), (10, 32), (16, 8), (17, 3)):
        t = T(lib, "argmax", "argmax", dict(N=N, M=M))
        if not t: continue
        for _ in range(n):
            v = [r.getrandbits(M) if r.random() < .7 else r.choice([0, m(M), 1, 1 << (M - 1)]) for _ in range(N)]
            if not t.set(**{"in": sum(x << (M * i) for i, x in enumerate(v))}): break
            t.check("max", max(v), v)
            ind = t.D.get("ind")
            if ind >= N or v[ind] != max(v): t.check("ind", v.index(max(v)), v)
    # memory with three write ports, the first enabled one wins
    for M, W in ((4, 3), (128, 7), (16, 32)):
        t = T(lib, "select", "select", dict(M=M, W=W))
        if not t: continue
        t.reset(); mem = [0] * M
        for _ in range(n * 5):
            v = dict(read_adr=r.randrange(M))
            for s in ("", "2", "3"): v.update({"write_adr" + s: r.randrange(M), "write_data" + s: r.getrandbits(W), "write_en" + s: int(r.random() < .5)})
            if r.random() < .3: v["read_adr"] = v["write_adr" + r.choice(["", "2", "3"])]
            if not t.set(**v): break
            t.check("read_data", mem[v["read_adr"]], v)
            t.clk()
            for s in ("", "2", "3"):
                if v["write_en" + s]: mem[v["write_adr" + s]] = v["write_data" + s]; break
            t.check("read_data", mem[v["read_adr"]], v)
    t = T(lib, "public_test", "public_test")
    if t:
        for _ in range(n):
            p, g, e = r.getrandbits(8), r.getrandbits(16), r.getrandbits(32)
            t.set(p_init=p, g_init=g, e_init=e); t.reset()
            for k in range(4):
                v = dict(p_input=r.getrandbits(32), g_input=r.getrandbits(16), e_input=r.getrandbits(8))
                t.set(**v); p ^= v["e_input"]; g ^= v["g_input"]; e ^= v["p_input"]
                t.check("o", p ^ g ^ e, v); t.clk()
    for N in (2, 8, 32):
        t = T(lib, "non_secret_test", "non_secret_test", dict(N=N))
        if not t: continue
        t.reset()
        for k in range(n):
            v = dict(g_input=r.getrandbits(N), e_input=r.getrandbits(N))
            t.set(**v)
            a, b = (v["g_input"] - v["e_input"]) & m(N), (v["g_input"] + v["e_input"]) & m(N)      # sel ? sum : difference; sel toggles from 0
            if k & 1: a, b = b, a
            t.check("o", a, dict(v, cycle=k), key="exchanged" if t.D.get("o") == b else None); t.clk(); t.bad = 0
    # stack machine
    for N, S in ((8, 8), (16, 4), (32, 16)):
        t = T(lib, "stack_machine", "stackMachine", dict(N=N, S=S))
        if not t: continue
        for _ in range(ck.n(10, 80)):
            t.reset(); st = [0] * S; hist = []
            depth = 0
            for k in range(30):
                op = r.choice([4, 4, 4, 0, 1, 2, 3, 5, 6, 7]); x = r.getrandbits(N) if r.random() < .7 else r.choice([0, 1, m(N)])
                if op in (1, 2, 3, 6, 7):
                    if depth < 2: op = 4
                elif op == 5 and depth < 1: op = 4
                if op == 4 and depth == S: op = 0
                hist.append((op, x))
                if not t.set(g_input=x, e_input=op): break
                a, b = st[0], st[1]
                f = {0: a, 1: a + b, 2: a - b, 3: a * b, 4: x, 5: -a, 6: a & b, 7: a | b}[op] & m(N)
                t.check("o", f, dict(history=str(hist)))
                t.clk()
                if op == 4: st = [x] + st[:-1]; depth += 1
                elif op == 5: st[0] = f
                elif op: st = [f] + st[2:] + [st[-1]]; depth -= 1
    # matrices
    for N, M in ((1, 8), (2, 4), (3, 8), (2, 16)) + (((4, 8), (3, 32)) if ck.thorough else ()):
        ts = [T(lib, "matrix_mult", "matrix_mult_N_M_%d" % k, dict(N=N, M=M)) for k in range(4)]
        pk = lambda xs: sum((x & m(M)) << (M * i) for i, x in enumerate(xs))
        for _ in range(ck.n(12, 60)):
            X = [[r.getrandbits(M) for _ in range(N)] for _ in range(N)]; Y = [[r.getrandbits(M) for _ in range(N)] for _ in range(N)]
            P = [[sum(X[i][k] * Y[k][j] for k in range(N)) & m(M) for j in range(N)] for i in range(N)]
            flat = lambda A: [x for q in A for x in q]
            d = dict(X=str(X), Y=str(Y))
            if ts[0] and ts[0].set(g_input=pk(flat(X)), e_input=pk(flat(Y))): ts[0].check("o", pk(flat(P)), d)
            i, j = r.randrange(N), r.randrange(N)
            if ts[1]:
                ts[1].reset(); ts[1].set(g_input=pk(X[i]), e_input=pk(flat(Y))); ts[1].clk(); ts[1].check("o", pk(P[i]), d)
                i2 = r.randrange(N)
                ts[1].set(g_input=pk(X[i2])); ts[1].clk(); ts[1].check("o", pk([a + b for a, b in zip(P[i], P[i2])]), d)
            col = [Y[k][j] for k in range(N)]
            if ts[2]:
                ts[2].reset(); ts[2].set(g_input=pk(X[i]), e_input=pk(col)); ts[2].clk(); ts[2].check("o", P[i][j], d)
                ts[2].clk(); ts[2].check("o", 2 * P[i][j] & m(M), d)
            if ts[3]:
                ts[3].reset()
                for k in range(N):
                    if k: ts[3].clk()
                    ts[3].set(g_input=X[i][k], e_input=col[k])
                ts[3].check("o", P[i][j], d)


# ------------------------------------------------------------------ aes, sha3
SB = []


def sbox():
    if SB: return SB
    p = q = 1; t = [0] * 256
    while True:
        p = (p ^ (p << 1) ^ (0x1B if p & 0x80 else 0)) & 255
        q ^= q << 1; q ^= q << 2; q ^= q << 4; q &= 255
        if q & 0x80: q ^= 0x09
        rot = lambda x, k: (x << k | x >> (8 - k)) & 255
        t[p] = q ^ rot(q, 1) ^ rot(q, 2) ^ rot(q, 3) ^ rot(q, 4) ^ 0x63
        if p == 1: break
    t[0] = 0x63
    SB.extend(t)
    return SB


def aes(key, msg):
    S = sbox(); xt = lambda b: (b << 1 ^ (0x1B if b & 0x80 else 0)) & 255
    w = [key[4 * i:4 * i + 4] for i in range(4)]; rc = 1
    for i in range(4, 44):
        t = w[i - 1]
        if i % 4 == 0: t = [S[t[1]] ^ rc, S[t[2]], S[t[3]], S[t[0]]]; rc = xt(rc)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    s = [a ^ b for a, b in zip(msg, sum(w[:4], []))]
    for k in range(1, 11):
        s = [S[b] for b in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if k < 10:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]; x = a[0] ^ a[1] ^ a[2] ^ a[3]
                o += [a[i] ^ x ^ xt(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = o
        s = [a ^ b for a, b in zip(s, sum(w[4 * k:4 * k + 4], []))]
    return s


def keccak(A):
    """A: 25 lanes x + 5 y"""
    R = 1; m64 = m(64); rot = lambda v, k: (v << k | v >> (64 - k)) & m64 if k else v
    for rnd in range(24):
        C = [A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20] for x in range(5)]
        D = [C[(x + 4) % 5] ^ rot(C[(x + 1) % 5], 1) for x in range(5)]
        A = [A[i] ^ D[i % 5] for i in range(25)]
        x, y, cur = 1, 0, A[1]; Bm = list(A)
        for t in range(24):
            x, y = y, (2 * x + 3 * y) % 5
            cur, A[x + 5 * y] = A[x + 5 * y], rot(cur, (t + 1) * (t + 2) // 2 % 64)
        for j in range(0, 25, 5):
            T_ = A[j:j + 5]
            for x in range(5): A[j + x] = T_[x] ^ (~T_[(x + 1) % 5] & T_[(x + 2) % 5] & m64)
        for j in range(7):
            R = ((R << 1) ^ ((R >> 7) * 0x71)) % 256
            if R & 2: A[0] ^= 1 << ((1 << j) - 1)
    return A


def ciphers(lib):
    ck = lib.ck; r = ck.rng
    by = lambda v: [v >> (8 * i) & 255 for i in range(16)]
    num = lambda b: sum(x << (8 * i) for i, x in enumerate(b))
    cases = [(num(range(16)), num([0x11 * i for i in range(16)])), (0, 0), (m(128), m(128))] + [(r.getrandbits(128), r.getrandbits(128)) for _ in range(ck.n(5, 60))]
    t = T(lib, "aes", "aes_11cc")
    for k, v in cases if t else ():
        if not t.set(g_init=k, e_init=v): break
        t.reset(); t.clk(10); t.check("o", num(aes(by(k), by(v))), dict(key=k, msg=v))
    t = T(lib, "aes", "aes_1cc")
    for k, v in cases if t else ():
        if not t.set(g_input=k, e_input=v): break
        t.check("o", num(aes(by(k), by(v))), dict(key=k, msg=v))
    t = T(lib, "aes", "SubBytes")
    if t and sorted((n, s[1].w) for n, s in t.D.ports.items()) == [("x", 128), ("z", 128)]:
        for i in range(16):
            x = [16 * i + j for j in range(16)]
            if t.set(x=num(x)): t.check("z", num([sbox()[b] for b in x]), dict(x=num(x)))
    st = [(0, 0), (m(288), m(288))] + [(r.getrandbits(288), r.getrandbits(288)) for _ in range(ck.n(2, 20))]
    for CC in (1, 24, r.choice([2, 3, 4, 6, 8, 12])) if not ck.thorough else (1, 2, 3, 4, 6, 8, 12, 24):
        t = T(lib, "sha3", "sha3_seq", dict(CC=CC)) if CC > 1 else T(lib, "sha3", "sha3_comb", dict(CC=1))
        for g, e in st if t else ():
            v = e << 288 | g
            A = keccak([v >> (1536 - 64 * i) & m(64) for i in range(25)])        # lane 0 is the top word
            if CC > 1:
                if not t.set(g_init=g, e_init=e): break
                t.reset(); t.clk(CC - 1)
            elif not t.set(g_input=g, e_input=e): break
            t.check("o", sum(x << (1536 - 64 * i) for i, x in enumerate(A)), dict(g=g, e=e))


# ------------------------------------------------------------------ nearest neighbours
def nns(lib):
    ck = lib.ck; r = ck.rng; n = ck.n(12, 100)

    def points(W, N, q):
        return [r.getrandbits(W) if r.random() < .7 else q ^ (1 << r.randrange(W)) ^ (1 << r.randrange(W)) for _ in range(N)]

    def judge(t, got, key, dist, DB, k, d):
        """got: list of values; must be k items of DB whose distances are the k smallest (any order, any choice among ties)"""
        want = sorted(map(dist, DB))[:k]
        pool = list(DB); ok = len(got) == k
        for x in got:
            if x in pool: pool.remove(x)
            else: ok = False
        ck.case((t.tag, repr(t.p), repr(d))); ck.count("cases_" + t.d)
        if not ok or sorted(map(dist, got)) != want:
            t.bad += 1
            if t.bad < 5: ck.violation("%s:value" % t.tag, "%s returns %s at distances %s; the smallest distances are %s; %s" % (t.name(), ["%x" % x for x in got], [dist(x) for x in got], want, str(d)[:400]))
    for W, N in ((4, 3), (8, 8), (15, 32), (32, 5)):
        t = T(lib, "knns", "first_nns_comb", dict(W=W, N=N)); s = T(lib, "knns", "first_nns_seq", dict(W=W))
        for _ in range(n):
            q = r.getrandbits(W); DB = points(W, N, q); d = dict(query="%x" % q, db=["%x" % x for x in DB]); dist = lambda x: pc(x ^ q)
            if t and t.set(g_input=q, e_input=sum(x << (W * i) for i, x in enumerate(DB))): judge(t, [t.D.get("o")], "o", dist, DB, 1, d)
            if s:
                s.reset()
                for i, x in enumerate(DB):
                    if i: s.clk()
                    if not s.set(g_input=q, e_input=x): break
                judge(s, [s.D.get("o")], "o", dist, DB, 1, d)
    for W, K, N in ((8, 1, 6), (8, 2, 9), (15, 4, 20), (32, 3, 10), (8, 4, 4)):
        t = T(lib, "knns", "k_nns_seq", dict(W=W, K=K))
        for _ in range(n if t else 0):
            q = r.getrandbits(W); DB = points(W, N, q); d = dict(query="%x" % q, db=["%x" % x for x in DB])
            t.reset()
            for i, x in enumerate(DB):
                if i: t.clk()
                if not t.set(g_input=q, e_input=x): break
            o = t.D.get("o"); judge(t, [o >> (W * i) & m(W) for i in range(K)], "o", lambda x: pc(x ^ q), DB, K, d)

    def tpoints(W, N, q):
        near = lambda c: min(m(W), max(0, c + r.randrange(-9, 10)))
        return [(r.getrandbits(W), r.getrandbits(W)) if r.random() < .6 else (near(q[0]), near(q[1])) for _ in range(N)]
    for W in (2, 8, 16, 32):
        t = T(lib, "knns_td", "taxicab_distance", dict(N=W))
        for _ in range(n * 3 if t else 0):
            a, = tpoints(W, 1, (0, 0)); b, = tpoints(W, 1, a)
            if r.random() < .2: a = (0, m(W)); b = (m(W), 0)
            if t.set(x1=a[0], y1=a[1], x2=b[0], y2=b[1]): t.check("dist", abs(a[0] - b[0]) + abs(a[1] - b[1]), dict(a=a, b=b))
    pack = lambda p, W: p[0] << W | p[1]
    for W, N in ((4, 3), (8, 8), (16, 12)):
        t = T(lib, "knns_td", "first_nns_comb_td", dict(W=W, N=N)); s = T(lib, "knns_td", "first_nns_seq_td", dict(W=W))
        for _ in range(n):
            q = (r.getrandbits(W), r.getrandbits(W)); DB = [pack(x, W) for x in tpoints(W, N, q)]; d = dict(query=q, db=["%x" % x for x in DB])
            dist = lambda x: abs((x >> W) - q[0]) + abs((x & m(W)) - q[1])
            if t and t.set(g_input=pack(q, W), e_input=sum(x << (2 * W * i) for i, x in enumerate(DB))): judge(t, [t.D.get("o")], "o", dist, DB, 1, d)
            if s:
                s.reset()
                for i, x in enumerate(DB):
                    if i: s.clk()
                    if not s.set(g_input=pack(q, W), e_input=x): break
                judge(s, [s.D.get("o")], "o", dist, DB, 1, d)
    for top in ("k_nns_seq_td", "knns_seq"):
        for W, K, N in ((8, 1, 5), (8, 3, 9), (16, 4, 12), (8, 4, 4)):
            t = T(lib, "knns_td", top, dict(W=W, K=K))
            for _ in range(n if t else 0):
                q = (r.getrandbits(W), r.getrandbits(W)); DB = [pack(x, W) for x in tpoints(W, N, q)]; d = dict(query=q, db=["%x" % x for x in DB])
                dist = lambda x: abs((x >> W) - q[0]) + abs((x & m(W)) - q[1])
                t.reset()
                for i, x in enumerate(DB):
                    if i: t.clk()
                    if not t.set(g_input=pack(q, W), e_input=x): break
                o = t.D.get("o"); judge(t, [o >> (2 * W * i) & m(2 * W) for i in range(K)], "o", dist, DB, K, d)


# ------------------------------------------------------------------ rsa
def rsa(lib):
    ck = lib.ck; r = ck.rng; n = ck.n(12, 100)
    for N in (4, 8, 16, 24):
        t = T(lib, "rsa", "modmult", dict(N=N, CC=1))
        for _ in range(n * 3 if t else 0):
            mod = r.randrange(1, 1 << N) if r.random() < .7 else (1 << N) - r.randrange(1, 4); x, y = r.getrandbits(N), r.randrange(mod)
            if t.set(x=x, y=y, n=mod, start=1): t.check("o", x * y % mod, dict(x=x, y=y, n=mod))
    for N, CC in ((8, 8), (8, 4), (8, 2), (16, 16)):
        t = T(lib, "rsa", "modmult", dict(N=N, CC=CC))
        for _ in range(n if t else 0):
            mod = r.randrange(1, 1 << N); x, y = r.getrandbits(N), r.randrange(mod)
            t.reset()
            if t.set(x=x, y=y, n=mod, start=1):
                t.clk(); t.set(start=0); t.clk(CC - 2); t.check("o", x * y % mod, dict(x=x, y=y, n=mod))
                if r.random() < .5:     # again without a reset
                    t.clk(r.randrange(3)); x = r.getrandbits(N); t.set(x=x, start=1); t.clk(); t.set(start=0); t.clk(CC - 2); t.check("o", x * y % mod, dict(x=x, y=y, n=mod))

    def exps(N):
        mod = r.randrange(2, 1 << N); b = r.randrange(mod)
        e = r.choice([1, 2, 3, m(N), 1 << (N - 1), r.getrandbits(N) or 1, r.getrandbits(N // 2) or 1])
        return b, e, mod
    for N, CC in ((4, 1), (8, 1), (8, 2), (8, 8), (16, 16)):
        t = T(lib, "rsa", "modexp_1_N", dict(N=N, CC=CC))
        for _ in range(n if t else 0):
            b, e, mod = exps(N)
            if CC > 1: t.reset()
            if not t.set(g_input=b, e_input=mod << N | e): break
            if CC > 1: t.clk(CC - 1)
            t.check("o", pow(b, e, mod), dict(m=b, e=e, n=mod))
    for N, CC in ((4, 8), (8, 16), (8, 128), (8, 32), (4, 32), (16, 32)):
        t = T(lib, "rsa", "modexp_2N_NN", dict(N=N, CC=CC))
        for _ in range(n if t else 0):
            b, e, mod = exps(N)
            if not t.set(g_init=b, e_init=e << N | mod): break
            t.reset(); t.clk(CC - 1); t.check("o", pow(b, e, mod), dict(m=b, e=e, n=mod))


# ------------------------------------------------------------------ cordic
def cordic(lib):
    ck = lib.ck; r = ck.rng; n = ck.n(40, 400)
    F = 14; one = 1 << F; L = 16
    for N in (4, 8, 16, 32, 64, r.choice([2, 128])):      # an arithmetic shift to the right in spite of its name
        sw = (N - 1).bit_length() + 1
        comb(lib, "cordic", "barrel_shifter_left", dict(N=N), dict(a=N, shift=sw), lambda v: dict(o=sx(v["a"], N) >> v["shift"] & m(N)), n)

    for F, MOD in ((14, 1), (14, 0), (14, -1), (30, 1), (30, 0)):    # the 32-bit hyperbolic table is marked as not done
        one = 1 << F
        t = T(lib, "cordic", "alpha_table", dict(DEC=2, FRAC=F, MOD=MOD), tag="alpha_table.%d.%d" % (F, MOD))
        for i in range(F + 1) if t else ():
            want = (math.atan(2.0 ** -i) if MOD == 1 else 2.0 ** -i if MOD == 0 else math.atanh(2.0 ** -(i + 1))) * one
            if not t.set(iter=i): break
            got = t.D.get("alphai"); ck.case((t.tag, i)); ck.count("cases_cordic")
            if abs(got - want) > 1.01: ck.violation(t.tag, "%s: entry %d is %x, expected about %.2f" % (t.name(), i, got, want)); break

    def val(v): return sx(v, L) / one
    for F, MOD, DIR in ((14, 1, 0), (14, 0, 0), (14, 1, 1), (14, 0, 1), (30, 1, 0), (30, 0, 0), (30, 1, 1), (30, 0, 1)):
        L = F + 2; one = 1 << F
        t = T(lib, "cordic", "cordic", dict(DEC=2, FRAC=F, MOD=MOD, DIR=DIR), tag="cordic.%d.%d.%d" % (F, MOD, DIR))
        if not t: continue
        K = 1.0
        for i in range(F + 1): K *= math.sqrt(1 + 4.0 ** -i) if MOD == 1 else 1
        for _ in range(n):
            if DIR == 0:
                z = r.uniform(-1.5, 1.5); x, y = r.uniform(-.6, .6), r.uniform(-.6, .6)
                if r.random() < .3: x, y = 1 / K, 0
                if MOD == 0 and abs(y + x * z) > 1.9: continue
            else:
                x, y, z = r.uniform(.2, .8), r.uniform(-.6, .6), r.uniform(-.3, .3)
                if MOD == 0 and abs(y) > abs(x) * 1.9: continue
                if MOD == 0 and abs(z + y / x) > 1.9: continue
            X, Y, Z = (int(round(v * one)) & m(L) for v in (x, y, z))
            x, y, z = val(X), val(Y), val(Z)
            if not t.set(g_init=X << L | Y, e_init=Z): break
            t.reset()
            for c in range(60):
                if t.D.get("terminate"): break
                t.clk()
            o = t.D.get("o"); got = [val(o >> (L * k) & m(L)) for k in (2, 1, 0)]
            if MOD == 1 and DIR == 0: want = [K * (x * math.cos(z) - y * math.sin(z)), K * (y * math.cos(z) + x * math.sin(z)), 0]
            elif MOD == 0 and DIR == 0: want = [x, y + x * z, 0]
            elif MOD == 1: want = [K * math.hypot(x, y), 0, z + math.atan2(y, x)]
            else: want = [x, 0, z + y / x]
            if any(abs(w) > 1.95 for w in want): continue
            ck.case((t.tag, X, Y, Z)); ck.count("cases_cordic")
            tol = 40 / one if not (MOD == 0 and DIR == 1) else 80 / one
            if not t.D.get("terminate") or any(abs(g - w) > tol for g, w in zip(got, want)):
                t.bad += 1
                if t.bad < 5: ck.violation(t.tag + ":value", "%s from x=%.5f y=%.5f z=%.5f ends with %s, expected %s" % (t.name(), x, y, z, ["%.5f" % v for v in got], ["%.5f" % v for v in want]))


# ------------------------------------------------------------------ stable matching
def stable(lib):
    ck = lib.ck; r = ck.rng

    def gs(sp, rp):
        """suitor-optimal matching: suitor of each reviewer (or None)"""
        S, R = len(sp), len(rp); nxt = [0] * S; mate = [None] * R; free = list(range(S))
        while free:
            s = free.pop()
            while nxt[s] < len(sp[s]):
                q = sp[s][nxt[s]]; nxt[s] += 1
                rank = lambda z: rp[q].index(z) if z in rp[q] else 1 << 30
                if mate[q] is None: mate[q] = s; break
                if rank(s) < rank(mate[q]): free.append(mate[q]); mate[q] = s; break
        return mate
    for n in (2, 4, 8):          # the version with the lists in memories: one list each per cycle
        t = T(lib, "stable_match", "stable_match", dict(Kw=n, Km=n, M=n, W=n))
        if not t: continue
        lg = clog(n)
        for _ in range(ck.n(4 if n < 8 else 2, 30)):
            mp = [r.sample(range(n), n) for _ in range(n)]; wp = [r.sample(range(n), n) for _ in range(n)]
            if r.random() < .3: mp = [list(mp[0]) for _ in range(n)]
            if not t.set(g_input=0, e_input=0): break
            t.reset()
            for c in range(n * n * (n + 4) * 3):
                i = c % n
                v = sum(x << (lg * j) for j, x in enumerate(mp[i])) << (n * lg) | sum(wp[i].index(j) << (lg * j) for j in range(n))
                g = r.getrandbits(2 * n * lg)
                t.D.set(g_input=g, e_input=g ^ v); t.clk()
            t.check("o", sum(v << (lg * i) for i, v in enumerate(gs(mp, wp))), dict(men=str(mp), women=str(wp)))
    for n in (2, 3, 4, 5, 8, 10):
        t = T(lib, "stable_match", "stable_match_seq", dict(Kr=n, Ks=n, S=n, R=n))
        if not t: continue
        lg = clog(n)
        for _ in range(ck.n(6, 60)):
            sp = [r.sample(range(n), n) for _ in range(n)]; rp = [r.sample(range(n), n) for _ in range(n)]
            if r.random() < .3: sp = [list(sp[0]) for _ in range(n)]
            pk = lambda P: sum(v << (lg * (n * i + j)) for i, row in enumerate(P) for j, v in enumerate(row))
            if not t.set(sPref=pk(sp), rPref=pk(rp)): break
            t.reset(); t.clk(2 * n * n + 10)
            t.check("matchList", sum(v << (lg * i) for i, v in enumerate(gs(sp, rp))), dict(suitors=str(sp), reviewers=str(rp)))


# ------------------------------------------------------------------ mips
def asm_r(f, rs, rt, rd, sh=0): return rs << 21 | rt << 16 | rd << 11 | sh << 6 | f


def mips(lib):
    ck = lib.ck; r = ck.rng
    L = 4; N = 1 << L; W = 32
    t = T(lib, "mips", "Lite_MIPS", dict(L=L))
    if not t: return
    M32 = m(32)
    RF = {0x20: "add", 0x21: "add", 0x22: "sub", 0x23: "sub", 0x24: "and", 0x25: "or", 0x26: "xor", 0x27: "nor", 0x2a: "slt", 0x2b: "sltu", 0: "sll", 2: "srl", 3: "sra", 4: "sllv", 6: "srlv", 7: "srav"}

    def step(pcw, reg, mem, ins):
        op, rs, rt, rd, sh, f = ins >> 26, ins >> 21 & 31, ins >> 16 & 31, ins >> 11 & 31, ins >> 6 & 31, ins & 63
        imm = ins & 0xffff; si = sx(imm, 16); a, b = reg[rs], reg[rt]; nx = pcw + 1; w = None
        br = lambda c: pcw + si if c else pcw + 1
        if op == 0:
            if f == 8: nx = a >> 2
            elif f == 9: nx = a >> 2; w = (rd, (pcw + 1) * 4)
            else:
                w = (rd, {"add": a + b, "sub": a - b, "and": a & b, "or": a | b, "xor": a ^ b, "nor": ~(a | b), "slt": int(sx(a, 32) < sx(b, 32)), "sltu": int(a < b),
                          "sll": b << sh, "srl": b >> sh, "sra": sx(b, 32) >> sh, "sllv": b << (a & 31), "srlv": b >> (a & 31), "srav": sx(b, 32) >> (a & 31)}[RF[f]] & M32)
        elif op == 1:
            c = sx(a, 32) < 0 if rt in (0, 16) else sx(a, 32) >= 0
            nx = br(c)
            if rt >= 16: w = (31, (pcw + 1) * 4)
        elif op in (2, 3):
            nx = (pcw & ~m(26)) | ins & m(26)
            if op == 3: w = (31, (pcw + 1) * 4)
        elif op == 4: nx = br(a == b)
        elif op == 5: nx = br(a != b)
        elif op == 6: nx = br(sx(a, 32) <= 0)
        elif op == 7: nx = br(sx(a, 32) > 0)
        elif op in (8, 9): w = (rt, (a + si) & M32)
        elif op == 10: w = (rt, int(sx(a, 32) < si))
        elif op == 11: w = (rt, int(a < si & M32))
        elif op == 12: w = (rt, a & imm)
        elif op == 13: w = (rt, a | imm)
        elif op == 14: w = (rt, a ^ imm)
        elif op == 15: w = (rt, imm << 16)
        else:
            ad = (a + si) & M32; i = ad >> 2 & (N - 1); k = ad & 3
            if op == 0x23: w = (rt, mem[i])
            elif op == 0x20: w = (rt, sx(mem[i] >> (8 * k) & 255, 8) & M32)
            elif op == 0x24: w = (rt, mem[i] >> (8 * k) & 255)
            elif op == 0x21: w = (rt, sx(mem[i] >> (16 * (k >> 1)) & 0xffff, 16) & M32)
            elif op == 0x25: w = (rt, mem[i] >> (16 * (k >> 1)) & 0xffff)
            elif op == 0x2b: mem[i] = b
            elif op == 0x28: mem[i] = mem[i] & ~(255 << (8 * k)) | (b & 255) << (8 * k)
            elif op == 0x29: mem[i] = mem[i] & ~(0xffff << (16 * (k >> 1))) | (b & 0xffff) << (16 * (k >> 1))
        if w and w[0]: reg[w[0]] = w[1]
        return nx & m(30)

    def program():
        regs = [0, 1, 2, 3, 4, 31]
        P = []
        R = lambda: r.choice(regs)
        for i in range(N):
            k = r.random()
            if i < 3: P.append(r.choice([0x23 << 26 | R() << 16 | 4 * r.randrange(N), 0xf << 26 | R() << 16 | r.getrandbits(16), 0xd << 26 | R() << 16 | r.getrandbits(16), 8 << 26 | R() << 16 | r.getrandbits(16)]))
            elif k < .3: P.append(asm_r(r.choice(list(RF)), R(), R(), R(), r.randrange(32)))
            elif k < .5: P.append(r.choice([8, 9, 10, 11, 12, 13, 14, 15]) << 26 | R() << 21 | R() << 16 | (r.getrandbits(16) if r.random() < .7 else r.choice([0, 1, 0xffff, 0x8000, 0x7fff])))
            elif k < .75: P.append(r.choice([0x20, 0x21, 0x23, 0x24, 0x25, 0x28, 0x29, 0x2b, 0x2b]) << 26 | R() << 16 | 4 * r.randrange(N) + r.randrange(4))
            elif k < .92:
                off = r.choice([1, 2, 2, 3, -1, -2]) & 0xffff
                o = r.choice([1, 4, 5, 6, 7]); rt = R()
                if o == 1: rt = r.choice([0, 1, 16, 17])
                elif o > 5: rt = 0
                P.append(o << 26 | R() << 21 | rt << 16 | off)
            elif k < .97: P.append(r.choice([2, 3]) << 26 | r.randrange(N))
            else: P.append(asm_r(r.choice([8, 9]), 31, 0, r.choice([1, 31]) if 1 else 0))
        P = [p & ~(31 << 11) if p >> 26 == 0 and p & 63 == 8 else p for p in P]
        return P
    # aligned accesses: halfwords on even, words on multiples of four
    for _ in range(ck.n(300, 2000)):
        P = program()
        for i, p in enumerate(P):
            o = p >> 26
            if o in (0x23, 0x2b): P[i] = p & ~3
            if o in (0x21, 0x25, 0x29): P[i] = p & ~1
        mem = [r.getrandbits(32) if r.random() < .7 else r.choice([0, 1, M32, 0x80, 0x8000, 0x80000000]) for _ in range(N)]
        m0 = list(mem)
        if not t.set(g_init=sum(x << (32 * i) for i, x in enumerate(P)), e_init=sum(x << (32 * i) for i, x in enumerate(mem))): return
        t.reset(); reg = [0] * 32; pcw = 0; tr = []
        for c in range(24):
            if pcw >= N: break
            tr.append(pcw); old = list(mem)
            pcw = step(pcw, reg, mem, P[pcw]); t.clk()
            if mem != old or c % 8 == 7:
                if not t.check("o", sum(x << (32 * i) for i, x in enumerate(mem)), dict(trace=str(tr), last="%08x" % P[tr[-1]], program=" ".join("%08x" % x for x in P), data=" ".join("%08x" % x for x in m0))): break
        else: continue
    # every register result is made visible by storing it
    for _ in range(ck.n(1500, 10000)):
        k = r.random()
        a, b = [r.getrandbits(32) if r.random() < .6 else r.choice([0, 1, M32, 0x80000000, 0x7fffffff, 0x8000, 31, 32]) for _ in range(2)]
        if r.random() < .1: b = a
        imm = r.getrandbits(16) if r.random() < .7 else r.choice([0, 1, 0xffff, 0x8000])
        if k < .5: ins = asm_r(r.choice(list(RF)), 1, 2, 3, r.randrange(32))
        elif k < .8: ins = r.randrange(8, 16) << 26 | 1 << 21 | 3 << 16 | imm
        else:
            o = r.choice([0x20, 0x21, 0x24, 0x25, 0x23]); ad = r.randrange(8)
            ins = o << 26 | 3 << 16 | (ad & ~3 if o == 0x23 else ad & ~1 if o in (0x21, 0x25) else ad)
        P = [0x23 << 26 | 1 << 16 | 0, 0x23 << 26 | 2 << 16 | 4, ins, 0x2b << 26 | 3 << 16 | 8, 2 << 26 | 4]
        mem = [a, b] + [0x5a5a5a5a] * (N - 2); reg = [0] * 32; pcw = 0
        if not t.set(g_init=sum(x << (32 * i) for i, x in enumerate(P)), e_init=sum(x << (32 * i) for i, x in enumerate(mem))): return
        t.reset(); t.clk(5)
        for c in range(5): pcw = step(pcw, reg, mem, P[pcw])
        t.check("o", sum(x << (32 * i) for i, x in enumerate(mem)), dict(instruction="%08x" % ins, a=a, b=b))


# ------------------------------------------------------------------ float (wiring of the vendor blocks)
DWV = {"add": ("DW_fp_add", "float_add"), "mult": ("DW_fp_mult", "float_mul"), "div": ("DW_fp_div", "float_div")}


def floats(lib):
    """the DesignWare blocks are not part of the sources: they are stand-ins that compute an arbitrary function
    of all their inputs, so the check is that each wrapper hands over its operands in order and returns the result"""
    def mix(name, w, *a):
        h = hashlib.sha256(repr((name,) + a).encode()).digest()
        return int.from_bytes(h, "big") & m(w)
    FW = lambda P: P["sig_width"] + P["exp_width"] + 1
    P0 = ["sig_width", "exp_width", "ieee_compliance"]
    OUT = [("z", "output", FW), ("status", "output", lambda P: 8)]

    def val(k, w, a, b=0, rnd=0):
        return mix(k, w, *(sorted((a, b)) if k in ("add", "mult") else (a, b)), rnd)

    def cval(a, b):
        u = mix("unordered", 1, *sorted((a, b)))
        return (int(a == b), int(a < b), int(a > b), u)

    def two(k): return (P0, [("a", "input", FW), ("b", "input", FW), ("rnd", "input", lambda P: 3)] + OUT, lambda P, a, b, rnd: (val(k, FW(P), a, b, rnd), 0))

    def one(k, rnd):
        if rnd: return (P0, [("a", "input", FW), ("rnd", "input", lambda P: 3)] + OUT, lambda P, a, rd: (val(k, FW(P), a, 0, rd), 0))
        return (P0 + ["extra_prec", "arch"], [("a", "input", FW)] + OUT, lambda P, a: (val(k, FW(P), a), 0))
    black = {v[0]: two(k) for k, v in DWV.items()}
    black["DW_fp_cmp"] = (P0, [("a", "input", FW), ("b", "input", FW), ("zctr", "input", lambda P: 1)] + [(x, "output", lambda P: 1) for x in ("aeqb", "altb", "agtb", "unordered")]
                          + [("z0", "output", FW), ("z1", "output", FW), ("status0", "output", lambda P: 8), ("status1", "output", lambda P: 8)],
                          lambda P, a, b, z: cval(a, b) + (0, 0, 0, 0))
    for x, rnd in (("exp", 0), ("ln", 0), ("log2", 0), ("sqrt", 1), ("square", 1)): black["DW_fp_" + x] = one(x, rnd)
    for sw, ew in ((23, 8), (10, 5), (52, 11)):
        w = sw + ew + 1; pp = {} if sw == 23 else dict(sig_width=sw, exp_width=ew)
        for k, (_, top) in DWV.items():
            comb(lib, "float", top, pp, dict(g_input=w, e_input=w), lambda v, k=k, w=w: dict(o=val(k, w, v["g_input"], v["e_input"])), lib.ck.n(20, 200), black)
        comb(lib, "float", "float_cmp", pp, dict(g_input=w, e_input=w), lambda v: dict(o=int("%d%d%d%d" % cval(v["g_input"], v["e_input"]), 2)), lib.ck.n(20, 200), black)
        for k in ("exp", "ln", "log2"):
            comb(lib, "float", "fp_" + k, pp, dict(g_input=w, e_input=w), lambda v, k=k, w=w: dict(o=val(k, w, v["g_input"] ^ v["e_input"])), lib.ck.n(20, 200), black)
        ip = {} if sw == 23 else dict(inst_sig_width=sw, inst_exp_width=ew)
        for k in ("sqrt", "square"):
            comb(lib, "float", "fp_" + k, ip, dict(g_input=w + 3, e_input=w + 3),
                 lambda v, k=k, w=w: dict(o=val(k, w, (v["g_input"] ^ v["e_input"]) & m(w), 0, (v["g_input"] ^ v["e_input"]) >> w)), lib.ck.n(20, 200), black)


# ------------------------------------------------------------------ operator mapping library
def techlib(lib):
    """lib/stdcells_S.v: how the open synthesis flow turns word operators into gates; every mapped operator computes the operator"""
    ck = lib.ck; r = ck.rng
    lib.cache["techlib"] = vsim.load([os.path.join(lib.base, "lib", "stdcells_S.v")])
    PP = ["A_SIGNED", "A_WIDTH", "Y_WIDTH"]
    ext = lambda P, a: ((sx(a, P.get("A_WIDTH", 1)) if P.get("A_SIGNED", 0) else a) & m(P.get("Y_WIDTH", 1)),)
    pos = (PP, [("A", "input", lambda P: P.get("A_WIDTH", 1)), ("Y", "output", lambda P: P.get("Y_WIDTH", 1))], ext)
    g2 = lambda f: ([], [("A", "input", lambda P: 1), ("B", "input", lambda P: 1), ("Y", "output", lambda P: 1)], lambda P, a, b: (f(a, b),))
    WW = lambda P: P.get("WIDTH", 1)
    black = {"$pos": pos, "$bu0": pos, "$_XOR_": g2(lambda a, b: a ^ b), "$_AND_": g2(lambda a, b: a & b), "$_OR_": g2(lambda a, b: a | b),
             "$mux": (["WIDTH"], [("A", "input", WW), ("B", "input", WW), ("S", "input", lambda P: 1), ("Y", "output", WW)], lambda P, a, b, s: (b if s else a,))}
    tr = lambda a, b: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": tr, "mod": lambda a, b: a - tr(a, b) * b,
           "lt": lambda a, b: int(a < b), "le": lambda a, b: int(a <= b), "gt": lambda a, b: int(a > b), "ge": lambda a, b: int(a >= b),
           "eq": lambda a, b: int(a == b), "ne": lambda a, b: int(a != b), "eqx": lambda a, b: int(a == b), "nex": lambda a, b: int(a != b),
           "shl": lambda a, b: a << b, "sshl": lambda a, b: a << b, "shr": lambda a, b: a >> b, "sshr": lambda a, b: a >> b}
    for op, f in OPS.items():
        for _ in range(ck.n(10, 60)):
            aw, bw = r.choice([1, 2, 3, 5, 8, 17, 32]), r.choice([1, 2, 3, 4, 8, 16])
            if op in ("mul", "div", "mod"): aw, bw = min(aw, 9), min(bw, 8)
            if r.random() < .4 and not op.startswith(("sh", "ss")): bw = aw
            sh = op.startswith(("sh", "ss")); cmp_ = op in ("lt", "le", "gt", "ge", "eq", "ne", "eqx", "nex")
            sg = r.randrange(2) if op != "shr" else 0
            if sh: bw = min(bw, 6)
            yw = r.choice([1, 1, 3]) if cmp_ else r.choice([max(aw, bw), max(aw, bw), max(aw, bw) + 1, r.randrange(1, 12)])
            if op in ("shr", "sshr"): yw = aw
            if op in ("div", "mod", "mul"): yw = min(yw, 9)
            pp = dict(A_SIGNED=sg, B_SIGNED=0 if sh else sg, A_WIDTH=aw, B_WIDTH=bw, Y_WIDTH=yw)
            ins = dict(A=aw, B=bw)
            if op == "add": ins["C"] = 1

            def want(v, f=f, op=op, sg=sg, sh=sh, aw=aw, bw=bw, yw=yw):
                a = sx(v["A"], aw) if sg else v["A"]; b = sx(v["B"], bw) if sg and not sh else v["B"]
                if op in ("div", "mod") and not b: return None
                return dict(Y=(f(a, b) + v.get("C", 0)) & m(yw))
            comb(lib, "techlib", "$" + op, pp, ins, want, ck.n(30, 150), black)
    for w in (1, 2, 7, 8, 32):
        for sg in (0, 1):
            comb(lib, "techlib", "$neg", dict(A_SIGNED=sg, A_WIDTH=w, Y_WIDTH=w + 1), dict(A=w), lambda v: dict(Y=-(sx(v["A"], w) if sg else v["A"]) & m(w + 1)), ck.n(30, 150), black)
    for w, sw in ((1, 1), (4, 3), (8, 5), (3, 9)):
        pick = lambda v: (v["B"] >> (w * (v["S"].bit_length() - 1))) & m(w) if v["S"] else v["A"]
        ins = dict(A=w, B=w * sw, S=sw)
        sp = [dict(A=r.getrandbits(w), B=r.getrandbits(w * sw), S=1 << k) for k in range(sw) for _ in range(6)]
        comb(lib, "techlib", "$pmux", dict(WIDTH=w, S_WIDTH=sw), ins, lambda v: dict(Y=pick(v)) if pc(v["S"]) <= 1 else None, ck.n(20, 200), black, sp)
        comb(lib, "techlib", "$safe_pmux", dict(WIDTH=w, S_WIDTH=sw), ins, lambda v: dict(Y=pick(v) if pc(v["S"]) <= 1 else v["A"]), ck.n(40, 200), black, sp)


# ------------------------------------------------------------------ a23
HDR = [0xe59fd01c, 0xe59f000c, 0xe59f100c, 0xe59f200c, 0xeb000003, 0xeafffffe, 0x01000000, 0x02000000, 0x03000000, 0x04000100]
AL, I25 = 14 << 28, 1 << 25


def dp(op, s, rn, rd, sh, c=14): return c << 28 | op << 21 | s << 20 | rn << 16 | rd << 12 | sh


KINDS = ["dp", "shr", "mul", "mem", "wb", "ro", "mt", "push", "br", "loop", "bl", "cret", "pcrel", "stk"]


def a23_body(r, kinds, n):
    """random instructions over r3..r10 (r0..r2: g, e, o; r11, r12: scratch); shift amounts 0..31"""
    R = lambda: r.randrange(3, 11)
    S = lambda: r.randrange(0, 13) if r.random() < .2 else R()
    C = lambda: r.randrange(15) if r.random() < .4 else 14
    rl = lambda: r.getrandbits(8) << 3 or 8

    def shifter():
        if r.random() < .35: return I25 | r.randrange(16) << 8 | r.randrange(256)
        return r.choice([0, r.randrange(1, 32) << 7 | r.randrange(4) << 5, r.randrange(1, 32) << 7]) | R()

    def many(a, b, d): return sum((one(d) for _ in range(r.randrange(a, b))), [])

    def one(depth=0):
        k = r.choice(kinds); c = C()
        if k == "shr": return [dp(13, 0, 0, 11, I25 | r.randrange(32)), dp(r.choice([13, 15, 4, 0]), 1, R(), R(), 11 << 8 | r.randrange(4) << 5 | 16 | R(), c)]
        if k == "mul":
            d, a = r.sample(range(3, 11), 2); acc = r.randrange(2)
            return [c << 28 | acc << 21 | r.randrange(2) << 20 | d << 16 | (R() if acc else 0) << 12 | R() << 8 | 9 << 4 | a]
        if k == "mem":
            b = r.choice([0, 1, 2, 2, 2]); ld = 1 if b != 2 else r.randrange(2); by = r.randrange(2)
            return [c << 28 | 1 << 26 | 1 << 24 | 1 << 23 | by << 22 | ld << 20 | b << 16 | R() << 12 | (r.randrange(128) if by else 4 * r.randrange(32))]
        if k == "wb":
            ld, by, pre, up = [r.randrange(2) for _ in range(4)]; w = r.randrange(2) if pre else 0
            off = r.randrange(60) if by else 4 * r.randrange(16)
            return [dp(4, 0, 2, 12, I25 | r.choice([60, 64, 68, 72])),
                    c << 28 | 1 << 26 | pre << 24 | up << 23 | by << 22 | w << 21 | ld << 20 | 12 << 16 | R() << 12 | off, dp(2, 0, 12, R(), 2)]
        if k == "ro":
            ld, by = r.randrange(2), r.randrange(2); b = r.choice([0, 1, 2]) if ld else 2
            return [dp(13, 0, 0, 11, I25 | r.randrange(8)),
                    c << 28 | 3 << 25 | 1 << 24 | 1 << 23 | by << 22 | ld << 20 | b << 16 | R() << 12 | r.choice([0, 1, 2] if by else [2, 3]) << 7 | 11]
        if k == "mt":
            return [dp(4, 0, 2, 12, I25 | 128),
                    c << 28 | 4 << 25 | r.randrange(2) << 24 | r.randrange(2) << 23 | r.randrange(2) << 21 | r.randrange(2) << 20 | 12 << 16 | rl(), dp(2, 0, 12, R(), 2)]
        if k == "stk":
            x = [0xe24dd040, 0xe88d07f8, 0xe28dc020, 0xe88c07f8]      # room on the stack, written before it is read
            for _ in range(r.randrange(4, 10)):
                by = r.random() < .7
                x.append((c if r.random() < .3 else 14) << 28 | 1 << 26 | 1 << 24 | 1 << 23 | by << 22 | r.randrange(2) << 20 | 13 << 16 | R() << 12 | (r.randrange(16) if by else 4 * r.randrange(4)))
            return x + [0xe89d0000 | r.choice([0x78, 0x1e0, 0x780])] + [0xe28dd040]
        if k == "pcrel": return [0xe59f0000 | R() << 12, 5 << 25 | AL | 0, r.getrandbits(32)]
        if k == "br" and depth < 2:
            x = many(1, 4, depth + 1); return [c << 28 | 5 << 25 | (len(x) - 1) & 0xffffff] + x
        if depth == 0:
            if k == "push":
                l = rl(); return [0xe92d0000 | l] + many(0, 3, 1) + [0xe8bd0000 | l]
            if k == "loop":
                x = many(1, 4, 2)
                return [dp(13, 0, 0, 11, I25 | r.randrange(1, 4)), 0xe52db004] + x + [0xe59db000, dp(2, 1, 11, 11, I25 | 1), 0xe58db000, 1 << 28 | 5 << 25 | (-(len(x) + 5)) & 0xffffff, 0xe28dd004]
            if k in ("bl", "cret"):
                x = many(1, 3, 1)
                a, f = r.choice([([], 0x01a0f00e), ([0xe92d4000], 0x08bd8000), ([0xe52de004], 0x049df004), ([0xe92d4008], 0x08bd8008)])
                if k == "cret": x += [dp(10, 1, R(), 0, R()), r.randrange(15) << 28 | f] + many(0, 3, 1)
                x = a + x + [AL | f]
                return [0xeb000000, 5 << 25 | AL | (len(x) - 1)] + x
        op = r.randrange(16); cmpop = 8 <= op <= 11
        return [dp(op, 1 if cmpop else r.randrange(2), 0 if op in (13, 15) else S(), 0 if cmpop else R(), shifter(), c)]
    return sum((one() for _ in range(n)), [])


def a23_prog(r, kinds, n):
    """starts like the bundled images; ends by writing the flags and r3..r12 to the output memory"""
    p = HDR + [0xe52de004, 0xe89001f8, 0xe8911e00] + a23_body(r, kinds, n)
    p += [dp(13, 0, 0, 11, I25)] + [dp(12, 0, 11, 11, I25 | b, c) for c, b in ((4, 8), (0, 4), (2, 2), (6, 1))]
    return p + [AL | 1 << 26 | 1 << 24 | 1 << 23 | 2 << 16 | 11 << 12 | 128, dp(4, 0, 2, 2, I25 | 132), 0xe88217f8, 0xe49df004]


A23IMG = ["sum", "compare", "hamming", "mul", "mem-test", "matrix-mul", "temp", "cordic", "sbox"]
A23BIG = ["bubble-sort", "dijkstra", "merge-sort"]


def a23(lib):
    ck = lib.ck; r = ck.rng
    emu = os.path.join(ck.wd, "arm_emu_v")
    subprocess.check_call(["g++", "-O2", "-w", os.path.join(B.VERIF, "harness", "arm_emu.cc"), "-o", emu])
    des = {}

    def run(prog, g, e, limit):
        n = max(64, 1 << (len(prog) - 1).bit_length())
        if n not in des: des[n] = T(lib, "a23", "a23_gc_main", dict(CODE_MEM_SIZE=n))
        t = des[n]
        W = lambda v: sum(x << (32 * i) for i, x in enumerate(v))
        if not t or not t.set(p_init=W(prog), g_init=W(g), e_init=W(e)): return None, None
        t.reset()
        for c in range(limit):
            if t.D.get("terminate"): return t, c
            t.clk()
        return t, None

    def reference(prog, vecs):
        f = os.path.join(ck.wd, "a23.img")
        with open(f, "w") as h: h.write("\n".join("%08x" % x for x in prog + [0] * 8))
        q = subprocess.run([emu, f, "64", "2000000"], input="\n".join(" ".join("%x" % x for x in g + e) for g, e in vecs), capture_output=True, text=True)
        return [None if l.startswith("fault") else (sum(int(x, 16) << (32 * i) for i, x in enumerate(l.split()[:64])), int(l.split()[65])) for l in q.stdout.splitlines()]

    def one(name, prog, vecs, straight=False):
        times = set()
        for (g, e), w in zip(vecs, reference(prog, vecs)):
            if w is None: ck.count("a23_outside_domain"); continue
            t, c = run(prog, g, e, 30 * w[1] + 200)
            if t is None: return
            times.add(c); ck.count("a23_instructions", w[1])
            what = dict(name=name, program=" ".join("%08x" % x for x in prog[13:-13] if name == "random"), g=str(["%x" % x for x in g[:6]]), e=str(["%x" % x for x in e[:6]]))
            ck.case(("a23", name, hashlib.sha256(repr((prog, g, e)).encode()).hexdigest()[:16]))
            if c is None:
                ck.violation("a23:terminate:" + name, "a23_gc_main: terminate not raised within %d cycles of a program of %d instructions for %s" % (30 * w[1] + 200, w[1], what)); return
            t.check("o", w[0], what, key="o:" + name)
        if straight and len(times) > 1:
            ck.violation("a23:time", "a23_gc_main: a program without branches took %s cycles depending on the inputs: %s" % (sorted(times), " ".join("%08x" % x for x in prog)))
    W32 = lambda: r.getrandbits(32) if r.random() < .6 else r.choice([0, 1, 0xffffffff, 0x80000000, 0x7fffffff, r.randrange(64)])
    vec = lambda: ([W32() for _ in range(64)], [W32() for _ in range(64)])
    img = lambda p: [int(x, 16) for x in open(os.path.join(B.REPO, "a23", p, "p.txt")).read().split()]
    for p in A23IMG + (A23BIG if ck.thorough else []):
        try: q = img(p)
        except (OSError, ValueError): ck.count("a23_no_image"); continue
        vs = [vec() for _ in range(ck.n(1, 4 if p not in A23BIG else 1))]
        if p == "dijkstra": vs = [([x >> 8 for x in g], [x >> 8 for x in e]) for g, e in vs]
        one(p, q, vs)
    # every condition after comparisons of boundary values (all reachable flags)
    B5 = [0, 1, 0x80000000, 0x7fffffff, 0xffffffff]
    for o in (8, 9, 10, 11):
        p = list(HDR) + [0xe52de004]
        for _ in range(5):
            p += [0xe4903004, 0xe4914004, dp(13, 0, 0, 5, I25), dp(13, 0, 0, 6, I25), dp(o, 1, 3, 0, 4)]
            p += [dp(12, 0, 5 + (c >> 3), 5 + (c >> 3), I25 | 1 << (c & 7), c) for c in range(15)] + [0xe4825004, 0xe4826004]
        p += [0xe49df004]
        prs = [(a, b) for a in B5 for b in B5]; r.shuffle(prs)
        one("conditions", p, [([a for a, _ in prs[k:k + 5]] + [0] * 59, [b for _, b in prs[k:k + 5]] + [0] * 59) for k in range(0, 25, 5)], True)
    for i in range(ck.n(96, 2000)):
        if i % 3 == 0:     # no branches: also timed
            one("random", a23_prog(r, r.sample(["dp", "shr", "mul", "mem", "wb", "ro", "mt", "push", "stk", "dp"], 3), 6), [vec(), vec()], True)
        else:
            one("random", a23_prog(r, ["stk", "stk", "mem", "wb", "ro"] if i % 12 == 4 else KINDS if i % 3 == 1 else r.sample(KINDS, 2) + ["dp"], 10), [vec()])


PARTS = [synlib, a23, small, ciphers, nns, rsa, cordic, stable, mips, floats, techlib]


class Rec:
    """what a part observes, recorded in a process of its own and merged afterwards"""

    def __init__(self, ck, name):
        self.rng = random.Random("%s/%d/%s" % (ck.prop, ck.seed, name))
        self.thorough, self.n = ck.thorough, ck.n
        self.wd = os.path.join(ck.wd, name); os.makedirs(self.wd, exist_ok=True)
        self.keys, self.ev, self.cov, self.viol = set(), 0, {}, []

    def case(self, key=None, n=1):
        self.ev += n
        if key is not None: self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def count(self, name, n=1): self.cov[name] = self.cov.get(name, 0) + n

    def violation(self, key, what, replay=None):
        self.viol.append((key, what, replay))
        if os.environ.get("C28_STOP"): raise Stop()     # for experiments


class Stop(Exception): pass


def part(job):
    ck, p = job
    rec = Rec(ck, p.__name__); lib = Lib(rec); t = time.time()
    try: p(lib)
    except Stop: pass
    except (VError, KeyError, IndexError, AttributeError, RecursionError) as e:
        import traceback
        lib.skip(p.__name__, "part", e)
        if os.environ.get("C28_DEBUG"): traceback.print_exc()
    return p.__name__, rec.keys, rec.ev, rec.cov, rec.viol, lib.undecided, round(time.time() - t, 1)


def C28(ck):
    ck.cov["rule"] = ("designs executed by an own Verilog simulator against an oracle per design; distinct by design, parameters and inputs")
    ck.assumptions += ["two-valued simulation after reset; the vendor's floating-point blocks are stand-ins (only their wiring is judged)",
                       "processor programs: shift amounts 0..31, r15 only as branch target and load base"]
    only = os.environ.get("C28_PARTS")
    todo = [p for p in PARTS if not only or p.__name__ in only.split(",")]
    und = {}
    with multiprocessing.get_context("fork").Pool(min(8, len(todo)), maxtasksperchild=1) as pool:
        for name, keys, ev, cov, viol, u, secs in pool.imap(part, [(ck, p) for p in todo], 1):
            ck.seen |= keys; ck.cov["evaluations"] += ev; und.update(u)
            for k, v in cov.items(): ck.count(k, v)
            for v in viol: ck.violation(*v)
            ck.cov.setdefault("parts", {})[name] = dict(cases=ev, seconds=secs, failures=len(viol))
    ck.sample(dict(parts=ck.cov["parts"]))
    ck.cov["undecided"] = und
    for k, v in und.items(): print("not decided: %s: %s" % (k, v))
    if not ck.cov["evaluations"]: ck.inconclusive("nothing could be executed")
