"""The shipped programs as processes: C25, C26, C27."""
import hashlib, math, os, random, re, shutil, signal, socket, struct, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from lib import build as B, circ, run as R, sess, netlist
from checks import gcs

# ------------------------------------------------------------------ C26: processor programs
M32 = 0xffffffff
sg = lambda x: x - (1 << 32) if x >> 31 else x


def m_sum(g, e):
    s = (sum(g[i] << 32 * i for i in range(32)) + sum(e[i] << 32 * i for i in range(32))) % (1 << 1024)
    return [s >> 32 * i & M32 for i in range(32)]


def m_sort(g, e):
    return [x & M32 for x in sorted(sg(g[i] ^ e[i]) for i in range(32))]


def m_compare(g, e):
    a, b = (sum(x[i] << 32 * i for i in range(32)) for x in (g, e))
    return [int(a < b)]


def m_matrix(g, e):
    return [sum(g[3 * i + k] * e[3 * k + j] for k in range(3)) & M32 for i in range(3) for j in range(3)]


def m_dijkstra(g, e):
    w = [[g[8 * i + j] ^ e[8 * i + j] for j in range(8)] for i in range(8)]
    INF = 32767
    d = [0] + [INF] * 7
    for _ in range(8):                                # Bellman-Ford, zero weight = no edge
        for i in range(8):
            for j in range(8):
                if d[i] < INF and w[i][j] and d[i] + w[i][j] < d[j]: d[j] = d[i] + w[i][j]
    return d


AES_S = None


def aes128(key, msg):
    """FIPS-197, independent implementation"""
    global AES_S
    if AES_S is None:
        def gm(a, b):
            p = 0
            while b:
                if b & 1: p ^= a
                a = a << 1 ^ (0x11b if a & 0x80 else 0); b >>= 1
            return p
        inv = [0] * 256
        for a in range(1, 256):
            for b in range(1, 256):
                if gm(a, b) == 1: inv[a] = b; break
        AES_S = []
        for a in range(256):
            x = inv[a]; y = 0x63
            for k in range(5): y ^= (x << k | x >> (8 - k)) & 255
            AES_S.append(y)
    S = AES_S
    xt = lambda a: (a << 1 ^ (0x1b if a & 0x80 else 0)) & 255
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [S[b] for b in t[1:] + t[:1]]; t[0] ^= rc; rc = xt(rc)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    rk = lambda r: sum(w[4 * r:4 * r + 4], [])
    s = [a ^ b for a, b in zip(msg, rk(0))]
    for r in range(1, 11):
        s = [S[b] for b in s]
        s = [s[(4 * c + rr) + 4 * rr & 15] if False else s[4 * ((c + rr) % 4) + rr] for c in range(4) for rr in range(4)]
        if r < 10:
            t = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                t += [xt(a[i]) ^ xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4] for i in range(4)]
            s = t
        s = [a ^ b for a, b in zip(s, rk(r))]
    return bytes(s)


def m_sbox(g, e):
    aes128(bytes(16), bytes(16))
    return [AES_S[(g[0] ^ e[0]) & 255]]


def m_aes(g, e):
    return list(struct.unpack("<4I", aes128(struct.pack("<4I", *g[:4]), struct.pack("<4I", *e[:4]))))


def m_sha3(g, e):
    return list(struct.unpack("<8I", hashlib.sha3_256(struct.pack("<2I", *g[:2]) + struct.pack("<2I", *e[:2])).digest()))


def m_cordic(g, e):
    t = sg(g[0] ^ e[0]) / float(1 << 30)
    return [int(round(math.sin(t) * (1 << 30))), int(round(math.cos(t) * (1 << 30)))]


# name: (words of input used, words of output, model)
PROGS = {
    "sum": (32, 32, m_sum), "bubble-sort": (32, 32, m_sort), "merge-sort": (32, 32, m_sort),
    "compare": (32, 1, m_compare), "matrix-mul": (9, 9, m_matrix), "dijkstra": (64, 8, m_dijkstra),
    "aes": (4, 4, m_aes), "sha3": (2, 8, m_sha3), "cordic": (1, 2, m_cordic),
    "mul": (1, 1, lambda g, e: [g[0] * e[0] & M32]), "hamming": (1, 1, lambda g, e: [bin(g[0] ^ e[0]).count("1")]),
    "sbox": (1, 1, m_sbox),
    "mem-test": (1, 64, lambda g, e: list(range(64))),
}
EDGE = [0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, M32, M32 - 1, 0xffff, 0x10000, 0x55555555, 0xaaaaaaaa, 0xff, 0x100]


def vectors(r, p, n):
    """pairs of 64-word arrays in the domain of the program"""
    nin = PROGS[p][0]
    out = []

    def word(k):
        return r.getrandbits(32) if k == 0 else r.choice(EDGE) if k == 1 else r.getrandbits(r.choice([1, 3, 8, 16, 31])) if k == 2 else \
            (1 << r.randrange(32)) if k == 3 else 0 if k == 4 else M32
    for i in range(n):
        k, k2 = r.choice([0, 0, 0, 1, 1, 2, 3, 4, 5]), r.choice([0, 0, 1, 1, 2, 3, 4, 5])
        g = [word(k) for _ in range(64)]; e = [word(k2) for _ in range(64)]
        if p in ("bubble-sort", "merge-sort"):
            m = r.randrange(6)
            v = [r.getrandbits(32) for _ in range(32)] if m == 0 else [r.choice(EDGE) for _ in range(32)] if m == 1 else \
                [r.getrandbits(2) for _ in range(32)] if m == 2 else list(range(32)) if m == 3 else list(range(31, -1, -1)) if m == 4 else \
                [(r.randrange(-40, 40)) & M32 for _ in range(32)]
            if m == 3 and r.random() < .5: r.shuffle(v)
            g = [a ^ b for a, b in zip(e, v + [0] * 32)]
        elif p == "dijkstra":
            m = r.randrange(5)
            v = [0 if r.random() < (0, .5, .8, .3, .9)[m] else r.choice([r.randrange(1, 20), r.randrange(1, 9000), 32767, 32766, r.getrandbits(30)])
                 if m != 2 else r.randrange(0, 4) for _ in range(64)]
            g = [a ^ b for a, b in zip(e, v)]
        elif p == "sbox" and i < 256: g[0] = e[0] ^ i
        elif p == "cordic":
            t = r.choice([0, 1, -1, 0x6487ED51, -0x6487ED51, 0x3243F6A8, -0x3243F6A8, r.randrange(-0x6487ED51, 0x6487ED52), r.randrange(-5000, 5000)])
            g[0] = e[0] ^ (t & M32)
        elif p in ("compare", "sum") and r.random() < .6:
            # near-equal arrays and long carries
            g = list(e)
            if p == "sum": g = [~x & M32 for x in e]
            for _ in range(r.choice([0, 1, 1, 2])):
                j = r.choice([0, 0, 31, r.randrange(32)])
                g[j] = (g[j] + r.choice([1, -1, 1 << 31, r.getrandbits(32)])) & M32
        out.append((g, e))
    return out


def vtext(vs):
    return "".join(" ".join("%x" % x for x in g + e) + "\n" for g, e in vs)


def judge(p, g, e, o):
    """None if the 64 output words are right"""
    nin, nout, model = PROGS[p]
    want = model(g, e)
    if p == "cordic":
        if any(abs(sg(a) - b) > 100 for a, b in zip(o, want)): return "sine and cosine %s, expected %s" % ([sg(x) for x in o[:2]], want)
    elif o[:nout] != want:
        k = [i for i in range(nout) if o[i] != want[i]][0]
        return "word %d of the result is %08x, expected %08x" % (k, o[k], want[k])
    if any(o[nout:]): return "wrote beyond its %d words of output" % nout
    return None


def hexwords(r, v, n):
    """the words as an input file: little-endian lines of various widths"""
    t = "%0*x" % (8 * n, sum(x << 32 * i for i, x in enumerate(v[:n])))
    if r.random() < .3: t = t.upper()
    L, w = [], r.choice([8, 8, 8, 16, 4])
    for i in range(len(t), 0, -w): L.append(t[max(0, i - w):i])
    return "\n".join(L) + r.choice(["", "\n"])


def C26(ck):
    r = ck.rng
    ck.cov["rule"] = ("each bundled program, natively (sanitized and optimised), compiled for the processor (ARM-only code included) and as the shipped processor image on an instruction interpreter that faults on any access outside the "
                      "program's memories, on random, sparse, extreme, near-equal, duplicate-laden and out-of-order inputs, and through its executable with input files; results compared with independent models of the functions; "
                      "distinct by program, way of running and input")
    ck.assumptions += ["32-bit wrap-around arithmetic as on the processor", "dijkstra: non-negative weights; cordic: angles in [-pi/2, pi/2] to within 100 units of 2^-30",
                       "processor images: the interpreter implements the ARM subset used; unknown instructions are faults"]
    progs = B.a23_programs()
    for p in PROGS:
        if p not in progs: ck.inconclusive("program %s is not in the tree" % p)
    names = [p for p in PROGS if p in progs]
    san, plain = B.build_a23("a23san"), B.build_a23("a23plain", False)
    emu, arm, bad = B.build_arm(os.path.join(ck.wd, "arm"))
    for p, why in bad.items(): ck.count("not_compiled_for_arm"); ck.cov.setdefault("arm_notes", []).append("%s: %s" % (p, why))
    work = []
    nv = ck.n(400, 4000)
    for p in names:
        vs = vectors(r, p, nv)
        work.append((p, "native-san", [san[p]], vs[:nv // 2]))
        work.append((p, "native", [plain[p]], vs))
        if p in arm: work.append((p, "arm", [emu, arm[p], "4096", "20000000"], vs))
        img = os.path.join(B.REPO, "a23", p, "p.txt")
        if os.path.exists(img): work.append((p, "image", [emu, img, "64", "20000000"], vs))

    def go(w):
        p, how, cmd, vs = w
        try: q = subprocess.run(cmd, input=vtext(vs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=R.ENV, timeout=600)
        except subprocess.TimeoutExpired: return w, None, b""
        return w, q.stdout.decode().splitlines(), q.stderr[-1500:]
    steps = {}
    with ThreadPoolExecutor(8) as ex:
        for (p, how, cmd, vs), L, err in ex.map(go, work):
            if L is None: ck.violation("%s:%s:hang" % (how, p), "%s (%s) did not finish" % (p, how)); continue
            if len(L) != len(vs): ck.inconclusive("%s (%s): %d of %d results" % (p, how, len(L), len(vs)))
            for (g, e), l in zip(vs, L):
                ck.case((p, how, tuple(g[:PROGS[p][0]]), tuple(e[:PROGS[p][0]])))
                w = l.split()
                key = "%s:%s" % (how, p)
                if how == "image": key += ":" + hashlib.sha256(open(cmd[1], "rb").read()).hexdigest()[:12]
                rep = dict(program=p, how=how, g=g[:PROGS[p][0]], e=e[:PROGS[p][0]], out=l)
                if w and w[0] in ("status", "fault"):
                    ck.violation(key + ":abort", "%s (%s) ended abnormally: %s %s" % (p, how, l, err.decode(errors="replace")[-700:]), rep); continue
                o = [int(x, 16) for x in w[:64]]
                if len(w) > 64:
                    steps.setdefault(p + "/" + how, []).append((int(w[65]), int(w[66])))
                f = judge(p, g, e, o)
                if f: ck.violation(key, "%s (%s): %s" % (p, how, f), rep)
    ck.cov["instructions"] = {k: dict(min=min(a for a, _ in v), max=max(a for a, _ in v), stack_words=max(b for _, b in v)) for k, v in steps.items()}
    ck.sample(dict(program="merge-sort", ways=["native-san", "native", "arm", "image"], vectors=nv))
    # the executables: names of directories below the source tree's a23, or outside through it
    def exe(t):
        p, i, g, e, name = t
        q = subprocess.run([san["main:" + p]] + name + (["--log2std"] if False else []), cwd=ck.wd, env=R.ENV, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        return t, q
    jobs = []
    for p in names:
        for i in range(ck.n(4, 30)):
            g, e = vectors(r, p, 1)[0]
            n = PROGS[p][0]
            d = os.path.join(ck.wd, "in", "%s-%d" % (p, i), "test")
            os.makedirs(d)
            open(os.path.join(d, "g.txt"), "w").write(hexwords(r, g, n)); open(os.path.join(d, "e.txt"), "w").write(hexwords(r, e, n))
            rel = os.path.relpath(os.path.dirname(d), os.path.join(B.REPO, "a23"))
            jobs.append((p, i, g[:n] + [0] * (64 - n), e[:n] + [0] * (64 - n), r.choice([["-n", rel], ["--test_name", rel], ["--test_name=" + rel]])))
        jobs.append((p, -1, None, None, r.choice([[], ["-n"]])))
    with ThreadPoolExecutor(8) as ex:
        for (p, i, g, e, name), q in ex.map(exe, jobs):
            ck.case(("exe", p, i, tuple(name) if i < 0 else (tuple(g), tuple(e))))
            out = q.stdout.decode(errors="replace").strip()
            if i < 0:
                if q.returncode <= 0 or q.returncode > 100 and q.returncode != 255: ck.violation("exe-refuse:" + p, "%s without a test name: status %s %s" % (p, q.returncode, q.stderr[-600:]))
                continue
            rep = dict(program=p, g=g, e=e, out=out, status=q.returncode, err=q.stderr.decode(errors="replace")[-600:])
            if q.returncode != 0 or not re.fullmatch(r"[0-9A-Fa-f]+", out): ck.violation("exe:" + p, "%s failed: status %s output %r" % (p, q.returncode, out[:200]), rep); continue
            v = int(out, 16)
            f = judge(p, g, e, [v >> 32 * k & M32 for k in range(64)]) or ("more than 64 words" if v >> 2048 else None)
            if f: ck.violation("exe:" + p, "executable of %s: %s" % (p, f), rep)
    ck.count("executable_runs", len(jobs))


# ------------------------------------------------------------------ processes
_port = [20000 + (os.getpid() * 37) % 20000]
_used = set()
import threading
_plock = threading.Lock()


def free_port():
    with _plock:
        for _ in range(20000):
            _port[0] = 20000 + (_port[0] - 20000 + 1) % 25000
            s = socket.socket()
            try: s.bind(("0.0.0.0", _port[0])); return _port[0]
            except OSError: continue
            finally: s.close()
    raise R.HarnessError("no free port")


def listening(port):
    want = ":%04X" % port
    with open("/proc/net/tcp") as f:
        for l in f:
            w = l.split()
            if len(w) > 3 and w[3] == "0A" and w[1].endswith(want): return True
    return False


class Tool:
    """one shipped program as a process of its own; argv[0] points into the scratch folder, where its logs go"""
    def __init__(s, exe, args, cwd, tag, pre=(), env=None):
        s.args, s.tag = list(args), tag
        s.argv0 = os.path.join(cwd, "log-" + tag)
        cmd = list(pre) + [exe] + s.args if pre else [s.argv0] + s.args
        s.p = subprocess.Popen(cmd, executable=None if pre else exe, cwd=cwd, env=env or R.ENV, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        s.hang = False

    def wait(s, t):
        end, mark, seen = time.time() + t, time.time(), -1
        while True:
            try: o, e = s.p.communicate(timeout=max(0, min(t, 5) if t > 1 else t)); break
            except subprocess.TimeoutExpired: pass
            # a process that still computes when its time is up is slow, not stuck
            c = s.ticks(); now = time.time()
            if c != seen: seen, mark = c, now
            if now < end or t > 1 and now - mark < 12 and now < end + 2 * t: continue
            s.hang = True
            try: os.killpg(s.p.pid, 9)
            except OSError: pass
            o, e = s.p.communicate(); break
        s.out, s.err, s.rc = o.decode(errors="replace"), e.decode(errors="replace"), s.p.returncode
        return s

    def ticks(s):
        try: return sum(int(x) for x in open("/proc/%d/stat" % s.p.pid).read().rsplit(")", 1)[1].split()[11:13])
        except OSError: return -1

    def crash(s):
        """died of a signal or of a sanitizer report"""
        return s.rc < 0 or "runtime error:" in s.err or "AddressSanitizer" in s.err or "terminate called" in s.err

    def log(s):
        d = os.path.dirname(s.argv0); b = os.path.basename(s.argv0)
        return "".join(open(os.path.join(d, f), errors="replace").read() for f in sorted(os.listdir(d)) if f.startswith(b + "-") and f.endswith("-info.log"))

    def doc(s): return dict(args=s.args, status=s.rc, out=s.out[-600:], err=s.err[-1500:], hang=s.hang)


class Relay(threading.Thread):
    """listens on one loopback address only and passes bytes between its first client and a local port"""
    def __init__(s, host, target):
        super().__init__(daemon=True)
        s.l = socket.socket(); s.l.bind((host, 0)); s.l.listen(1); s.port = s.l.getsockname()[1]
        s.target, s.used = target, False
        s.start()

    def run(s):
        try:
            s.l.settimeout(60); c, _ = s.l.accept(); s.used = True
            d = socket.create_connection(("127.0.0.1", s.target))
        except OSError: return

        def pump(x, y):
            try:
                while True:
                    b = x.recv(65536)
                    if not b: break
                    y.sendall(b)
                y.shutdown(socket.SHUT_WR)
            except OSError: pass
        t = threading.Thread(target=pump, args=(c, d), daemon=True); t.start(); pump(d, c); t.join(60)
        for x in (c, d, s.l): x.close()


def run_pair(exe, a_args, b_args, cwd, tag, timeout=90, pre=(), portopt=None, via=None):
    """the two parties of one session as two processes; None if no port could be had.
    via: the address (and as text, how Bob is told of it) of a relay that is the only way from Bob to Alice"""
    for k in range(5):
        port = free_port()
        f = portopt or (lambda p: ["-p", str(p)])
        a = Tool(exe, a_args + f(port), cwd, "%s-a%d" % (tag, k), pre)
        t0 = time.time()
        while a.p.poll() is None and not listening(port) and time.time() - t0 < 60: time.sleep(.02)
        if a.p.poll() is None and listening(port):
            bp, ba = port, b_args
            if via:
                rl = Relay(via[0], port); bp, ba = rl.port, b_args + via[1]
            b = Tool(exe, ba + f(bp), cwd, "%s-b%d" % (tag, k), pre)
            b.wait(timeout); a.wait(1 if b.hang else timeout if b.rc == 0 else min(timeout, 25))
            return a, b
        if a.p.poll() is None: a.wait(0); a.hang = True
        else: a.wait(5)
        if "Address already in use" not in a.err + a.log(): return a, None
    return None, None


def valarg(r, ck, opt, x, need, tag):
    """one value as an option: left out, inline or in a file"""
    if not need and r.random() < .8: return []
    if x == 0 and r.random() < .4: return []
    h = circ.hexv(x, r)
    k = r.random()
    if k < .45: v = h
    else:
        t = h
        w = r.choice([1, 2, 8, 8, 8, 16, 5])
        L = [t[max(0, i - w):i] for i in range(len(t), 0, -w)]
        nm = "v-%s-%s.txt" % (tag, opt)
        ck.file(nm, "\n".join(L) + r.choice(["", "\n"]))
        v = nm if r.random() < .5 else os.path.join(ck.wd, nm)
    return ["--%s=%s" % (opt, v)] if r.random() < .5 else ["--" + opt, v]


MODES = [["0", "consecutive"], ["1", "separated_clock"], ["2", "last_clock"]]


def common_opts(r, cc, mask, period, mode, ot, low):
    o = []
    if cc != 1 or r.random() < .5: o.append(r.choice([["-c", str(cc)], ["--clock_cycles", str(cc)], ["-c%d" % cc], ["--clock_cycles=%d" % cc]]))
    if mask or r.random() < .3: o.append(["--output_mask", circ.hexv(mask, r)])
    if period or r.random() < .2: o.append(r.choice([["-t", str(period)], ["--terminate_period", str(period)]]))
    if mode or r.random() < .3: o.append(["--output_mode", r.choice(MODES[mode])])
    if not ot: o.append(["--disable_OT"])
    if low: o.append(["--low_mem_foot"])
    r.shuffle(o)
    return sum(o, [])


def printed(t, mode, cycles):
    """the result at the end of a program's standard output; (value, whether something else was printed before it)"""
    L = t.rstrip("\n").split("\n")
    k = cycles if mode == 1 else 1
    extra = L[:-k]
    return sess.parse_out("\n".join(L[-k:]), mode), bool("\n".join(extra).strip())


def shell(s): return " ".join(s)


def C25(ck):
    r = ck.rng
    ck.cov["rule"] = ("two real processes per session over TCP with random supported options (values inline or in files of any line length, masks, modes by name and number, periods, transfer and memory modes, logging), translator runs "
                      "followed by plaintext evaluation and by sessions, oblivious transfers, and invocations that must be refused; printed results and exit statuses compared with independent models; distinct by circuit, values and options")
    T = B.build("san", ("garbled_circuit_main", "v_2_scd_main", "scd_evaluator_main", "OT_main"))
    GC, V2S, EVA, OTM = (T[k] for k in ("garbled_circuit_main", "v_2_scd_main", "scd_evaluator_main", "OT_main"))
    tasks = []

    def logopt(): return r.choice([[], [], ["--log2std"], ["--error2std"]])

    def elsewhere():
        h = "127.%d.%d.%d" % (r.randrange(1, 255), r.randrange(256), r.randrange(2, 255))
        return h, r.choice([["-s", h], ["-s" + h], ["--server_ip", h], ["--server_ip=" + h]])

    def gc_opts(c, v, cc, mask, period, mode, ot, low, path, tag, via=None):
        co = lambda: common_opts(random.Random(r.random()), cc, mask, period, mode, ot, low)
        pub = lambda q: valarg(r, ck, "p_init", v["p_init"], c.pi, tag + q) + valarg(r, ck, "p_input", v["p_input"], c.p, tag + q)
        A = [r.choice(["-a", "--alice"]), r.choice(["-i", "--scd_file"]), path] + co() + pub("a") + valarg(r, ck, "init", v["g_init"], c.gi, tag + "a") + valarg(r, ck, "input", v["g_input"], c.g, tag + "a")
        Bo = [r.choice(["-b", "--bob"]), r.choice(["-i", "--scd_file"]), path] + co() + pub("b") + valarg(r, ck, "init", v["e_init"], c.ei, tag + "b") + valarg(r, ck, "input", v["e_input"], c.e, tag + "b")
        if not via and r.random() < .5: Bo += r.choice([["-s", "127.0.0.1"], ["--server_ip", "localhost"], ["--server_ip=127.0.0.1"]])
        return A + logopt(), Bo + logopt()

    def judge_gc(lab, a, b, exp, mode, n, rep):
        ck.count("sessions")
        if a is None: ck.inconclusive("no port"); return
        if b is None:
            ck.violation("server", "%s: Alice ended with %s before listening: %s" % (lab, a.rc, a.err[-800:]), dict(rep, a=a.doc())); return
        rep = dict(rep, a=a.doc(), b=b.doc())
        if a.hang or b.hang: ck.violation("hang", "%s: no end: %s | %s" % (lab, shell(a.args), shell(b.args)), rep); return
        for w, x, e in (("Alice", a, exp.a), ("Bob", b, exp.b)):
            if x.rc != 0:
                ck.violation("exit", "%s: %s ended with %s although the session is valid: %s | %s" % (lab, w, x.rc, shell(x.args), x.err[-800:]), rep); return
            got, extra = printed(x.out, mode, exp.done)
            if extra and "--log2std" not in x.args: ck.violation("chatter", "%s: %s printed more than the result: %r" % (lab, w, x.out[-300:]), rep)
            want = sess.render(e, n, mode)
            if got != want: ck.violation("value", "%s: %s printed %r, expected %r | %s" % (lab, w, x.out[-200:], want if isinstance(want, list) else "%X" % want, shell(x.args)), rep); return

    def gc_task(i):
        term = r.random() < .35
        c = circ.rand_circ(r, term=term, const_out=r.random() < .2)
        cc = r.choice([1, 1, 2, 3, 7])
        v = circ.rand_vals(r, c, cc)
        if r.random() < .08: v = {k: x | (r.getrandbits(9) << 400) for k, x in v.items()}
        n = len(c.outs); mask = gcs.vary_mask(r, n); mode = r.randrange(3)
        period = r.choice([0, 1, 1, 2, 3]) if term else 0
        ot, low = r.random() < .12, r.random() < .35
        p = os.path.join(ck.wd, "s%d.scd" % i); c.write(p)
        exp = sess.Exp(c, v, cc, mask, period)
        via = elsewhere() if i % 20 == 7 else None
        A, Bo = gc_opts(c, v, cc, mask, period, mode, ot, low, r.choice([p, "s%d.scd" % i]), "s%d" % i, via)
        po = r.choice([None, lambda q: ["--port", str(q)], lambda q: ["--port=%d" % q], lambda q: ["-p%d" % q]])

        def go():
            a, b = run_pair(GC, A, Bo, ck.wd, "s%d" % i, portopt=po, via=via)
            if via: ck.count("sessions_with_another_server_address")
            return lambda: (ck.case((c.scd(), tuple(sorted(v.items())), tuple(A), tuple(Bo))),
                            judge_gc("session", a, b, exp, mode, n, dict(scd=p, values={k: "%X" % x for k, x in v.items()})))
        return go
    for i in range(ck.n(450, 3000)): tasks.append(gc_task(i))

    def long_task(i, cc, low, mode, ends):
        """many cycles: either run to the end, or given as a limit that termination keeps the run from reaching"""
        while True:
            c = gcs.counter(6, 5, False) if not ends else gcs.term_circuit(r)[0]
            v = circ.rand_vals(r, c, 12 if ends else min(cc, 400)); per = 1 if ends else 0
            exp = sess.Exp(c, v, 12 if ends else cc, 0, per)
            if not ends or exp.done < 12: break
        p = os.path.join(ck.wd, "l%d.scd" % i); c.write(p)
        A, Bo = gc_opts(c, v, cc, 0, per, mode, False, low, p, "l%d" % i)

        def go():
            a, b = run_pair(GC, A, Bo, ck.wd, "l%d" % i, timeout=200)
            return lambda: (ck.case((c.scd(), tuple(A), tuple(Bo))), ck.count("sessions_of_many_cycles"), judge_gc("session of %d cycles" % cc, a, b, exp, mode, len(c.outs), dict(scd=p)))
        return go
    for i, (cc, low, mode, ends) in enumerate([(65536, True, 2, False), (65537, False, 2, False), (256, False, 0, False), (300, True, 1, False), (1 << 32, True, 1, True), ((1 << 32) + 3, True, 0, True), (1 << 31, True, 2, True), (65536, False, 0, True), (1 << 16, True, 1, True)]):
        tasks.append(long_task(i, cc, low, mode, ends))

    # translator -> evaluator -> session
    def pipe_task(i):
        brist = r.random() < .3
        if brist:
            b = netlist.rand_bristol(r); text = netlist.bristol_text(b, r); cc = 1
            v = dict(p_init=0, g_init=0, e_init=0, p_input=0, g_input=r.getrandbits(b["g"]), e_input=r.getrandbits(b["e"]) if b["e"] else 0)
            bits = [v["g_input"] >> k & 1 for k in range(b["g"])] + [v["e_input"] >> k & 1 for k in range(b["e"])]
            full = [circ.pack(netlist.bristol_eval(b, bits, 1)[0])]; n = b["o"]
            sizes = dict(p_init=0, g_init=0, e_init=0, p_input=0, g_input=b["g"], e_input=b["e"])
        else:
            nt = netlist.rand_net(r, term=False); text = nt.text(r); cc = r.choice([1, 2, 4]); n = nt.nout
            v = {q: r.getrandbits(nt.sizes[q] * (cc if "input" in q else 1) or 1) if nt.sizes[q] else 0 for q in VKEYS}
            lanes = {q: [v[q] >> k & 1 for k in range(nt.sizes[q] * (cc if "input" in q else 1))] for q in VKEYS}
            outs, _ = nt.simulate(lanes, cc, 1)
            full = [circ.pack(o) for o in outs]; sizes = nt.sizes
        src = ck.file("t%d.%s" % (i, "txt" if brist else "v"), text.encode())
        dst = os.path.join(ck.wd, "t%d.out.scd" % i)
        targs = [r.choice(["-b", "--brist_netlist"]) if brist else r.choice(["-i", "--netlist"]), src, r.choice(["-o", "--scd"]), dst] + logopt()
        mode, mask = r.randrange(3), gcs.vary_mask(r, n)
        eargs = [r.choice(["-i", "--scd_file"]), dst] + (["-c", str(cc)] if cc > 1 or r.random() < .4 else []) + (["--output_mode", r.choice(MODES[mode])] if mode or r.random() < .3 else [])
        for q in VKEYS: eargs += valarg(r, ck, q, v[q], sizes[q], "t%d" % i)
        eargs += logopt()
        exp = sess.Exp.__new__(sess.Exp); exp.done, exp.full, exp.n = cc, full, n
        m = mask & ((1 << n) - 1)
        exp.a, exp.b = [x & m for x in full], [x & ~m for x in full]

        class Z: pass
        z = Z(); z.pi, z.gi, z.ei, z.p, z.g, z.e = (sizes[q] for q in VKEYS)
        gcrun = i % 3 == 0
        A, Bo = gc_opts(z, v, cc, mask, 0, mode, False, r.random() < .3, dst, "t%d" % i) if gcrun else (None, None)

        def go():
            t = Tool(V2S, targs, ck.wd, "t%d" % i).wait(90)
            e = Tool(EVA, eargs, ck.wd, "e%d" % i).wait(90) if t.rc == 0 else None
            a, b = run_pair(GC, A, Bo, ck.wd, "t%d" % i) if gcrun and t.rc == 0 else (None, None)

            def verdict():
                ck.case((text, tuple(sorted(v.items())), tuple(eargs))); ck.count("pipelines")
                rep = dict(netlist=src, translator=t.doc(), evaluator=e.doc() if e else None)
                if t.rc != 0: ck.violation("translate", "V2SCD_Main ended with %s on a well-formed netlist: %s %s" % (t.rc, shell(t.args), t.err[-800:]), rep); return
                if e.rc != 0: ck.violation("evaluate", "SCD_Evaluator_Main ended with %s: %s %s" % (e.rc, shell(e.args), e.err[-800:]), rep); return
                got, extra = printed(e.out, mode, cc)
                want = sess.render(full, n, mode)
                if extra and "--log2std" not in e.args: ck.violation("chatter", "the evaluator printed more than the result: %r" % e.out[-300:], rep)
                if got != want: ck.violation("pipeline-value", "the evaluator printed %r, expected %r | %s" % (e.out[-300:], want, shell(e.args)), rep); return
                if gcrun: judge_gc("session after translation", a, b, exp, mode, n, rep)
            return verdict
        return go
    for i in range(ck.n(180, 1200)): tasks.append(pipe_task(i))

    def eval_task(i):
        # the evaluator alone, with termination
        term = True
        c = circ.rand_circ(r, term=term); cc = r.choice([2, 4, 9]); v = circ.rand_vals(r, c, cc); period = r.choice([1, 1, 2, 3, 0]); mode = r.randrange(3)
        p = os.path.join(ck.wd, "p%d.scd" % i); c.write(p); c.write_map(p + ".map")
        args = ["-i", p, "-c", str(cc)] + r.choice([["-t", str(period)], ["--terminate_period=%d" % period]]) + ["--output_mode", r.choice(MODES[mode])]
        for q in VKEYS: args += valarg(r, ck, q, v[q], getattr(c, dict(zip(VKEYS, ("pi", "gi", "ei", "p", "g", "e")))[q]), "p%d" % i)
        exp = sess.Exp(c, v, cc, 0, period)

        def go():
            e = Tool(EVA, args, ck.wd, "p%d" % i).wait(90)

            def verdict():
                ck.case((c.scd(), tuple(args))); ck.count("evaluations_with_termination")
                if e.rc != 0: ck.violation("evaluate", "SCD_Evaluator_Main ended with %s: %s %s" % (e.rc, shell(args), e.err[-800:]), dict(scd=p, e=e.doc())); return
                got, _ = printed(e.out, mode, exp.done)
                if got != sess.render(exp.full, exp.n, mode): ck.violation("value", "the evaluator printed %r, expected %r | %s" % (e.out[-300:], sess.render(exp.full, exp.n, mode), shell(args)), dict(scd=p, e=e.doc()))
            return verdict
        return go
    for i in range(ck.n(80, 600)): tasks.append(eval_task(i))

    # oblivious transfer program
    def ot_task(i):
        m = ["%032x" % r.getrandbits(128) for _ in range(2)]
        if r.random() < .3: m = ["%08X_%08X_%08X_%08X" % tuple(int(x[k:k + 8], 16) for k in (0, 8, 16, 24)) for x in m]
        s = i & 1
        A = ["-a", "--message0", m[0], "--message1=" + m[1]] if i != 2 else ["--alice"]
        if i == 2: m = ["15141312_11100908_07060504_03020100", "00010203_04050607_08091011_12131415"]
        Bo = ["-b", "--select", str(s)] if s or r.random() < .5 else ["--bob"]
        via = elsewhere() if i % 4 == 1 else None
        if not via and r.random() < .5: Bo += ["-s", "127.0.0.1"]

        def go():
            a, b = run_pair(OTM, A, Bo, ck.wd, "o%d" % i, via=via)

            def verdict():
                ck.case((tuple(A), tuple(Bo))); ck.count("transfers")
                if a is None: ck.inconclusive("no port"); return
                if b is None or a.hang or b.hang or a.rc or b.rc:
                    ck.violation("ot-exit", "oblivious transfer failed: %s" % [x and x.doc() for x in (a, b)], dict(a=a.doc(), b=b and b.doc())); return
                lg = b.log().lower()
                want = m[s].replace("_", "").lower()
                h = re.findall(r"%d: ((?:[0-9a-f]{8} ){3}[0-9a-f]{8})" % s, lg)
                if not h or h[-1].replace(" ", "") != want: ck.violation("ot-value", "Bob selected %d and logged %r, expected %s" % (s, h or lg[-300:], want), dict(a=a.doc(), b=b.doc()))
                if m[1 - s].replace("_", "").lower() in re.sub(r"\s", "", lg): ck.violation("ot-both", "Bob's log holds the message he did not select", dict(b=b.doc()))
            return verdict
        return go
    for i in range(ck.n(12, 80)): tasks.append(ot_task(i))

    # ---- invocations that must be refused: failure status, orderly, and no result printed
    c = circ.Circ(g=4, e=4); c.gates = [(i, 4 + i, circ.AND) for i in range(4)]; c.outs = [8, 9, 10, 11]
    ok = os.path.join(ck.wd, "ok.scd"); c.write(ok); c.write_map(ok + ".map")
    bad = ck.file("bad.scd", c.scd().replace("8", "999", 1)); trunc = ck.file("trunc.scd", " ".join(c.scd().split()[:-3]))
    empty = ck.file("empty.scd", ""); ck.file("bad.scd.map", open(ok + ".map").read()); ck.file("trunc.scd.map", "terminate 0\n")
    nomap = os.path.join(ck.wd, "nomap.scd"); c.write(nomap)
    hexbad = ck.file("hexbad.txt", "12\n3G\n"); netbad = ck.file("netbad.v", "module m (o);\n output o;\n AND U1 ( .A(x), .B(y), .Z(o) );\nendmodule\n")
    netok = ck.file("netok.v", "module m (g_input, e_input, o);\n input g_input;\n input e_input;\n output o;\n AND U1 ( .A(g_input), .B(e_input), .Z(o) );\nendmodule\n")
    G = lambda *x: list(x)
    refuse = []
    for who in ("-a", "-b"):
        P = ["-p", "PORT"]
        refuse += [(GC, [who, "-i", ok] + P + x, y) for x, y in [
            (G("--output_mode", "3"), "output mode 3"), (G("--output_mode", "Consecutive"), "unknown output mode"), (G("--output_mode", ""), "empty output mode"), (G("--output_mode", "-1"), "output mode -1"),
            (G("--output_mode", "01"), "output mode 01"), (G("--output_mode", "last"), "partial output mode"),
            (G("-c", "x"), "cycles not a number"), (G("-c", "1.5"), "fractional cycles"), (G("-c"), "missing cycles"), (G("-t", "q"), "period not a number"), (G("-t"), "missing period"), (G("--input"), "missing value"), (G("-c", "99999999999999999999999"), "cycles beyond 64 bits"),
            (G("--output_mask"), "missing mask"), (G("-c", "2", "-c", "3"), "cycles twice"), (G(who), "role twice"), (G("--dump_directory"), "missing directory")]]
        refuse += [(GC, [who, "-i", ok, "-p", x], "port %s" % x) for x in ("x", "70000", "65536", "-1", "99999999999", "")]
    refuse += [(GC, ["-i", ok, "-p", "PORT"], "no role"), (GC, [], "no options"), (GC, ["-b", "-i", ok, "-p", "PORT"], "nobody listens"), (GC, ["-b", "-i", ok, "-p", "PORT", "-s", "256.1.1.1"], "no such server"), (GC, ["-i", ok, "-p", "PORT", "--input", "3", "-c", "1"], "no role"),
               (V2S, ["-i", netok], "no output file"), (V2S, ["-o", "x.scd"], "no input file"), (V2S, [], "nothing"), (V2S, ["-i", netbad, "-o", "y.scd"], "undriven wires"), (V2S, ["-i", "missing.v", "-o", "y.scd"], "missing netlist"), (V2S, ["-b", "missing.txt", "-o", "y.scd"], "missing bristol"),
               (V2S, ["-b", netok, "-o", "y.scd"], "not a bristol circuit"), (V2S, ["-i", netok, "-o", "no/such/dir/y.scd"], "unwritable output"), (V2S, ["-i", netok, "-o"], "missing output name"), (V2S, ["-i"], "missing netlist name"), (V2S, ["-i", netok, "-i", netok, "-o", "y.scd"], "netlist twice"), (V2S, ["-i", empty, "-o", "y.scd"], "empty netlist"),
               (EVA, [], "nothing"), (EVA, ["-c", "3"], "no circuit"), (EVA, ["-i", "missing.scd"], "missing circuit"), (EVA, ["-i", bad], "malformed circuit"), (EVA, ["-i", trunc], "truncated circuit"), (EVA, ["-i", empty], "empty circuit"), (EVA, ["-i", nomap], "no map file"),
               (EVA, ["-i", ok, "-c", "z"], "cycles not a number"), (EVA, ["-i", ok, "-t", "1"], "period without terminate"), (EVA, ["-i", ok, "-t", "x"], "period not a number"), (EVA, ["-i", ok, "--output_mode", "7"], "output mode 7"), (EVA, ["-i", ok, "--output_mode", "Last_clock"], "unknown output mode"), (EVA, ["-i", ok, "--output_mode"], "missing output mode"),
               (EVA, ["-i"], "missing circuit name"),
               (OTM, [], "no role"), (OTM, ["--select", "1"], "no role"), (OTM, ["-b", "-p", "PORT"], "nobody listens"), (OTM, ["-b", "-p", "PORT", "--select", "2"], "selection 2"), (OTM, ["-b", "-p", "PORT", "--select", "yes"], "selection yes"), (OTM, ["-a", "-p", "zz"], "port not a number"), (OTM, ["-a", "--nosuchoption"], "unknown option"), (OTM, ["-a", "-p", "66000"], "port out of range")]
    for q in ("p_init", "g_init", "e_init", "p_input", "g_input", "e_input"):
        for val in ("0x12", "xyz", "12 34", "-5", "1G", "missing_file.txt", hexbad): refuse.append((EVA, ["-i", ok, "--" + q, val], "%s is %s" % (q, os.path.basename(val))))

    def refuse_task(i, exe, args, what):
        def go():
            x = [str(free_port()) if y == "PORT" else y for y in args]
            t = Tool(exe, x, ck.wd, "r%d" % i).wait(60)

            def verdict():
                ck.case((exe, tuple(args))); ck.count("refusals")
                nm = os.path.basename(exe)
                if t.hang: ck.violation("accepts", "%s goes on with %s: %s" % (nm, what, shell(x)), t.doc())
                elif t.rc == 0: ck.violation("accepts", "%s ended with success with %s: %s" % (nm, what, shell(x)), t.doc())
                elif t.crash(): ck.violation("refusal-crash", "%s crashed on %s: %s %s" % (nm, what, shell(x), t.err[-800:]), t.doc())
                elif re.search(r"^[0-9A-Fa-f]+$", t.out.strip().split("\n")[-1]): ck.violation("refusal-result", "%s printed a result with %s: %s -> %r" % (nm, what, shell(x), t.out[-200:]), t.doc())
            return verdict
        return go
    pick = refuse if ck.thorough else r.sample(refuse, len(refuse) * 2 // 3)
    for i, (exe, args, what) in enumerate(pick): tasks.append(refuse_task(i, exe, args, what))

    # failing sessions: the party with the bad argument, and its peer, report failure
    ses = []
    for val in ("0x12", "xyz", "1G", "-5", "missing_file.txt", hexbad, "A\nB"):
        for who, opt in (("a", "input"), ("b", "input"), ("a", "init"), ("b", "init"), ("a", "p_init"), ("b", "p_input"), ("a", "output_mask"), ("b", "output_mask")):
            if opt == "output_mask" and val in ("missing_file.txt", hexbad): continue
            ses.append((who, ["--" + opt, val], None, "%s %s" % (opt, os.path.basename(val))))
    for who in "ab":
        for f, w in (("missing.scd", "missing circuit"), (bad, "malformed circuit"), (trunc, "truncated circuit"), (empty, "empty circuit")): ses.append((who, [], f, w))
        ses.append((who, ["-c", "0"], None, "no cycles")); ses.append((who, ["-t", "1"], None, "period without terminate")); ses.append((who, ["-t", "-1"], None, "negative period"))
    both = [(x, f, w) for x, f, w in ((["-c", "0"], None, "no cycles"), (["-t", "1"], None, "period without terminate"), ([], bad, "malformed circuit"), ([], "missing.scd", "missing circuit"), (["-c", "18446744073709551615"], None, "2^64-1 cycles"))]

    def ses_task(i, who, xtra, f, what):
        good = [["-i", ok, "--disable_OT"], ["-i", ok, "--disable_OT"]]
        for k, w in enumerate("ab"):
            if who in (w, "ab"): good[k] = ["-i", f or ok, "--disable_OT"] + xtra
        A, Bo = ["-a"] + good[0], ["-b"] + good[1]

        def go():
            a, b = run_pair(GC, A, Bo, ck.wd, "x%d" % i, timeout=60)

            def verdict():
                ck.case((tuple(A), tuple(Bo))); ck.count("failing_sessions")
                if a is None: ck.inconclusive("no port"); return
                if b is None: 
                    if a.rc == 0: ck.violation("accepts", "Alice ended with success before serving: %s" % shell(a.args), a.doc())
                    return
                rep = dict(a=a.doc(), b=b.doc())
                if a.hang or b.hang: ck.violation("failing-hang", "%s given by %s: somebody never ended (%s)" % (what, who, [x.hang for x in (a, b)]), rep); return
                for w, x in (("a", a), ("b", b)):
                    if x.crash(): ck.violation("refusal-crash", "%s given by %s: crash of %s: %s" % (what, who, w, x.err[-800:]), rep); return
                    if x.rc == 0 and (w in who or not what.startswith("output_mask")): ck.violation("accepts", "%s given by %s, but %s ended with success: %s -> %r" % (what, who, {"a": "Alice", "b": "Bob"}[w], shell(x.args), x.out[-200:]), rep); return
            return verdict
        return go
    sel = ses if ck.thorough else r.sample(ses, 30)
    for i, (who, xtra, f, what) in enumerate(sel): tasks.append(ses_task(i, who, xtra, f, what))
    for i, (xtra, f, what) in enumerate(both): tasks.append(ses_task(1000 + i, "ab", xtra, f, what))

    def peers_task(i):
        # a peer that connects and goes away, and a port that is already taken
        def go():
            port = free_port(); s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            if i % 2:
                s.bind(("0.0.0.0", port)); s.listen(1)
                t = Tool(GC, ["-a", "-i", ok, "-p", str(port)], ck.wd, "q%d" % i).wait(60); s.close()
                what = "the port is taken"
            else:
                t = Tool(GC, ["-a", "-i", ok, "-p", str(port), "--disable_OT"], ck.wd, "q%d" % i)
                t0 = time.time()
                while t.p.poll() is None and not listening(port) and time.time() - t0 < 30: time.sleep(.02)
                try: s.connect(("127.0.0.1", port))
                except OSError: pass
                s.close(); t.wait(60); what = "the peer left at once"

            def verdict():
                ck.case((what, i)); ck.count("refusals")
                if t.hang or t.rc == 0 or t.crash(): ck.violation("peer", "%s: Alice's status is %s%s" % (what, t.rc, " (never ended)" if t.hang else ""), t.doc())
            return verdict
        return go
    for i in range(4): tasks.append(peers_task(i))

    def help_task(i, exe):
        def go():
            t = Tool(exe, [r.choice(["-h", "--help"])], ck.wd, "h%d" % i).wait(60)

            def verdict():
                ck.case((exe, "help"))
                if t.rc != 0 or "--" not in t.out: ck.violation("help", "%s --help: status %s" % (os.path.basename(exe), t.rc), t.doc())
            return verdict
        return go
    for i, exe in enumerate((GC, V2S, EVA, OTM)): tasks.append(help_task(i, exe))
    with ThreadPoolExecutor(8) as ex:
        for f in ex.map(lambda g: g(), tasks):
            f()
            if sum(w[0].endswith("hang") for w in ck.viol) >= 12:      # each takes its whole time limit: enough of them
                ex.shutdown(wait=True, cancel_futures=True); break
    ck.sample(dict(sessions=ck.cov.get("sessions"), pipelines=ck.cov.get("pipelines"), refusals=ck.cov.get("refusals")))


VKEYS = ("p_init", "g_init", "e_init", "p_input", "g_input", "e_input")


# ------------------------------------------------------------------ C27: memory
VG = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--num-callers=14"]


def C27(ck):
    r = ck.rng
    ck.cov["rule"] = ("valid uses of the library and the tools: sessions of all modes (oblivious transfer by base and extension, low and high memory, termination, constants, large and degenerate circuits), translations, evaluations, transfers and "
                      "processor programs, run under memcheck (uninitialised values in branches, addresses and system calls, heap errors) and under AddressSanitizer and UndefinedBehaviorSanitizer with fresh heap memory filled differently in every "
                      "worker; only memory errors, undefined behaviour and dependence on uninitialised memory count; distinct by program and input")
    names = ("garbled_circuit_main", "v_2_scd_main", "scd_evaluator_main", "OT_main")
    M = B.build("mc", names); S = B.build("san", names)
    tasks = []

    def look(x, lab, rep):
        """memory errors in one process"""
        if x is None: return
        ck.count("processes")
        if x.rc == 99 or re.search(r"^==\d+== (Invalid|Conditional|Use of|Syscall|Mismatched|Source and|Argument)", x.err, re.M):
            m = re.search(r"^==\d+== (.*)(?:\n==\d+==    (?:at|by).*){0,6}", x.err, re.M)
            ck.violation("memcheck", "%s: %s" % (lab, (m.group(0) if m else x.err)[:1800]), rep)
        elif x.crash() and x.rc != -9: ck.violation("sanitizer", "%s: status %s: %s" % (lab, x.rc, x.err[:1800]), rep)

    def sess_task(i, kind, T, pre):
        ot = kind in ("ot", "otext")
        c = circ.rand_circ(r, term=r.random() < .4, const_out=r.random() < .3)
        if kind == "ot":
            while not (0 < c.e + c.ei and c.e + c.ei < 20): c = circ.rand_circ(r, term=r.random() < .4)
        if kind == "otext":
            c = circ.rand_circ(r, sizes=(r.randrange(3), r.randrange(4), r.choice([0, 30]), r.randrange(3), r.randrange(1, 20), r.choice([129, 131, 150, 257])), ng=80)
        cc = r.choice([1, 2, 3, 5]) if kind != "otext" else r.choice([1, 1, 2])
        v = circ.rand_vals(r, c, cc); n = len(c.outs)
        mode, mask, low = r.randrange(3), gcs.vary_mask(r, n), r.random() < .4
        period = r.choice([0, 1, 2]) if c.term > 0 else 0
        p = os.path.join(ck.wd, "m%d.scd" % i); c.write(p)
        o = ["-i", p, "-c", str(cc), "--output_mode", str(mode), "--output_mask", "%X" % mask, "-t", str(period)] + ([] if ot else ["--disable_OT"]) + (["--low_mem_foot"] if low else []) \
            + ["--p_init", circ.hexv(v["p_init"], r), "--p_input", circ.hexv(v["p_input"], r)]
        A = ["-a"] + o + ["--init", circ.hexv(v["g_init"], r), "--input", circ.hexv(v["g_input"], r)]
        Bo = ["-b"] + o + ["--init", circ.hexv(v["e_init"], r), "--input", circ.hexv(v["e_input"], r)]

        def go():
            a, b = run_pair(T["garbled_circuit_main"], A, Bo, ck.wd, "m%d" % i, timeout=240, pre=pre)

            def verdict():
                ck.case((c.scd(), tuple(sorted(v.items())), tuple(A), bool(pre))); ck.count("sessions_%s_%s" % ("memcheck" if pre else "san", kind))
                if a is None: return
                rep = dict(scd=p, a=a.doc(), b=b and b.doc())
                look(a, "garbler, %s" % shell(A), rep); look(b, "evaluator, %s" % shell(Bo), rep)
                if b is None or a.rc or b.rc: ck.count("unsuccessful")
            return verdict
        return go
    k = 0
    for kind, q, t in (("plain", 30, 400), ("ot", 6, 60), ("otext", 6, 60)):
        for _ in range(ck.n(q, t)): tasks.append(sess_task(k, kind, M, VG)); k += 1
    for kind, q, t in (("plain", 60, 500), ("ot", 10, 80), ("otext", 10, 80)):
        for _ in range(ck.n(q, t)): tasks.append(sess_task(k, kind, S, [])); k += 1

    def pipe_task(i, T, pre):
        if i % 4 == 3:
            b = netlist.rand_bristol(r); text = netlist.bristol_text(b, r); a = ["-b"]; cc = 1
            sizes = dict(p_init=0, g_init=0, e_init=0, p_input=0, g_input=b["g"], e_input=b["e"])
        else:
            nt = netlist.rand_net(r, term=r.random() < .3); text = nt.text(r); a = ["-i"]; cc = r.choice([1, 2, 5]); sizes = nt.sizes
        src = ck.file("n%d.v" % i, text.encode()); dst = src + ".scd"
        ev = ["-i", dst, "-c", str(cc), "--output_mode", str(r.randrange(3))]
        for q in VKEYS: ev += ["--" + q, circ.hexv(r.getrandbits(sizes[q] * cc + 1), r)]

        def go():
            t = Tool(T["v_2_scd_main"], a + [src, "-o", dst], ck.wd, "n%d" % i, pre).wait(240)
            e = Tool(T["scd_evaluator_main"], ev, ck.wd, "f%d" % i, pre).wait(240) if t.rc == 0 else None

            def verdict():
                ck.case((text, tuple(ev), bool(pre))); ck.count("translations_%s" % ("memcheck" if pre else "san"))
                look(t, "translator", dict(netlist=src, t=t.doc())); look(e, "plaintext evaluator, %s" % shell(ev), dict(netlist=src, e=e and e.doc()))
                if t.rc or e.rc: ck.count("unsuccessful")
            return verdict
        return go
    for i in range(ck.n(24, 300)): tasks.append(pipe_task(i, M, VG))
    for i in range(ck.n(40, 300)): tasks.append(pipe_task(10000 + i, S, []))

    def ot_task(i):
        A = ["-a", "--message0", "%032x" % r.getrandbits(128), "--message1", "%032x" % r.getrandbits(128)]; Bo = ["-b", "--select", str(i & 1)]

        def go():
            a, b = run_pair(M["OT_main"], A, Bo, ck.wd, "ot%d" % i, timeout=240, pre=VG)

            def verdict():
                ck.case((tuple(A), tuple(Bo))); ck.count("transfers_memcheck")
                if a is not None:
                    for x in (a, b): look(x, "oblivious transfer", dict(a=a.doc(), b=b and b.doc()))
            return verdict
        return go
    for i in range(ck.n(2, 12)): tasks.append(ot_task(i))
    with ThreadPoolExecutor(8) as ex:
        for f in ex.map(lambda g: g(), tasks):
            f()
            if sum(w[0].endswith("hang") for w in ck.viol) >= 12:      # each takes its whole time limit: enough of them
                ex.shutdown(wait=True, cancel_futures=True); break
    # the library under the sanitizers, in the harness: larger circuits and many small sessions
    jobs = []
    for i in range(ck.n(120, 1500)):
        big = i % 20 == 0
        c = gcs.big_layered(r, 3000) if big else circ.rand_circ(r, term=r.random() < .4, const_out=r.random() < .3)
        cc = r.choice([1, 2, 3, 9]); v = circ.rand_vals(r, c, cc); n = len(c.outs)
        p = os.path.join(ck.wd, "h%d.scd" % i); c.write(p)
        jobs.append(sess.job("h%d" % i, p, v, cc, mask=gcs.vary_mask(r, n), mode=r.randrange(3), ot=i % 8 == 1, low=r.random() < .4, period=r.choice([0, 1, 2]) if c.term > 0 else 0, r=r))
        ck.case((c.scd(), tuple(sorted(v.items())), cc))
    res = ck.run(S["tgh"], jobs)
    for j in jobs:
        p = sess.sanity(res[j["id"]])
        if p and p[0] in ("san", "crash"): ck.violation("library-" + p[0], p[1], dict(j))
    ck.sample(dict(processes=ck.cov.get("processes"), under="memcheck and sanitizers"))
