"""Helpers of the demonstrations in /verif/seeded (each folder holds its own copy).
Run with cwd = the repository, after the build.  Nothing outside a scratch directory is written."""
import os, sys, socket, subprocess, tempfile, time, random, atexit, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import circ

REPO = os.getcwd()
BIN = os.path.join(REPO, "_build")
TG = os.path.join(BIN, "garbled_circuit", "TinyGarble")
OTM = os.path.join(BIN, "crypto", "OT_Main")
V2S = os.path.join(BIN, "scd", "V2SCD_Main")
EV = os.path.join(BIN, "scd", "SCD_Evaluator_Main")
HERE = os.path.dirname(os.path.abspath(__file__))
WD = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, WD, True)


def port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close()
    return p


def listening(p):
    for f in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            for l in open(f).read().splitlines()[1:]:
                w = l.split()
                if w[3] == "0A" and int(w[1].rsplit(":", 1)[1], 16) == p: return True
        except OSError: pass
    return False


def pair(exe, a, b, timeout=60):
    """server `a`, client `b`: ((rc, stdout, stderr), (rc, stdout, stderr)); rc None: killed at the time limit"""
    for att in range(5):
        p = port()
        A = subprocess.Popen([exe, "-a", "-p", str(p)] + a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=WD)
        t = time.time()
        while not listening(p) and A.poll() is None and time.time() - t < 10: time.sleep(0.005)
        B = subprocess.Popen([exe, "-b", "-p", str(p), "-s", "127.0.0.1"] + b, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=WD)
        res = []
        for x in (B, A):
            try: o, e = x.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                x.kill(); o, e = x.communicate(); res.append((None, o, e)); continue
            res.append((x.returncode, o, e))
        if "bind" in res[1][2].lower() and res[1][0] not in (0, None): continue
        return res[1], res[0]
    raise SystemExit("no port")


def recorded(exe, a, b, timeout=60):
    """like pair, with everything on the wire recorded: (A, B, bytes to the client, bytes to the server)"""
    import threading
    for att in range(5):
        p = port()
        A = subprocess.Popen([exe, "-a", "-p", str(p)] + a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=WD)
        t = time.time()
        while not listening(p) and A.poll() is None and time.time() - t < 10: time.sleep(0.005)
        if A.poll() is not None: A.communicate(); continue
        ls = socket.socket(); ls.bind(("127.0.0.1", 0)); ls.listen(1)
        B = subprocess.Popen([exe, "-b", "-p", str(ls.getsockname()[1]), "-s", "127.0.0.1"] + b, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=WD)
        cs, _ = ls.accept(); ss = socket.create_connection(("127.0.0.1", p)); ls.close()
        log = [bytearray(), bytearray()]
        def pump(x, y, k):
            try:
                while True:
                    d = x.recv(1 << 16)
                    if not d: break
                    log[k] += d; y.sendall(d)
            except OSError: pass
            try: y.shutdown(socket.SHUT_WR)
            except OSError: pass
        th = [threading.Thread(target=pump, args=z, daemon=True) for z in ((ss, cs, 0), (cs, ss, 1))]
        for x in th: x.start()
        res = []
        for x in (B, A):
            try: o, e = x.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                x.kill(); o, e = x.communicate(); res.append((None, o, e)); continue
            res.append((x.returncode, o, e))
        for x in th: x.join(5)
        cs.close(); ss.close()
        return res[1], res[0], bytes(log[0]), bytes(log[1])
    raise SystemExit("no port")


class Bytes:
    """reads the numbers of a recorded direction one after another"""
    def __init__(self, b, pos=0): self.b, self.p = b, pos
    def take(self, n):
        r = self.b[self.p:self.p + n]; self.p += n
        if len(r) < n: raise EOFError
        return r
    def u32(self): return int.from_bytes(self.take(4), "little")
    def bn(self): return int.from_bytes(self.take(self.u32()), "big")


def fname(n): return os.path.join(WD, n)


def session(c, v, cc=1, mask=0, mode=0, T=0, ot=False, low=False, timeout=60, extra_a=(), extra_b=()):
    """runs TinyGarble on circuit c; returns per party (rc, list of printed lines, stderr)"""
    s = fname("c%d.scd" % random.getrandbits(40)); c.write(s)
    com = ["-i", s, "-c", str(cc), "--output_mask", "%X" % mask, "--output_mode", str(mode), "-t", str(T),
           "--p_init", "%X" % v.get("p_init", 0), "--p_input", "%X" % v.get("p_input", 0)]
    if not ot: com.append("--disable_OT")
    if low: com.append("--low_mem_foot")
    a = com + ["--init", "%X" % v.get("g_init", 0), "--input", "%X" % v.get("g_input", 0)] + list(extra_a)
    b = com + ["--init", "%X" % v.get("e_init", 0), "--input", "%X" % v.get("e_input", 0)] + list(extra_b)
    A, B = pair(TG, a, b, timeout)
    os.unlink(s)
    return A, B


def expected(c, v, cc=1, mask=0, mode=0, T=0):
    outs, done, _ = circ.simulate(c, v, cc, T)
    n = len(c.outs)
    m = mask & ((1 << n) - 1)
    r = []
    for k in (m, ~m & ((1 << n) - 1)):
        x = [circ.pack(o) & k for o in outs]
        r.append(sum(y << (i * n) for i, y in enumerate(x)) if mode == 0 else x if mode == 1 else x[-1])
    return r


def value(text, mode=0):
    L = [l.strip() for l in text.split("\n") if l.strip()]
    try:
        if mode == 1: return [int(x, 16) for x in L]
        return int(L[-1], 16)
    except (ValueError, IndexError): return "unreadable: %r" % text[:200]


def check(c, v, cc=1, mask=0, mode=0, T=0, what="session", **kw):
    """exits with 1 if the session does not succeed with the circuit's values"""
    A, B = session(c, v, cc, mask, mode, T, **kw)
    want = expected(c, v, cc, mask, mode, T)
    for n, x, w in (("garbler", A, want[0]), ("evaluator", B, want[1])):
        if x[0] != 0: fail("%s: %s ended with %s: %s" % (what, n, x[0], x[2][-300:]))
        g = value(x[1], mode)
        if g != w: fail("%s: %s printed %s, expected %s" % (what, n, g if not isinstance(g, int) else "%X" % g, w if not isinstance(w, int) else "%X" % w))


def fail(t):
    print("DEMO FAILS:", t)
    sys.stdout.flush()
    shutil.rmtree(WD, True)
    os._exit(1)


def run(cmd, timeout=120, **kw):
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, cwd=WD, **kw)
    except subprocess.TimeoutExpired: fail("%s: no end within %d s" % (cmd[0], timeout))
    return r.returncode, r.stdout, r.stderr


def translate(text, brist=False):
    """netlist text -> (rc, Circ or None, map text, stderr)"""
    i, o = fname("n%d.v" % random.getrandbits(40)), fname("o%d.scd" % random.getrandbits(40))
    open(i, "w").write(text)
    rc, so, se = run([V2S, "-b" if brist else "-i", i, "-o", o])
    c = m = None
    if rc == 0:
        c = circ.read_scd(open(o).read())
        m = open(o + ".map").read() if os.path.exists(o + ".map") else None
    return rc, c, m, se


def evaluate(c, v, cc=1, T=0, mode=0):
    s = fname("e%d.scd" % random.getrandbits(40)); c.write(s); c.write_map(s + ".map")
    a = [EV, "-i", s, "-c", str(cc), "-t", str(T), "--output_mode", str(mode)]
    for k in ("p_init", "g_init", "e_init", "p_input", "g_input", "e_input"): a += ["--" + k, "%X" % v.get(k, 0)]
    rc, so, se = run(a)
    return rc, so, se, s + ".csv"


def compile_cpp(src, name="demo", dirs=("crypto", "util", "tcpip"), flags=()):
    """a program from src and the repository's sources of these folders"""
    files = []
    for d in dirs:
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if not f.endswith(".cpp"): continue
            t = open(os.path.join(REPO, d, f), errors="replace").read()
            if f.endswith(("_test.cpp", "_testing.cpp", "_testsuit.cpp")) or "int main(" in t: continue
            files.append(os.path.join(REPO, d, f))
    exe = fname(name)
    procs, objs = [], []
    for k, f in enumerate([src] + files):
        o = fname("%s%d.o" % (name, k)); objs.append(o)
        procs.append(subprocess.Popen(["g++", "-std=c++11", "-w", "-O1", "-march=x86-64-v2", "-maes", "-mpclmul", "-I" + REPO, "-I" + BIN,
                                       "-c", f, "-o", o] + list(flags), stderr=subprocess.PIPE, text=True))
    for p in procs:
        e = p.communicate()[1]
        if p.returncode: sys.stderr.write(e); raise SystemExit("demo does not compile")
    r = subprocess.run(["g++", "-o", exe] + objs + list(flags) + ["-lboost_program_options", "-lssl", "-lcrypto", "-lrt", "-lpthread"], stderr=subprocess.PIPE, text=True)
    if r.returncode: sys.stderr.write(r.stderr); raise SystemExit("demo does not link")
    return exe
