"""The synthesis cell libraries and the translator: C31."""
import os, re, glob
from lib import vsim, circ, netlist, build as B
from lib.vparse import VError
from lib.netlist import Net, rand_net, PORTS
from checks.gcs import tgh
from checks.netl import sanity

W = 64


# ---------------------------------------------------------------- liberty
class Lex:
    def __init__(s, t):
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S); t = re.sub(r"//[^\n]*", " ", t).replace("\\\n", " ")
        s.t = re.findall(r'"[^"]*"|[A-Za-z0-9_.+\-*/\[\]!&|^\']+|[(){}:;,]', t); s.i = 0

    def peek(s): return s.t[s.i] if s.i < len(s.t) else None

    def get(s): s.i += 1; return s.t[s.i - 1]


def group(x):
    """[(name, args, items) | (name, value)] up to the closing brace"""
    L = []
    while x.peek() not in (None, "}"):
        n = x.get()
        if n == ";": continue
        if x.peek() == ":":
            x.get(); v = []
            while x.peek() not in (";", "}", None): v.append(x.get())
            L.append((n, " ".join(v).strip('" ')))
        elif x.peek() == "(":
            x.get(); a = []
            while x.peek() != ")":
                w = x.get()
                if w != ",": a.append(w.strip('" '))
            x.get()
            if x.peek() == "{":
                x.get(); it = group(x); x.get(); L.append((n, a, it))
    return L


def expr(t):
    """boolean function of a liberty file as a Python function of {pin: lanes} and the mask"""
    tok = re.findall(r"[A-Za-z_][A-Za-z_0-9]*|[01]|[()^&*|+!']", t); p = [0]
    pk = lambda: tok[p[0]] if p[0] < len(tok) else None

    def nx(): p[0] += 1; return tok[p[0] - 1]

    def prim():
        w = nx()
        if w == "!":
            a = prim(); return lambda v, m: a(v, m) ^ m
        if w == "(":
            a = lor(); assert nx() == ")"
        elif w in "01": a = lambda v, m: m if w == "1" else 0
        else: a = lambda v, m: v[w]
        while pk() == "'":
            nx(); a = (lambda b: lambda v, m: b(v, m) ^ m)(a)
        return a

    def lxor():
        a = prim()
        while pk() == "^":
            nx(); b = prim(); a = (lambda a, b: lambda v, m: a(v, m) ^ b(v, m))(a, b)
        return a

    def land():
        a = lxor()
        while pk() in ("*", "&") or (pk() and (pk()[0].isalpha() or pk() in "(!01")):
            if pk() in ("*", "&"): nx()
            b = lxor(); a = (lambda a, b: lambda v, m: a(v, m) & b(v, m))(a, b)
        return a

    def lor():
        a = land()
        while pk() in ("+", "|"):
            nx(); b = land(); a = (lambda a, b: lambda v, m: a(v, m) | b(v, m))(a, b)
        return a
    f = lor()
    if p[0] != len(tok): raise ValueError("function %r" % t)
    return f


class Cell:
    def __init__(s, src, name): s.src, s.name, s.ins, s.outs, s.ff, s.state = src, name, [], {}, None, None


def liberty(path):
    cells = []
    top = group(Lex(open(path).read()))
    for g in top:
        if g[0] != "library": continue
        for c in g[2]:
            if c[0] != "cell" or len(c) < 3: continue
            x = Cell(os.path.basename(path), c[1][0])
            for it in c[2]:
                if it[0] == "pin" and len(it) == 3:
                    at = dict(a for a in it[2] if len(a) == 2)
                    for pin in it[1]:
                        if at.get("direction") == "input": x.ins.append(pin)
                        elif at.get("direction") == "output" and "function" in at: x.outs[pin] = at["function"]
                elif it[0] == "ff" and len(it) == 3:
                    x.state = it[1][0]; x.ff = dict(a for a in it[2] if len(a) == 2)
            cells.append(x)
    return cells


# ---------------------------------------------------------------- Verilog models
def model(mods, name):
    ports, items = mods[name][0], mods[name][1]
    D = vsim.Design(mods, name)
    c = Cell("dff_full.v", name)
    return c, D


def cell_text(name, pins):
    """a module with one instance; inputs g_input[0..], outputs o[0..]"""
    ins = [p for p, d in pins if d == "i"]; outs = [p for p, d in pins if d == "o"]
    return ins, outs


def C31(ck):
    r = ck.rng
    ck.cov["rule"] = ("every cell of every synthesis library on every input: the function the library states against the circuit the translator emits for it; random netlists executed as Verilog with the library's "
                      "cell models against the emitted circuit; distinct by library, cell and input, and by netlist text and vector")
    base = os.path.join(B.REPO, "circuit_synthesis", "lib")
    cells = []
    for f in sorted(glob.glob(os.path.join(base, "**", "*.lib"), recursive=True)):
        try: L = liberty(f)
        except (ValueError, AssertionError, IndexError, KeyError) as e: ck.count("libraries_not_read"); print("not decided: %s: %s" % (f, e)); continue
        cells += L; ck.count("libraries")
    mods = {}
    vf = os.path.join(base, "dff_full", "dff_full.v")
    try: mods = vsim.load([vf])
    except (VError, OSError) as e: print("not decided: %s: %s" % (vf, e))
    jobs, ex = [], []

    def job(text, *info):
        i = len(jobs); p = ck.file("c%d.v" % i, text.encode())
        j = dict(id="c%d" % i, kind="v2scd", map=p + ".map", scd=p + ".scd", timeout=120); j["in"] = p
        jobs.append(j); ex.append((text,) + info)

    def single(src, name, ins, outs, clocked, fn):
        """fn(lanes by pin, mask) -> lanes by output pin; a DFF's I is an initial value"""
        data = [p for p in ins if p not in ("CLK", "RST")]
        conn = {}; ni = ng = ne = 0
        for k, p in enumerate(data):
            if clocked and p == "I": conn[p] = "g_init[0]"; ni = 1
            elif k % 2: conn[p] = "e_input[%d]" % ne; ne += 1
            else: conn[p] = "g_input[%d]" % ng; ng += 1
        for k, p in enumerate(outs): conn[p] = "o[%d]" % k
        if "CLK" in ins: conn["CLK"] = "clk"
        if "RST" in ins: conn["RST"] = "rst"
        ps = list(conn); r.shuffle(ps)
        decl = [("g_init", ni), ("g_input", ng), ("e_input", ne)]
        t = "module cell_test ( clk, rst, %so );\n  input clk, rst;\n" % "".join("%s, " % n for n, w in decl if w)
        for n, w in decl:
            if w: t += "  input [%d:0] %s;\n" % (w - 1, n)
        t += "  output [%d:0] o;\n\n  %s U1 ( %s );\nendmodule\n" % (len(outs) - 1, name, ", ".join(".%s(%s)" % (p, conn[p]) for p in ps))
        job(t, "cell", src, name, data, conn, outs, clocked, fn)

    for c in cells:
        if not c.outs: ck.count("cells_without_function"); continue
        try: fs = {p: expr(f) for p, f in c.outs.items()}
        except (ValueError, AssertionError, IndexError) as e: print("not decided: %s of %s: %s" % (c.name, c.src, e)); continue
        if c.ff is not None:
            try: nxt = expr(c.ff["next_state"])
            except (ValueError, KeyError): continue
            fn = (lambda fs, nxt, st: lambda v, q, m: (nxt(v, m), {p: f(dict(v, **{st: q}), m) for p, f in fs.items()}))(fs, nxt, c.state)
            rs = None
            cl, pr = c.ff.get("clear"), c.ff.get("preset")
            if cl and pr and "RST" in pr:       # the state while RST is active
                rs = (lambda a, b: lambda v, m: (b(dict(v, RST=m), m) & ~a(dict(v, RST=m), m)) & m)(expr(cl), expr(pr))
            single(c.src, c.name, c.ins, list(fs), True, (fn, rs))
        else: single(c.src, c.name, c.ins, list(fs), False, (lambda fs: lambda v, m: {p: f(v, m) for p, f in fs.items()})(fs))
    for name in sorted(mods):
        try: D = vsim.Design(mods, name)
        except Exception as e: print("not decided: %s: %s" % (name, e)); continue
        ins = [p for p, x in D.ports.items() if x[0] == "input"]; outs = [p for p, x in D.ports.items() if x[0] == "output"]

        def comb(v, m, D=D, ins=ins, outs=outs):
            o = {p: 0 for p in outs}
            for l in range(m.bit_length()):
                D.set(**{p: v[p] >> l & 1 for p in ins})
                for p in outs: o[p] |= D.get(p) << l
            return o
        single("dff_full.v", name, ins, outs, "CLK" in ins, (D, ins) if "CLK" in ins else comb)
    # whole netlists, executed as Verilog with the models of the library
    if mods:
        for i in range(ck.n(500, 4000)):
            n = rand_net(r, ng=r.choice([2, 8, 20, 60]), term=r.random() < .2)
            names = {x: "n_%d" % k for k, x in enumerate(n.make_names(r))}
            t = n.text(r, style={"wires": True, "spaces": False, "dffpins": False}, names=names)
            if "input clk" not in t: t = re.sub(r"(\n?module [^;]*;)", r"\1 input clk, rst;", t, count=1)
            t = re.sub(r"\bDFF(\s+(?:\\\S+\s+|[A-Za-z_]\w*\s*))\(", r"DFF\1( .CLK(clk), .RST(rst), ", t)
            job(t, "net", n)
    res = ck.run(tgh(), jobs)
    seen = {}
    for j, e in zip(jobs, ex):
        x = res[j["id"]]; text, kind = e[0], e[1]; p = sanity(x)
        lab = "cell %s of %s" % (e[3], e[2]) if kind == "cell" else "netlist"
        if p: ck.violation("translate-" + p[0], "%s: %s | %s" % (lab, p[1], text[:1200]), dict(j)); continue
        if x["S"].get("ret") != "0":
            ck.violation("refused:%s" % (e[2] + ":" + e[3] if kind == "cell" else "net"), "%s: the translator refuses it: %s | %s" % (lab, x["S"].get("err", "")[-300:], text[:1200]), dict(j)); continue
        try: c = circ.read_scd(open(j["scd"]).read())
        except (ValueError, IndexError, TypeError) as q: ck.violation("unreadable", "%s: %s" % (lab, q)); continue
        if kind == "cell":
            _, _, src, name, data, conn, outs, clocked, fn = e
            cc = 3 if clocked else 1; m = (1 << W) - 1
            v = {q: [] for q in PORTS}
            k = len([q for q in data if conn[q] != "g_init[0]"])
            lanes = {}
            for i, q in enumerate([q for q in data if conn[q] != "g_init[0]"]):
                # all combinations in the first lanes, random in the others
                lanes[q] = [sum((l >> i & 1) << l for l in range(1 << min(k, 5))) | (r.getrandbits(W) >> (1 << min(k, 5)) << (1 << min(k, 5)))] + [r.getrandbits(W) for _ in range(cc - 1)]
            I = r.getrandbits(W)
            v["g_init"] = [I] if "g_init[0]" in conn.values() else []
            for cy in range(cc):
                for port in ("g_input", "e_input"):
                    row = sorted((int(conn[q][8:-1]), q) for q in data if conn[q].startswith(port))
                    v[port] += [lanes[q][cy] for _, q in row]
            try: got, _, _ = circ.simulate(c, v, cc, width=W)
            except (IndexError, ValueError, KeyError) as q: ck.violation("malformed", "%s: %r | %s" % (lab, q, text)); continue
            try:
                want = []
                if not clocked:
                    o = fn({q: lanes[q][0] for q in data}, m); want = [[o[q] for q in outs]]
                elif src.endswith(".v"):
                    D, ins = fn; want = [[0] * len(outs) for _ in range(cc)]
                    for l in range(W):
                        D.set(**{q: 0 for q in ins if q not in ("CLK", "RST")})
                        D.set(CLK=0, RST=0)
                        if "I" in ins: D.set(I=I >> l & 1)
                        D.set(RST=1); D.set(CLK=1); D.set(CLK=0); D.set(RST=0)
                        for cy in range(cc):
                            D.set(**{q: lanes[q][cy] >> l & 1 for q in data if q in lanes})
                            for i, q in enumerate(outs): want[cy][i] |= D.get(q) << l
                            D.set(CLK=1); D.set(CLK=0)
                else:
                    f, rs = fn
                    q = rs({"I": I}, m) if rs else I
                    for cy in range(cc):
                        nq, o = f(dict({z: lanes[z][cy] for z in lanes}, I=I), q, m)
                        want.append([o[z] for z in outs]); q = nq
            except (VError, KeyError) as q: print("not decided: %s: %s" % (lab, q)); continue
            seen.setdefault(src, []).append(name)
            ck.case((src, name), W * cc); ck.count("cells")
            for cy in range(cc):
                for i, q in enumerate(outs):
                    if got[cy][i] != want[cy][i]:
                        l = ((got[cy][i] ^ want[cy][i]) & -(got[cy][i] ^ want[cy][i])).bit_length() - 1
                        ck.violation("function:%s:%s" % (src, name), "%s: pin %s is %d in the translated circuit and %d in the library for %s (cycle %d)"
                                     % (lab, q, got[cy][i] >> l & 1, want[cy][i] >> l & 1, {z: lanes[z][cy] >> l & 1 for z in lanes}, cy)); break
            continue
        n = e[2]
        try:
            md = dict(mods); f = ck.file("n.v", text.encode())
            new = vsim.load([f]); md.update(new)
            D = vsim.Design(md, list(new)[-1])
        except Exception as q: ck.count("nets_not_executed"); continue
        cc = 3; nv = 6
        v = {q: [r.getrandbits(nv) for _ in range(n.sizes[q] * (cc if i >= 3 else 1))] for i, q in enumerate(PORTS)}
        try: got, _, tr = circ.simulate(c, v, cc, width=nv, trace=True)
        except (IndexError, ValueError, KeyError) as q: ck.violation("malformed", "%s: %r | %s" % (lab, q, text[:1500])); continue
        bad = None
        for l in range(nv):
            w = lambda q, cy: sum((x >> l & 1) << i for i, x in enumerate(v[q][cy * n.sizes[q]:(cy + 1) * n.sizes[q]]))
            try:
                st = {q: w(q, 0) for q in PORTS[:3] if n.sizes[q]}
                D.set(clk=0, rst=0, **st); D.set(rst=1); D.set(rst=0)
                for cy in range(cc):
                    D.set(**{q: w(q, cy) for q in PORTS[3:] if n.sizes[q]})
                    o = D.get("o")
                    g = sum((x >> l & 1) << i for i, x in enumerate(got[cy]))
                    if o != g: bad = bad or "cycle %d: o is %x in the translated circuit, %x in the netlist" % (cy, g, o)
                    if n.term and D.get("terminate") != tr[cy][c.term] >> l & 1: bad = bad or "cycle %d: terminate differs" % cy
                    D.set(clk=1); D.set(clk=0)
            except (VError, KeyError) as q: ck.count("nets_not_executed"); break
            ck.case((text, l)); ck.count("net_vectors", cc)
        if bad: ck.violation("netlist", "netlist executed as Verilog: %s | %s" % (bad, text[:1800]), dict(j))
    ck.cov["cells_by_library"] = seen
    ck.sample(seen)
