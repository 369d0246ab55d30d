"""Translator properties: C17-C20."""
import os, random, re
from lib import build, circ, netlist
from lib.netlist import Net, rand_net, PORTS, OUT, PINS, CONST, GATES
from checks.gcs import tgh

W = 64


def lanes(r, n): return [r.getrandbits(W) for _ in range(n)]


def net_vals(r, n, cc): return {q: lanes(r, n.sizes[q] * (cc if i >= 3 else 1)) for i, q in enumerate(PORTS)}


def sanity(x):
    s = x["S"]
    if s.get("san"): return ("san", s.get("err", "")[:1800])
    if x.get("timeout"): return ("hang", "no end within the time limit")
    if s.get("status", "").startswith("signal"): return ("crash", "died of %s: %s" % (s["status"], s.get("err", "")[-600:]))
    if s.get("status") != "exit:0": return ("exit", "%s %s" % (s.get("status"), s.get("err", "")[-600:]))
    return None


def read_map(path):
    d, order = {}, []
    for l in open(path):
        w = l.split()
        if len(w) != 2: raise ValueError("line %r" % l)
        order.append((w[0], int(w[1]))); d[w[0]] = int(w[1])
    return d, order


def header_of(n): return [n.sizes[q] for q in PORTS] + [sum(t == "DFF" for t, p in n.cells), n.nout]


def well_formed(c, nmin=None):
    """None or what is wrong with an emitted description"""
    for i, (a, b, t) in enumerate(c.gates):
        o = c.g_lo + i
        if t not in circ.TYPES: return "gate %d has type %d" % (i, t)
        for x in (a,) if t == circ.NOT else (a, b):
            if x not in (circ.C0, circ.C1) and not (c.in_lo <= x < o): return "gate %d reads wire %d: not a constant, an input or an earlier gate" % (i, x)
        if t == circ.NOT and b != -1: return "gate %d has a second operand %d" % (i, b)
    for x in c.outs + c.D:
        if x not in (circ.C0, circ.C1) and not (c.in_lo <= x < c.wires): return "output or D index %d is out of range" % x
    for x in c.I:
        if x not in (circ.C0, circ.C1) and not (0 <= x < c.init_n): return "I index %d is out of range" % x
    if c.term and not (c.in_lo <= c.term < c.wires): return "terminate index %d is out of range" % c.term
    return None


def families(ck, r):
    """(net, cycles, tag)"""
    L = []
    for i in range(ck.n(700, 7000)):
        L.append((rand_net(r, term=r.random() < .25), r.choice([1, 2, 3, 5]), "random"))
    for t in list(GATES) + ["IV", "MUX", "HADDER", "FADDER"]:   # one cell type alone, every connection of its outputs
        for q in range(ck.n(3, 10)): L.append((rand_net(r, kinds=[t], ng=r.choice([1, 4, 12])), 2, "only " + t))
    for sz in ([0, 0, 0, 0, 1, 1], [1, 1, 1, 1, 1, 1], [0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 0, 2], [3, 0, 0, 0, 2, 0], [0, 0, 4, 0, 0, 1]):
        for q in range(ck.n(4, 20)): L.append((rand_net(r, sizes=sz, nout=r.choice([1, 2])), 3, "ports %s" % sz))
    for q in range(ck.n(25, 200)): L.append((rand_net(r, assigns=3, ng=r.choice([2, 8, 20]), drive_out=.1), 2, "assignments"))
    for q in range(ck.n(10, 60)): L.append((rand_net(r, ng=r.choice([150, 400])), 2, "larger"))
    for q in range(ck.n(10, 60)): L.append((rand_net(r, sizes=[0, 40, 30, 0, 60, 50], nout=70, ng=200), 2, "wide"))
    for q in range(ck.n(12, 60)): L.append((rand_net(r, sizes=[s, s, s, s, s, s] if q % 2 else [0, s, s, 0, s, s], ng=20), 2, "ports of one size") if (s := r.choice([1, 2, 8])) else None)
    return L


def huge(ck, r):
    """many cells of every kind; ports whose numbers do not fit 15 or 16 bits"""
    L = []
    for q in range(ck.n(2, 6)): L.append((rand_net(r, sizes=[2, 9, 9, 3, 20, 20], nout=40, ng=(7000, 11000, 16000)[q % 3], term=q == 1), 2, "huge"))
    n = rand_net(r, sizes=[0, 34000, 36000, 5, 4, 4], ng=30, seq=True, nout=9)
    for port, ix in (("g_init", 33000), ("e_init", 35999), ("e_init", 31), ("g_init", 40), ("e_init", 900)):
        n.cells.append(("DFF", {"D": "g_input[%d]" % (ix % 4), "I": "%s[%d]" % (port, ix), "Q": "far%d" % ix}))
        n.cells.append(("XOR", {"A": "far%d" % ix, "B": "o[%d]" % (ix % 9), "Z": "probe%d" % ix}))
    n.nout = 14
    for k, ix in enumerate((33000, 35999, 31, 40, 900)): n.assigns.append(("o[%d]" % (9 + k), "probe%d" % ix))
    L.append((n, 2, "wide init"))
    n = rand_net(r, sizes=[0, 0, 0, 9, 33000, 34000], ng=60, seq=False, nout=9, assigns=0)
    for k in range(30): n.cells.append(("XOR", {"A": "g_input[%d]" % r.randrange(33000), "B": "e_input[%d]" % r.randrange(34000), "Z": "far%d" % k}))
    n.nout = 39
    for k in range(30): n.assigns.append(("o[%d]" % (9 + k), "far%d" % k))
    L.append((n, 2, "wide input"))
    return L


def chain(r, n, kind="AND"):
    """a deep chain; instances listed from last to first"""
    x = Net([0, 0, 0, 0, 2, 1], 1)
    cur = "g_input[0]"
    cells = []
    for i in range(n):
        z = "s%d" % i if i < n - 1 else "o[0]"
        if kind == "MUX": cells.append(("MUX", {"IN0": cur, "IN1": "g_input[1]", "SEL": "e_input[0]", "F": z}))
        elif kind == "IV": cells.append(("IV", {"A": cur, "Z": z}))
        else: cells.append((r.choice(["XOR", "NAND", "ORN", "XNOR", "NOR"]), {"A": cur, "B": r.choice(["g_input[1]", "e_input[0]"]), "Z": z}))
        cur = z
    x.cells = cells[::-1]
    return x


# -------------------------------------------------------------- C17
def C17(ck):
    r = ck.rng
    ck.cov["rule"] = ("random netlists of every cell type (constants, aliases, repeated operands, unconnected adder outputs, DFFs with every kind of initial value, terminate), in random instance order, naming and "
                      "formatting, and deep chains listed backwards; the emitted circuit is simulated on 64 random input vectors over several cycles and compared with the netlist; distinct by netlist text")
    jobs, ex = [], {}
    fam = families(ck, r) + huge(ck, r)
    for d in ([3000, 20000] if not ck.thorough else [3000, 20000, 60000]):
        for k in ("mix", "MUX", "IV"): fam.append((chain(r, d if k != "MUX" else d // 2, k), 1, "chain of %d" % d))
    for i, (n, cc, tag) in enumerate(fam):
        big = len(n.cells) > 2000
        txt = n.text(r, style=dict(shuffle=r.random() < .5) if big else None)
        p = ck.file("n%d.v" % i, txt.encode())
        j = dict(id="n%d" % i, kind="v2scd", map=p + ".map", scd=p + ".scd", timeout=120, _cost=1 if not big else 40); j["in"] = p
        jobs.append(j); ex[j["id"]] = (n, cc, tag, txt)
    res = ck.run(tgh(), jobs)
    kinds = {}
    for j in jobs:
        n, cc, tag, txt = ex[j["id"]]; x = res[j["id"]]
        ck.case(txt)
        for t, p in n.cells: kinds[t] = kinds.get(t, 0) + 1
        p = sanity(x)
        lab = "%s: " % tag
        if p: ck.violation("translate-" + p[0], lab + p[1], dict(j)); continue
        if x["S"].get("ret") != "0": ck.violation("refused", lab + "a well-formed netlist is refused: %s | %s" % (x["S"].get("err", "")[-400:], txt[:1500]), dict(j)); continue
        try: c = circ.read_scd(open(j["scd"]).read())
        except (ValueError, IndexError, TypeError) as e: ck.violation("unreadable", lab + "%s | %s" % (e, txt[:1500]), dict(j)); continue
        if c.header()[:8] != header_of(n): ck.violation("sizes", lab + "sizes are %s, the netlist has %s | %s" % (c.header()[:8], header_of(n), txt[:1500]), dict(j)); continue
        if bool(c.term) != bool(n.term): ck.violation("terminate", lab + "terminate index %d, the netlist %s a terminate output | %s" % (c.term, "has" if n.term else "has not", txt[:1500]), dict(j)); continue
        v = net_vals(r, n, cc)
        try:
            want, sig = n.simulate(v, cc, W)
            got, _, tr = circ.simulate(c, v, cc, width=W, trace=True)
        except (IndexError, ValueError, KeyError) as e: ck.violation("malformed", lab + "the emitted description cannot be simulated: %r | %s" % (e, txt[:1500]), dict(j)); continue
        ck.count("vectors", W * cc); ck.count("cells", len(n.cells))
        bad = [(k, i) for k in range(cc) for i in range(n.nout) if want[k][i] != got[k][i]]
        if bad: ck.violation("function", lab + "outputs %s (cycle, bit) differ from the netlist | %s" % (bad[:6], txt[:2500]), dict(j)); continue
        if n.term and any(tr[k][c.term] != sig[k]["terminate"] for k in range(cc)): ck.violation("terminate-function", lab + "the terminate wire differs | %s" % txt[:2500], dict(j))
    ck.cov["cells_by_type"] = kinds
    ck.sample(ex["n0"][3]); ck.sample(ex["n1"][3])


# -------------------------------------------------------------- C18
def C18(ck):
    r = ck.rng
    ck.cov["rule"] = ("random netlists of every cell type, deep and wide ones, and Bristol circuits: emitted file checked for sizes, order, index ranges, one gate per function; each map entry checked by simulating the "
                      "circuit and comparing the wire at the listed index with the netlist's wire of that name; translated again in the same process, in another process and in another memory environment; distinct by netlist text")
    jobs, ex = [], {}
    fam = families(ck, r)[ck.n(300, 0):] + [(chain(r, 2500, "mix"), 1, "chain")] + huge(ck, r)[:: 1 if ck.thorough else 2]
    for i, (n, cc, tag) in enumerate(fam):
        names = n.make_names(r)
        txt = n.text(r, names=names)
        p = ck.file("n%d.v" % i, txt.encode())
        for w in ("a", "b"):
            j = dict(id="n%d%s" % (i, w), kind="v2scd", map="%s.%s.map" % (p, w), scd="%s.%s.scd" % (p, w), timeout=120); j["in"] = p
            if w == "a": j.update(map2=p + ".a2.map", scd2=p + ".a2.scd")
            jobs.append(j)
        ex[i] = (n, cc, tag, txt, names, p)
    bj = []
    for i in range(ck.n(60, 400)):
        b = netlist.rand_bristol(r); t = netlist.bristol_text(b, r); p = ck.file("b%d.txt" % i, t.encode())
        for w in ("a", "b"):
            j = dict(id="b%d%s" % (i, w), kind="bris", map="%s.%s.map" % (p, w), scd="%s.%s.scd" % (p, w)); j["in"] = p
            if w == "a": j.update(map2=p + ".a2.map", scd2=p + ".a2.scd")
            bj.append(j)
        ex["b%d" % i] = (b, t, p)
    # the second translation of each netlist runs elsewhere, in another order
    res = ck.run(tgh(), jobs[0::2] + bj[0::2])
    second = jobs[1::2] + bj[1::2]; r.shuffle(second)
    res.update(ck.run(tgh(), second))

    def same(p, lab, j, txt):
        for ext in ("scd", "map"):
            a = open("%s.a.%s" % (p, ext), "rb").read()
            for w, what in (("a2", "in the same process"), ("b", "in another process")):
                if open("%s.%s.%s" % (p, w, ext), "rb").read() != a:
                    ck.violation("reproducible", "%s: translating again %s gives another .%s | %s" % (lab, what, ext, txt[:1500]), dict(j)); return False
        ck.count("repeated_translations", 2)
        return True

    for i, (n, cc, tag) in enumerate(fam):
        n, cc, tag, txt, names, p = ex[i]
        ck.case(txt)
        x, y, j = res["n%da" % i], res["n%db" % i], jobs[2 * i]
        q = sanity(x) or sanity(y)
        if q: ck.violation("translate-" + q[0], "%s: %s" % (tag, q[1]), dict(j)); continue
        if (x["S"].get("ret"), x["S"].get("ret2"), y["S"].get("ret")) != ("0", "0", "0"): ck.violation("refused", "%s: a well-formed netlist is refused (%s) | %s" % (tag, x["S"], txt[:1000]), dict(j)); continue
        if not same(p, tag, j, txt): continue
        try:
            raw = open(p + ".a.scd").read(); c = circ.read_scd(raw)
        except (ValueError, IndexError, TypeError) as e: ck.violation("unreadable", "%s: %s | %s" % (tag, e, txt[:1500]), dict(j)); continue
        if c.header()[:8] != header_of(n): ck.violation("sizes", "%s: sizes %s, the netlist has %s | %s" % (tag, c.header()[:8], header_of(n), txt[:1500]), dict(j)); continue
        if len(c.gates) != n.expected_gates(): ck.violation("gates", "%s: %d gates, the cells have %d functions | %s" % (tag, len(c.gates), n.expected_gates(), txt[:1500]), dict(j)); continue
        w = well_formed(c)
        if w: ck.violation("well-formed", "%s: %s | %s" % (tag, w, txt[:1500]), dict(j)); continue
        # types: the multiset of gate functions
        want = {}
        for t, pp in n.cells:
            for k in cell_types(t, pp): want[k] = want.get(k, 0) + 1
        got = {}
        for a, b, t in c.gates: got[t] = got.get(t, 0) + 1
        if want != got: ck.violation("types", "%s: gate types %s, expected %s" % (tag, got, want), dict(j)); continue
        # the map, checked by value
        try: m, order = read_map(p + ".a.map")
        except ValueError as e: ck.violation("map-format", "%s: %s" % (tag, e), dict(j)); continue
        idx = [v for k, v in order if k != "terminate"]
        t_entry = [v for k, v in order[-1:] if k == "terminate"]
        if not t_entry or t_entry[0] != c.term: ck.violation("map-terminate", "%s: the map ends with %s, the terminate index is %d | %s" % (tag, order[-1:], c.term, txt[:800]), dict(j)); continue
        body = order[:-1]
        if sorted(v for k, v in body) != list(range(c.q_lo, c.wires)): ck.violation("map-complete", "%s: the map does not list every DFF and gate index exactly once: %s" % (tag, body[:20]), dict(j)); continue
        v = net_vals(r, n, cc)
        _, sig = n.simulate(v, cc, W)
        _, _, tr = circ.simulate(c, v, cc, width=W, trace=True)
        listed = dict(body)
        sc_o = n.nout == 1
        for t, pp in n.cells:
            for pin, s in pp.items():
                if pin not in OUT: continue
                nm = names.get(s, s)
                cand = [nm] + (["o"] if s == "o[0]" and sc_o else [])
                k = next((z for z in cand if z in listed), None)
                if k is None: ck.violation("map-missing", "%s: wire %s of a %s is not in the map | %s" % (tag, nm, t, txt[:1500]), dict(j)); break
                ix = listed[k]
                if any(tr[q][ix] != sig[q][s] for q in range(cc)): ck.violation("map-index", "%s: the map says %s is wire %d, which carries other values | %s" % (tag, nm, ix, txt[:2500]), dict(j)); break
                if (ix < c.g_lo) != (t == "DFF"): ck.violation("map-kind", "%s: %s of a %s is mapped to %d" % (tag, nm, t, ix), dict(j)); break
                ck.count("map_entries_checked")
    for i in range(len(bj) // 2):
        b, t, p = ex["b%d" % i]; ck.case(t)
        x, y, j = res["b%da" % i], res["b%db" % i], bj[2 * i]
        q = sanity(x) or sanity(y)
        if q: ck.violation("bristol-" + q[0], q[1], dict(j)); continue
        if (x["S"].get("ret"), x["S"].get("ret2"), y["S"].get("ret")) != ("0", "0", "0"): ck.violation("bristol-refused", t[:800], dict(j)); continue
        if not same(p, "bristol", j, t): continue
        c = circ.read_scd(open(p + ".a.scd").read())
        w = well_formed(c)
        if w or len(c.gates) != len(b["gates"]): ck.violation("bristol-well-formed", "%s, %d gates for %d | %s" % (w, len(c.gates), len(b["gates"]), t[:800]), dict(j)); continue
    ck.sample(ex[0][3])


def cell_types(t, p):
    if t == "DFF": return []
    if t == "IV": return [circ.NOT]
    if t == "MUX": return [circ.XOR, circ.AND, circ.XOR]
    if t == "HADDER": return ([circ.XOR] if "SUM" in p else []) + ([circ.AND] if "COUT" in p else [])
    if t == "FADDER": return [circ.XOR] + ([circ.XOR] if "SUM" in p else []) + ([circ.XOR, circ.AND, circ.XOR] if "COUT" in p else [])
    return [GATES[t]]


# -------------------------------------------------------------- C19
PLAIN = dict(comments=False, crlf=False, tabs=False, multiline=False, shuffle=False, spaces=False, wires=False, dffpins=True, eq=False, attrs=False, lists=False, empty_pins=False, oneline=False, bracket_space=False, mixed=False)


def malformed(r):
    """(text, what) of a netlist that must be refused"""
    term = r.random() < .3
    for _ in range(50):
        n = rand_net(r, ng=r.choice([3, 6, 15]), term=term)
        if any(t not in ("DFF",) for t, p in n.cells): break
    k = r.choice(["loop1", "loop", "undriven", "undriven-d", "undriven-o", "nopin", "nopin", "port", "oport", "range", "noout", "noout", "truncated", "truncated", "unknown-pin", "noterm", "half-assign", "expr", "loop-assign", "unknown-cell", "range-init", "wide-terminate"])
    comb = [i for i, (t, p) in enumerate(n.cells) if t != "DFF"]
    i = r.choice(comb); t, p = n.cells[i]; p = dict(p)
    ip = [q for q in p if q not in OUT]; op = [q for q in p if q in OUT]
    txt = None
    if k == "loop1": p[r.choice(ip)] = p[r.choice(op)]
    elif k == "loop":   # a ring of several cells nobody may order
        L = r.choice([2, 3, 10, 400]); base = "L%d_"
        for q in range(L): n.cells.append((r.choice(["AND", "XOR", "OR"]), {"A": base % ((q + 1) % L), "B": r.choice(["1'b1", base % ((q + 1) % L)]), "Z": base % q}))
        p[r.choice(ip)] = base % r.randrange(L) if r.random() < .7 else p[ip[0]]
    elif k == "loop-assign":
        n.assigns.append(("la", p[op[0]])); p[r.choice(ip)] = "la"
    elif k == "undriven": p[r.choice(ip)] = r.choice(["nobody", "n_undriven[3]", "1'bx", "1'bz", "0", "clk_none"])
    elif k == "undriven-d":
        n.cells.append(("DFF", {"D": r.choice(["nobody", "zz[1]"]), "I": "1'b0", "Q": "qq"})) if r.random() < .6 else n.cells.append(("DFF", {"D": "1'b1", "I": "nobody", "Q": "qq"}))
    elif k in ("undriven-o", "noout"):
        # remove what drives one output
        o = "o[%d]" % r.randrange(n.nout)
        n.assigns = [(a, b) for a, b in n.assigns if a != o]
        for q, (tt, pp) in enumerate(n.cells):
            pp = dict(pp)
            for pin in pp:
                if pp[pin] == o: pp[pin] = "gone_%d" % q if pin in OUT else "1'b1"
            n.cells[q] = (tt, pp)
        n.assigns = [(a, "1'b1" if b == o else b) for a, b in n.assigns]
        if k == "undriven-o": n.assigns.append((o, "nobody"))
        t, p = n.cells[i]
    elif k == "nopin":
        cand = [(q, pin) for q, (tt, pp) in enumerate(n.cells) for pin in pp if not (tt in ("HADDER", "FADDER") and pin in OUT)]
        i, pin = r.choice(cand); t, p = n.cells[i]; p = dict(p)
        if r.random() < .5: p.pop(pin)
        else: p[pin] = ""
        k += " %s of %s" % (pin, t)
    elif k == "range":
        ps = [q for q in PORTS[3:] if n.sizes[q] > 1] or [None]
        q = r.choice(ps)
        p[r.choice(ip)] = "%s[%d]" % (q, n.sizes[q] + r.choice([0, 1, 50])) if q else "g_input[%d]" % (n.sizes["g_input"] + 3)
    elif k == "range-init": n.cells.append(("DFF", {"D": "1'b1", "I": "g_init[%d]" % (n.sizes["g_init"] + r.choice([1, 7])), "Q": "qq"}))
    elif k == "unknown-cell":
        # a cell the library does not have drives a wire that is used
        n.cells[i] = (t, p); x = p[op[0]]
        users = [q for q, (tt, pp) in enumerate(n.cells) if q != i and any(pp[z] == x for z in pp if z not in OUT)]
        if not users and not x.startswith("o[") and x != "terminate" and not any(b == x and a.startswith("o[") for a, b in n.assigns): n.assigns.append(("o[0]", x)) if not any(a == "o[0]" for a, b in n.assigns) and not any("o[0]" in pp.values() for tt, pp in n.cells) else n.cells.append(("DFF", {"D": x, "I": "1'b0", "Q": "qq"}))
        n.cells[i] = (r.choice(["AOI21", "and", "NAND3", "DFFR", "BUF", "INV"]), p)
        if any(q not in ("A", "B", "Z", "D", "I", "Q", "IN0", "IN1", "SEL", "F", "CIN", "SUM", "COUT") for q in p): pass
        t, p = n.cells[i]
    n.cells[i] = (t, p)
    names = n.make_names(r)
    txt = n.text(r, style=dict(comments=False), names=names) if r.random() < .5 else n.text(r, style=PLAIN, names=names)
    if k == "truncated":
        e = txt.find("endmodule"); txt = txt[:r.choice([r.randrange(e + 9), e, e - 1, e + 5, txt.rfind(";", 0, e)])]
    elif k == "port":
        txt = re.sub(r"(\n\s*|\bmodule[^;]*;\s*)input", lambda m: m.group(0)[:-5] + "input [3:0] %s;\n  input" % r.choice(["foo", "g_inputs", "x_init", "G_INPUT"]), txt, count=1)
        if not re.search(r"input\s+\[3:0\] (foo|g_inputs|x_init|G_INPUT)", txt): return None
    elif k == "oport": txt = txt.replace("endmodule", "output %s; endmodule" % r.choice(["done", "out", "terminated", "O"]), 1)
    elif k == "wide-terminate": txt = txt.replace("endmodule", "output [%d:0] terminate; endmodule" % r.choice([1, 7]), 1)
    elif k == "unknown-pin":
        m = list(re.finditer(r"\.(A|B|D|IN0|IN1|SEL|Z|F)\b", txt))
        if not m: return None
        m = r.choice(m); txt = txt[:m.start()] + r.choice([".X", ".AA", ".a", ".IN", ".IN2", ".S"]) + txt[m.end():]
    elif k == "noterm":
        if n.term: return None
        txt = txt.replace("endmodule", "output terminate; endmodule", 1)
    elif k == "half-assign": txt = txt.replace("endmodule", r.choice(["assign x ;", "assign ;", "assign x = ;", "assign x = o ", "assign = y;"]) + " endmodule", 1); 
    elif k == "expr": txt = txt.replace("endmodule", "assign x = g_input & e_input; endmodule" if r.random() < .5 else "assign x = 1'b0 ? 1'b1 : 1'b0; endmodule", 1)
    if k == "half-assign" and "assign x = o " in txt: return None
    return txt, k, n


def bris_malformed(r):
    b = netlist.rand_bristol(r)
    k = r.choice(["trunc", "wire", "type", "arity", "count", "header", "undriven", "loop", "neg", "big", "empty", "sizes"])
    g = [list(x) for x in b["gates"]]; i = r.randrange(len(g))
    b = dict(b, gates=g)
    if k == "wire": g[i][r.choice([1, 3])] = b["W"] + r.choice([0, 1, 1000, 1 << 40])
    elif k == "type": g[i][0] = r.choice(["NAND", "xor", "EQ", "MAND", "NOT"])
    elif k == "loop": g[i][1] = g[i][3]
    elif k == "undriven": 
        if g[i][3] < b["W"] - b["o"]:
            # somebody reads a wire nobody drives
            x = g[i][3]
            if not any(x in (q[1], q[2]) for q in g[i + 1:]): return None
            g.pop(i)
        else: g.pop(i)
        if not g: return None
    t = netlist.bristol_text(b, random.Random(r.random()))
    if k == "trunc":
        t = t.rstrip(); t = t[:r.randrange(len(t) - 4)] if len(t) > 8 else ""
    elif k == "arity":
        L = t.split("\n"); q = [z for z, l in enumerate(L) if l.split() and l.split()[-1] in ("XOR", "AND", "INV")]; z = r.choice(q); w = L[z].split(); w[r.choice([0, 1])] = r.choice(["0", "3", "7", "-1"]); L[z] = " ".join(w); t = "\n".join(L)
    elif k == "count": t = re.sub(r"^\d+", str(len(g) + r.choice([1, 5, 10 ** 9])), t)
    elif k == "header": t = re.sub(r"^\d+", r.choice(["", "x", "-3", "0", "99999999999999999999999"]), t)
    elif k == "neg": L = t.split("\n"); L[1] = "-1 %d %d" % (b["e"], b["o"]); t = "\n".join(L)
    elif k == "big": L = t.split("\n"); L[1] = "%d %d %d" % (b["g"], r.choice([1 << 62, b["W"] + 1, 1 << 33]), b["o"]); t = "\n".join(L)
    elif k == "sizes": L = t.split("\n"); L[1] = "%d %d %d" % (b["g"], b["e"], b["W"] + r.choice([1, 7])); t = "\n".join(L)
    elif k == "empty": t = r.choice(["", "\n", "0 0\n0 0 0\n", "5", "1 3\n1 1"])
    return t, k


def C19(ck):
    r = ck.rng
    ck.cov["rule"] = ("netlists damaged in one way that must be refused (loops, undriven and unknown signals, missing or unknown pins, unknown ports, out-of-range bits, undefined outputs, truncation, unsupported assignments; Bristol: wires, "
                      "types, counts, sizes), every prefix of some netlists, and arbitrary text (random mutation of tokens and bytes) that must not crash or hang; distinct by text")
    jobs, ex = [], {}

    def add(txt, what, must, bris=False, cost=1):
        i = len(jobs); p = ck.file("x%d.v" % i, txt if isinstance(txt, bytes) else txt.encode("latin-1", "replace"))
        j = dict(id="x%d" % i, kind="bris" if bris else "v2scd", map=p + ".map", scd=p + ".scd", timeout=60, _cost=cost); j["in"] = p
        jobs.append(j); ex[j["id"]] = (txt, what, must)
    for i in range(ck.n(900, 9000)):
        m = malformed(r)
        if m: add(m[0], m[1], True)
    for i in range(ck.n(300, 3000)):
        m = bris_malformed(r)
        if m: add(m[0], "bristol " + m[1], True, True)
    for q in range(ck.n(2, 8)):       # every prefix
        n = rand_net(r, ng=4, sizes=[0, 1, 1, 0, 2, 2], nout=2, seq=True); t = n.text(r, style=dict(PLAIN, oneline=False)); e = t.find("endmodule") + 8
        for k in range(0, e + 1, 1 if ck.thorough else 2): add(t[:k], "prefix of %d bytes" % k, True)
    # a long loop and a long undriven chain
    for L in (30000,):
        n = Net([0, 0, 0, 0, 1, 1], 1)
        n.cells = [("AND", {"A": "c%d" % ((q + 1) % L), "B": "g_input[0]", "Z": "c%d" % q}) for q in range(L)]; n.assigns = [("o[0]", "c5")]
        add(n.text(r, style=PLAIN, names={}), "loop of %d" % L, True, cost=60)
    # fuzz
    words = ["AND", "OR", "XOR", "IV", "DFF", "MUX", "HADDER", "FADDER", "input", "output", "assign", "=", ";", "[7:0]", "[0]", "[", "]", "(", ")", ",", ".A", ".B", ".Z", ".D", ".I", ".Q", ".F", ".SEL", ".SUM", ".COUT", ".CIN", ".IN0", ".IN1", "g_input",
             "e_input", "p_input", "g_init", "e_init", "p_init", "o", "terminate", "clk", "1'b0", "1'b1", "endmodule", "module", "wire", "[99999999999999999999:0]", "[-1:0]", "[4294967295:0]", "[16777215:0]", "[:]", ".", "//", "/*", "*/", "(*", "*)", "\\", "o[0]", "g_input[0]", "\0", "\xff", "U1"]
    for i in range(ck.n(1500, 40000)):
        x = r.random()
        if x < .2: t = " ".join(r.choice(words) for _ in range(r.choice([1, 3, 10, 60, 300])))
        elif x < .3: t = "".join(chr(r.getrandbits(8)) for _ in range(r.choice([1, 10, 200, 3000])))
        else:
            t = rand_net(r, ng=r.choice([1, 3, 8, 20]), term=r.random() < .3).text(r)
            for _ in range(r.choice([1, 1, 2, 5, 20])):
                if not t: break
                o = r.randrange(len(t)); y = r.random()
                if y < .2: t = t[:o] + t[o + r.choice([1, 2, 10, 50]):]
                elif y < .4: t = t[:o] + r.choice(words) + t[o:]
                elif y < .5: t = t[:o] + chr(r.getrandbits(8)) + t[o + 1:]
                elif y < .7:
                    T = re.split(r"(\s+|[(),;])", t); a, b = r.randrange(len(T)), r.randrange(len(T)); T[a], T[b] = T[b], T[a]; t = "".join(T)
                elif y < .85:
                    T = re.split(r"(\s+|[(),;])", t); T[r.randrange(len(T))] = r.choice(words); t = "".join(T)
                else: a = r.randrange(len(t)); t = t[:o] + t[a:a + 200] + t[o:]
        add(t, "fuzz", False)
    for i in range(ck.n(400, 6000)):
        t = netlist.bristol_text(netlist.rand_bristol(r), r)
        for _ in range(r.choice([1, 2, 6])):
            o = r.randrange(max(1, len(t))); y = r.random()
            if y < .3: t = t[:o] + t[o + r.choice([1, 2, 9]):]
            elif y < .6: t = t[:o] + r.choice(["9", " ", "-", "\n", "99999999999999999999", "AND", "INV", "2 1 ", "\0", "x", "4294967296", "18446744073709551615"]) + t[o:]
            else: T = re.split(r"(\s+)", t); T[r.randrange(len(T))] = r.choice(["0", "1", "2", "-1", "4294967295", "18446744073709551614", "XOR", "9223372036854775807"]); t = "".join(T)
        add(t, "bristol fuzz", False, True)
    for name in ("/nonexistent/x.v", ck.wd):
        for kind in ("v2scd", "bris"):
            j = dict(id="f%d" % len(jobs), kind=kind, map=ck.wd + "/q.map", scd=ck.wd + "/q.scd"); j["in"] = name; jobs.append(j); ex[j["id"]] = (name, "no such file", True)
    res = ck.run(tgh(), jobs)
    st = {}
    for j in jobs:
        t, what, must = ex[j["id"]]; x = res[j["id"]]
        ck.case(t)
        if x.get("timeout") and not x.get("reran"): ck.inconclusive(j["id"]); continue
        k = what.split(" ")[0] if not what.startswith("bristol") else " ".join(what.split(" ")[:2])
        a = st.setdefault(k, [0, 0]); a[0] += 1
        p = sanity(x)
        show = (t if isinstance(t, str) else repr(t))[:2500]
        if p: ck.violation("malformed-" + p[0], "%s: %s | %s" % (what, p[1], show), dict(j)); continue
        if x["S"].get("ret") != "0": a[1] += 1
        if x["S"].get("ret") is None: ck.violation("no-answer", "%s: %s" % (what, x["S"]), dict(j)); continue
        if must and x["S"]["ret"] == "0": ck.violation("accepted", "%s: accepted | %s" % (what, show), dict(j))
    ck.cov["texts_and_refusals"] = st
    ck.sample(ex["x0"][0][:1500]); ck.sample(ex["x%d" % (len(jobs) // 2)][0][:1500])


# -------------------------------------------------------------- C20
def C20(ck):
    r = ck.rng
    ck.cov["rule"] = ("random Bristol circuits (XOR/AND/INV, any wire numbering, outputs read by other gates, one-sided inputs, 1..n outputs, formatting variants) and adders; the emitted circuit is compared on 64 random vectors, "
                      "small ones on all inputs; distinct by text")
    jobs, ex = [], {}
    fam = []
    for i in range(ck.n(700, 7000)): fam.append(netlist.rand_bristol(r))
    for g, e in ((1, 0), (1, 1), (8, 0), (64, 64), (128, 1), (256, 128)):
        for q in range(ck.n(3, 15)): fam.append(netlist.rand_bristol(r, ng=r.choice([5, 200, 800]), g=g, e=e, o=r.choice([1, 3])))
    for q in range(ck.n(2, 8)): fam.append(netlist.rand_bristol(r, ng=(5000, 12000)[q % 2], g=64, e=64, o=70))
    # a deep chain
    for L in (3000, ck.n(20000, 60000)):
        fam.append(dict(g=1, e=1, o=1, W=L + 2, gates=[(r.choice(["XOR", "AND", "XOR", "INV"]), q + 1, None, q + 2) for q in range(L)]))
        fam[-1]["gates"] = [(t, a, None if t == "INV" else 0, z) for t, a, c, z in fam[-1]["gates"]]
    for i, b in enumerate(fam):
        t = netlist.bristol_text(b, r); p = ck.file("b%d.txt" % i, t.encode())
        j = dict(id="b%d" % i, kind="bris", map=p + ".map", scd=p + ".scd", timeout=120, _cost=1 if len(b["gates"]) < 2000 else 30); j["in"] = p
        jobs.append(j); ex[j["id"]] = (b, t)
    res = ck.run(tgh(), jobs)
    for j in jobs:
        b, t = ex[j["id"]]; x = res[j["id"]]; ck.case(t)
        if x.get("timeout") and not x.get("reran"): ck.inconclusive(j["id"]); continue
        p = sanity(x)
        if p: ck.violation("bristol-" + p[0], "%s | %s" % (p[1], t[:1500]), dict(j)); continue
        if x["S"].get("ret") != "0": ck.violation("refused", "a well-formed circuit is refused: %s | %s" % (x["S"].get("err", "")[-300:], t[:1500]), dict(j)); continue
        try: c = circ.read_scd(open(j["scd"]).read())
        except (ValueError, IndexError, TypeError) as e: ck.violation("unreadable", "%s | %s" % (e, t[:1500]), dict(j)); continue
        h = [0, 0, 0, 0, b["g"], b["e"], 0, b["o"], 0, len(b["gates"])]
        if c.header() != h: ck.violation("sizes", "header %s, expected %s | %s" % (c.header(), h, t[:1500]), dict(j)); continue
        nin = b["g"] + b["e"]
        if nin <= 10:   # all inputs
            w = 1 << nin
            v = [sum(((q >> i) & 1) << q for q in range(w)) for i in range(nin)]
        else: w = W; v = lanes(r, nin)
        want, ww = netlist.bristol_eval(b, v, w)
        try: got, _, tr = circ.simulate(c, dict(g_input=v[:b["g"]], e_input=v[b["g"]:]), 1, width=w, trace=True)
        except (IndexError, ValueError) as e: ck.violation("malformed", "%r | %s" % (e, t[:1500]), dict(j)); continue
        ck.count("vectors", w); ck.count("gates", len(b["gates"]))
        bad = [i for i in range(b["o"]) if want[i] != got[0][i]]
        if bad: ck.violation("function", "outputs %s differ | %s" % (bad, t[:2000]), dict(j)); continue
        ops = {}
        for q, *_ in b["gates"]: ops[q] = ops.get(q, 0) + 1
        g2 = {}
        for _, _, q in c.gates: g2[q] = g2.get(q, 0) + 1
        if g2 != {k: n for k, n in ((circ.XOR, ops.get("XOR", 0)), (circ.AND, ops.get("AND", 0)), (circ.NOT, ops.get("INV", 0))) if n}: ck.violation("gates", "gate types %s for %s" % (g2, ops), dict(j))
    ck.sample(ex["b0"][1]); ck.sample(ex["b1"][1])
