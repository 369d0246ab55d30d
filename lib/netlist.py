"""Cell-level netlists: generator, renderer (Verilog text in many shapes), independent simulator."""
import random
from lib import circ
from lib.circ import gate_op

GATES = {"AND": 8, "ANDN": 4, "NAND": 7, "NANDN": 11, "OR": 14, "ORN": 13, "NOR": 1, "NORN": 2, "XOR": 6, "XNOR": 9}
PORTS = ["p_init", "g_init", "e_init", "p_input", "g_input", "e_input"]
PINS = {"IV": ["A", "Z"], "MUX": ["IN0", "IN1", "SEL", "F"], "HADDER": ["IN0", "IN1", "SUM", "COUT"], "FADDER": ["IN0", "IN1", "CIN", "SUM", "COUT"],
        "DFF": ["D", "I", "Q"]}
for g in GATES: PINS[g] = ["A", "B", "Z"]
OUT = {"Z", "F", "SUM", "COUT", "Q"}
CONST = {"1'b0": 0, "1'b1": 1}


def ngates(t, pins):
    """one gate per logic function of the cell"""
    if t == "DFF": return 0
    if t == "MUX": return 3
    if t == "HADDER": return ("SUM" in pins) + ("COUT" in pins)
    if t == "FADDER": return 1 + ("SUM" in pins) + 3 * ("COUT" in pins)
    return 1


class Net:
    """signals are strings; port bits are 'g_input[3]', outputs 'o[2]', 'terminate'; cells (type, {pin: signal})"""
    def __init__(s, sizes, nout, term=False):
        s.sizes, s.nout, s.term = dict(zip(PORTS, sizes)), nout, term
        s.cells, s.assigns = [], []

    def expected_gates(s): return sum(ngates(t, p) for t, p in s.cells)

    def simulate(s, v, cc, width, period=0):
        """v: port -> list of lane words per bit (inputs: per cycle).  Returns per cycle outputs and the
        value of every signal per cycle"""
        m = (1 << width) - 1
        drv = {}
        for i, (t, p) in enumerate(s.cells):
            for pin, sig in p.items():
                if pin in OUT: drv[sig] = (i, pin)
        for a, b in s.assigns: drv[a] = ("=", b)
        st = {}
        for t, p in s.cells:
            if t == "DFF":
                I = p["I"]
                if I in CONST: st[p["Q"]] = m if CONST[I] else 0
                else:
                    name, ix = I[:-1].split("["); st[p["Q"]] = v[name][int(ix)]
        order = s.order(drv)
        outs, allv = [], []
        for c in range(cc):
            val = {"1'b0": 0, "1'b1": m}
            for n in PORTS[3:]:
                for i in range(s.sizes[n]): val["%s[%d]" % (n, i)] = v[n][c * s.sizes[n] + i]
            val.update(st)
            for o in order:
                if o[0] == "=": val[o[1]] = val[o[2]]
                else:
                    t, p = s.cells[o[0]]
                    if t in GATES: val[p["Z"]] = gate_op(GATES[t], val[p["A"]], val[p["B"]], m)
                    elif t == "IV": val[p["Z"]] = val[p["A"]] ^ m
                    elif t == "MUX": val[p["F"]] = (val[p["SEL"]] & val[p["IN1"]]) | ((val[p["SEL"]] ^ m) & val[p["IN0"]])
                    elif t == "HADDER":
                        x, y = val[p["IN0"]], val[p["IN1"]]
                        if "SUM" in p: val[p["SUM"]] = x ^ y
                        if "COUT" in p: val[p["COUT"]] = x & y
                    elif t == "FADDER":
                        x, y, z = val[p["IN0"]], val[p["IN1"]], val[p["CIN"]]
                        if "SUM" in p: val[p["SUM"]] = x ^ y ^ z
                        if "COUT" in p: val[p["COUT"]] = (x & y) | (x & z) | (y & z)
            outs.append([val["o[%d]" % i] for i in range(s.nout)]); allv.append(val)
            st = {p["Q"]: val[p["D"]] for t, p in s.cells if t == "DFF"}
        return outs, allv

    def order(s, drv):
        res, done = [], set()
        adj = {}
        for i, (t, p) in enumerate(s.cells):
            if t == "DFF": continue
            adj[i] = [sig for pin, sig in p.items() if pin not in OUT]
        def node(sig):
            d = drv.get(sig)
            if d is None: return None
            if d[0] == "=": return ("=", sig, d[1])
            return None if s.cells[d[0]][0] == "DFF" else (d[0],)
        def deps(n): return [n[2]] if n[0] == "=" else adj[n[0]]
        roots = [(i,) for i in adj] + [("=", a, b) for a, b in s.assigns]
        for r in roots:
            stack = [(r, iter(deps(r)))] if r not in done else []
            done.add(r)
            while stack:
                n, it = stack[-1]
                for sig in it:
                    k = node(sig)
                    if k is not None and k not in done:
                        done.add(k); stack.append((k, iter(deps(k)))); break
                else:
                    res.append(n); stack.pop()
        return res

    # ---------------------------------------------------------- text
    def text(s, r=None, style=None, names=None):
        """style: dict of formatting choices"""
        r = r or random.Random(1)
        S = dict(comments=r.random() < .3, crlf=r.random() < .1, tabs=r.random() < .2, multiline=r.random() < .4, shuffle=r.random() < .6, spaces=r.random() < .4,
                 wires=r.random() < .8, dffpins=r.random() < .6, eq=r.random() < .3, attrs=r.random() < .15, lists=r.random() < .2, empty_pins=r.random() < .3, oneline=r.random() < .1,
                 bracket_space=r.random() < .15, mixed=r.random() < .3)
        if style: S.update(style)
        names = names if names is not None else s.make_names(r)
        sc = {}
        for n in PORTS + ["o"]: sc[n] = s.nout == 1 if n == "o" else s.sizes[n] == 1
        obit = r.random() < .3          # scalar o written o[0]

        def ref(sig):
            if sig == "" or sig in CONST or sig == "terminate": return sig
            if sig in names: return names[sig]
            if "[" not in sig or not sig.endswith("]"): return sig
            n, ix = sig[:-1].split("[", 1)
            if n not in sc: return sig
            if sc.get(n) and ix == "0":
                if n == "o": return "o[0]" if obit else "o"
                return n if r.random() < .5 else n + "[0]"
            if S["bracket_space"] and r.random() < .5: return "%s [%s]" % (n, ix)
            return sig
        sp = (lambda: r.choice(["", " ", "  ", "\t" if S["tabs"] else " "])) if S["spaces"] else (lambda: "")
        nl = (lambda: r.choice(["\n", "\n", "\n    ", " "])) if S["multiline"] else (lambda: " ")
        stm, ng, order = [], 0, list(range(len(s.cells)))
        if S["shuffle"]: r.shuffle(order)
        gi = 0
        for i in order:
            t, p = s.cells[i]
            pins = [(k, ref(x)) for k, x in p.items()]
            if t == "DFF" and S["dffpins"]: pins += [("CLK", "clk"), ("RST", "rst")]
            if t in ("HADDER", "FADDER") and S["empty_pins"]:
                for k in ("SUM", "COUT"):
                    if k not in p: pins.append((k, ""))
            if S["mixed"] or r.random() < .3: r.shuffle(pins)
            inst = r.choice(["U%d", "g%d", "u_cell_%d", "\\inst[%d] ", "X%d_"]) % gi; gi += 1
            body = ("," + nl()).join(".%s%s(%s%s%s)" % (k, sp(), sp(), x, sp()) for k, x in pins)
            txt = "%s %s %s(%s%s%s)%s;" % (t, inst, sp(), sp(), body, sp(), sp())
            if S["attrs"] and r.random() < .5: txt = ('(* src = "x.v:%d" *) ' % i if i % 3 else '(*keep*)' if i % 2 else '(*full_case *)\n') + txt
            stm.append(txt)
        asg = list(s.assigns)
        if S["shuffle"]: r.shuffle(asg)
        out = []
        while asg:
            k = r.choice([1, 2, 3]) if S["lists"] else 1
            part, asg = asg[:k], asg[k:]
            e = "=" if S["eq"] else " = "
            out.append("assign " + ", ".join("%s%s%s" % (ref(a), e, ref(b)) for a, b in part) + sp() + ";")
        if S["shuffle"]:
            for a in out: stm.insert(r.randrange(len(stm) + 1), a)
        else: stm = out + stm if r.random() < .5 else stm + out
        L = []
        if r.random() < .8 or any(t == "DFF" for t, p in s.cells): L.append("input clk, rst;" if r.random() < .5 else "input clk;\n  input rst;")
        decl = []
        for n in PORTS:
            k = s.sizes[n]
            if k and decl and r.random() < .25 and decl[-1].endswith(";") and decl[-1].startswith("input [%d:0]" % (k - 1)):
                decl[-1] = decl[-1][:-1] + r.choice([", ", ",", " , "]) + n + ";"       # input [7:0] a, b;
            elif k: decl.append("input %s;" % n if k == 1 and r.random() < .5 else "input [%d:0]%s%s;" % (k - 1, " " if not S["spaces"] else r.choice(["  ", "\t", " "]), n))
        k = s.nout
        decl.append("output o;" if k == 1 and not obit else "output [%d:0] o;" % (k - 1))
        if s.term: decl.append("output terminate;")
        r.shuffle(decl)
        L += decl
        if S["wires"]:
            w = [x for x in names.values()]
            for q in range(0, len(w), 6): L.append("wire " + ", ".join(w[q:q + 6]) + ";")
        ports = ["clk", "rst"] + [n for n in PORTS if s.sizes[n]] + ["o"] + (["terminate"] if s.term else [])
        head = "module %s ( %s );" % (r.choice(["top", "sum_N8_CC1", "m"]), ", ".join(ports))
        if S["comments"]:
            L = [x + r.choice(["", " // AND OR input [3:0] ;", "// endmodule", "\n// DFF U9 (.D(x));", " /* input [7:0] x; */", "\n/* endmodule\n  assign o[0] = q ; */"]) if r.random() < .4 else x for x in L]
            stm = [x + r.choice([" // assign o[0] = 1'b0;", "\n  // .A(zz)", "  //", " /* NOT */", "\n\n"]) if r.random() < .3 else x for x in stm]
            head = "// Generated by a tool\n/* input output assign */\n" + head
        ind = "\t" if S["tabs"] else "  "
        T = head + "\n" + "\n".join(ind + x for x in L + stm) + "\nendmodule\n"
        if S["oneline"] and not S["comments"]: T = " ".join(T.split("\n")) + "\n"
        if r.random() < .2: T = T.rstrip("\n")
        if S["crlf"]: T = T.replace("\n", "\r\n")
        return T

    def make_names(s, r):
        sigs = []
        for t, p in s.cells:
            for pin, sig in p.items():
                if pin in OUT: sigs.append(sig)
        sigs += [a for a, b in s.assigns]
        sigs = [x for x in dict.fromkeys(sigs) if not x.startswith("o[") and x != "terminate"]
        style = r.random()
        res = {}
        for i, x in enumerate(sigs):
            if style < .3: n = "n%d" % i
            elif style < .5: n = "w[%d]" % i
            elif style < .7: n = r.choice(["n%d", "N%d", "\\U1/reg[%d] ", "add_12_%d_n1", "sum%d_Z", "A%d", "_%d_", "Q%d", "g_input%d", "o%d", "terminate%d", "clk%d", "AND%d", "input_%d"]) % i
            else: n = "%s_%d" % (r.choice(["x", "carry", "mux"]), i * 37 % 100003)
            res[x] = n.strip()
        return res


def rand_net(r, ng=None, sizes=None, seq=None, nout=None, term=False, kinds=None, assigns=.3, consts=.06, drive_out=.6):
    if seq is None: seq = r.random() < .6
    if sizes is None:
        z = lambda hi: 0 if r.random() < .25 else r.choice([1, 1, 2, r.randint(1, hi)])
        sizes = [z(4), z(5), z(5), z(4), z(7), z(7)]
        if not seq: sizes[:3] = [0, 0, 0]
        if not any(sizes[3:]): sizes[4] = 3
    ng = ng if ng is not None else r.choice([1, 2, 3, 6, 12, 25, 60])
    n = Net(sizes, nout or r.choice([1, 1, 2, 3, 5, 9]), term)
    ins = ["%s[%d]" % (q, i) for q in PORTS[3:] for i in range(n.sizes[q])]
    inits = ["%s[%d]" % (q, i) for q in PORTS[:3] for i in range(n.sizes[q])]
    outs = ["o[%d]" % i for i in range(n.nout)]
    todo = list(outs) + (["terminate"] if term else [])
    r.shuffle(todo)
    k = [0]
    avail = list(ins)

    def fresh():
        if todo and r.random() < drive_out * min(1, 2 * len(todo) / max(1, ng)): return todo.pop()
        k[0] += 1; return "s%d" % k[0]
    dffs = []
    if seq:
        for i in range(max(1, min(len(inits) + r.randint(0, 3), 20))):
            q = fresh(); dffs.append(q)
            I = inits[i] if i < len(inits) and r.random() < .85 else r.choice(inits + ["1'b0", "1'b1"])
            n.cells.append(("DFF", {"D": None, "I": I, "Q": q})); avail.append(q)
    kinds = kinds or (list(GATES) * 2 + ["IV"] * 3 + ["MUX"] * 4 + ["HADDER"] * 3 + ["FADDER"] * 4)
    if not avail: avail = ["1'b0"]

    def pick():
        x = r.random()
        if x < consts: return r.choice(["1'b0", "1'b1"])
        if x < .5: return r.choice(avail[-8:])
        return r.choice(avail)
    for i in range(ng):
        t = r.choice(kinds)
        p = {}
        a = pick(); b = pick() if r.random() > .08 else a
        if t in GATES: p = {"A": a, "B": b, "Z": fresh()}
        elif t == "IV": p = {"A": a, "Z": fresh()}
        elif t == "MUX": p = {"IN0": a, "IN1": b, "SEL": pick(), "F": fresh()}
        else:
            p = {"IN0": a, "IN1": b}
            if t == "FADDER": p["CIN"] = pick()
            x = r.random()
            if x < .75: p["SUM"] = fresh()
            if x > .25: p["COUT"] = fresh()
        n.cells.append((t, p))
        for pin in p:
            if pin in OUT: avail.append(p[pin])
        if r.random() < assigns * .3:      # alias of a signal
            k[0] += 1; x = "s%d" % k[0]
            n.assigns.append((x, pick())); avail.append(x)
    wires = [x for x in avail if x not in CONST]
    for o in todo:
        x = r.random()
        if o != "terminate" and x < .1: n.assigns.append((o, r.choice(["1'b0", "1'b1"])))
        else:
            # terminate must not be the very first wire of the circuit
            c = [w for w in wires if o != "terminate" or (w not in ins and w not in [a for a, b in n.assigns])]
            if not c: c = wires
            n.assigns.append((o, r.choice(c[-10:] if x < .7 else c)))
    for i, (t, p) in enumerate(n.cells):
        if t == "DFF":
            x = r.random()
            p["D"] = r.choice(["1'b0", "1'b1"]) if x < consts else r.choice([w for w in avail if w not in CONST] or ["1'b0"])
    return n


def const_only(n, sig, drv=None):
    """is the signal an alias of a constant or an input?"""
    m = dict(n.assigns)
    while sig in m: sig = m[sig]
    return sig


# ------------------------------------------------------------------ Bristol
def rand_bristol(r, ng=None, g=None, e=None, o=None, shuffle_ids=True):
    g = r.choice([1, 2, 5, 8, 20]) if g is None else g
    e = r.choice([0, 1, 2, 5, 8, 20]) if e is None else e
    o = r.choice([1, 2, 4, 9]) if o is None else o
    ng = max(ng if ng is not None else r.choice([1, 2, 5, 20, 60]), o)
    gates = []
    # logical wires: 0..g+e-1 inputs, then gates in order; the last o wires are outputs after numbering
    W = g + e + ng
    outg = r.sample(range(ng), o) if shuffle_ids else list(range(ng - o, ng))
    r.shuffle(outg) if shuffle_ids else None
    ids = {}
    rest = [i for i in range(ng) if i not in outg]
    if shuffle_ids and r.random() < .5: r.shuffle(rest)
    for k, i in enumerate(rest): ids[g + e + i] = g + e + k
    for k, i in enumerate(outg): ids[g + e + i] = W - o + k
    for i in range(g + e): ids[i] = i
    read_out = r.random() < .4
    outset = {g + e + i for i in outg}
    for i in range(ng):
        c = [x for x in range(g + e + i) if read_out or x not in outset]
        pick = lambda: r.choice(c[-10:]) if r.random() < .5 else r.choice(c)
        t = r.choice(["XOR", "AND", "XOR", "AND", "INV"])
        gates.append((t, pick(), None if t == "INV" else pick(), g + e + i))
    return dict(g=g, e=e, o=o, W=W, gates=[(t, ids[a], None if b is None else ids[b], ids[z]) for t, a, b, z in gates])


def bristol_text(b, r):
    sep = lambda: r.choice([" ", " ", "  ", "\t"])
    L = ["%d%s%d" % (len(b["gates"]), sep(), b["W"]), "%d%s%d%s%d" % (b["g"], sep(), b["e"], sep(), b["o"])]
    if r.random() < .7: L.append("")
    for t, a, c, z in b["gates"]:
        L.append(sep().join(map(str, [1, 1, a, z, t] if c is None else [2, 1, a, c, z, t])))
    T = "\n".join(L) + r.choice(["\n", "", "\n\n"])
    return T.replace("\n", "\r\n") if r.random() < .1 else T


def bristol_eval(b, vals, width):
    m = (1 << width) - 1
    w = dict(enumerate(vals))
    for t, a, c, z in b["gates"]:
        w[z] = w[a] ^ m if t == "INV" else (w[a] ^ w[c] if t == "XOR" else w[a] & w[c])
    return [w[b["W"] - b["o"] + k] for k in range(b["o"])], w
