"""Plaintext evaluator, circuit files and value helpers: C21, C22, C24."""
import os, random, re
from lib import build, circ, sess, netlist
from lib.circ import C0, C1, NOT, TYPES
from checks import gcs
from checks.gcs import tgh
from checks.netl import sanity, well_formed

VK = ("p_init", "g_init", "e_init", "p_input", "g_input", "e_input")


# -------------------------------------------------------------- C21
def read_csv(path):
    L = open(path).read().split("\n")
    if not L or not L[0].startswith("cid,"): raise ValueError("no header: %r" % L[:1])
    names = [x for x in re.split(r"[,\s]+", L[0][4:]) if x]
    rows = []
    for l in L[1:]:
        if not l.strip(): continue
        w = [x for x in re.split(r"[,\s]+", l) if x]
        rows.append([int(x) for x in w])
    return names, rows


def map_names(r, c):
    """names of the DFF and gate wires in some style"""
    st = r.randrange(4)
    f = lambda k, i: ("%s%d" % (k, i), "%s_%d_[%d]" % (k, i, i % 7), "\\u/%s.%d" % (k, i), "n%d%s" % (i, k))[st]
    return [(f("q", i), c.q_lo + i) for i in range(len(c.D))] + [(f("w", i), c.g_lo + i) for i in range(len(c.gates))]


def C21(ck):
    r = ck.rng
    ck.cov["rule"] = ("random circuits (all gate types, constants, repeated operands, constant and pass-through outputs, DFFs with every kind of initial value, 1..300 cycles, early termination with every period, all output modes), "
                      "netlists taken through the translator first, large and deep circuits: printed values and every recorded wire of every cycle compared with an independent simulator; failing calls (missing or unusable map, "
                      "unwritable record, bad values, bad files, termination without a terminate wire) must report failure; distinct by circuit, values and options")
    jobs, ex = [], {}

    def add(c, v, cc, mode, period, tag, cost=1, names=None, hexr=r):
        i = len(jobs); p = os.path.join(ck.wd, "c%d.scd" % i)
        c.write(p)
        names = names or map_names(r, c)
        if r.random() < .2: r.shuffle(names)           # the record follows the map, whatever its order
        sep = r.choice([" ", "\t", "  "])
        ck.file("c%d.scd.map" % i, "".join("%s%s%d\n" % (a, sep, b) for a, b in names) + "terminate%s%d\n" % (sep, c.term))
        j = dict(id="c%d" % i, kind="plain", scd=p, cc=cc, mode=mode, period=period, timeout=120, _cost=cost)
        for k in VK:
            if v[k] or r.random() < .8: j[k] = circ.hexv(v[k], hexr)
        jobs.append(j); ex[j["id"]] = (c, v, cc, mode, period, names, tag)

    for i in range(ck.n(900, 9000)):
        term = r.random() < .35
        c = circ.rand_circ(r, term=term, const_out=r.random() < .3)
        cc = r.choice([1, 1, 2, 3, 4, 7, 12, 33])
        v = circ.rand_vals(r, c, cc)
        if r.random() < .1: v = {k: x | (r.getrandbits(9) << 400) for k, x in v.items()}      # longer than used
        period = r.choice([0, 1, 1, 2, 3, 5, cc, cc + 1]) if term else 0
        add(c, v, cc, r.randrange(3), period, "random")
    for i in range(ck.n(40, 300)):
        c = gcs.counter(r.choice([3, 5, 8]), r.randrange(3), r.random() < .6); cc = r.choice([5, 20, 60])
        add(c, circ.rand_vals(r, c, cc), cc, r.randrange(3), r.choice([0, 1, 2, 3, 7]), "counter")
    for i in range(ck.n(10, 60)):
        c = gcs.accumulator(r.choice([1, 8, 33, 64]), None); cc = r.choice([1, 10, 150])
        add(c, circ.rand_vals(r, c, cc), cc, r.randrange(3), 0, "accumulator", 3)
    for cc in (130, 260, 700) + ((5000,) if ck.thorough else ()):     # many cycles: inputs far from the start of each value
        for q in range(ck.n(2, 6)):
            c = circ.rand_circ(r, seq=True, sizes=(2, 2, 2, r.choice([1, 3]), r.choice([0, 2]), r.choice([1, 5])), ng=r.choice([8, 20]), term=q == 1)
            add(c, circ.rand_vals(r, c, cc), cc, r.randrange(3), r.choice([64, cc - 1, 7]) if c.term and r.random() < .5 else 0, "many cycles", 2)
    for t in TYPES:
        c = circ.Circ(0, 0, 0, 1, 1, 1)
        if t == NOT: c.gates = [(x, -1, t) for x in (0, 1, 2, C0, C1)]
        else: c.gates = [(a, b, t) for a in (0, 1, 2, C0, C1) for b in (0, 1, 2, C0, C1)]
        c.outs = [c.g_lo + i for i in range(len(c.gates))]
        add(c, dict(p_init=0, g_init=0, e_init=0, p_input=0xF0, g_input=0xCC, e_input=0xAA), 8, r.randrange(3), 0, "truth table of " + circ.NAMES[t])
    for q in range(ck.n(2, 8)):
        c = gcs.big_layered(r, ck.n(6000, 30000)); add(c, circ.rand_vals(r, c, 2), 2, r.randrange(3), 0, "big", 30)
    c = circ.Circ(0, 0, 0, 0, 1, 1); c.outs = [0, 1, C1, C0]; add(c, dict(p_init=0, g_init=0, e_init=0, p_input=0, g_input=5, e_input=6), 3, 1, 0, "no gates")
    # through the translator
    tj, tx = [], {}
    for i in range(ck.n(60, 500)):
        n = netlist.rand_net(r, term=r.random() < .3); names = n.make_names(r); p = ck.file("t%d.v" % i, n.text(r, names=names).encode())
        j = dict(id="t%d" % i, kind="v2scd", map=p + ".scd.map", scd=p + ".scd"); j["in"] = p; tj.append(j); tx[j["id"]] = (n, names)
    tres = ck.run(tgh(), tj)
    pj = []
    for j in tj:
        if tres[j["id"]]["S"].get("ret") != "0": ck.inconclusive("translator refused a netlist (C17)"); continue
        n, names = tx[j["id"]]; cc = r.choice([1, 2, 5])
        period = r.choice([0, 1, 2]) if n.term else 0
        v = {q: r.getrandbits(n.sizes[q] * (cc if q.endswith("input") else 1)) if n.sizes[q] else 0 for q in VK}
        q = dict(id="p" + j["id"], kind="plain", scd=j["scd"], cc=cc, mode=r.randrange(3), period=period)
        for k in VK: q[k] = circ.hexv(v[k], r)
        pj.append(q); ex[q["id"]] = (n, v, cc, q["mode"], period, names, "netlist")
    # calls that must fail
    fj = []
    good = circ.rand_circ(r, ng=8, seq=True); gt = circ.rand_circ(r, ng=8, seq=True, term=True)
    def bad(what, scd=None, mapt=None, csvdir=False, nomap=False, c=None, **kw):
        i = len(fj); c = c or good; p = os.path.join(ck.wd, "f%d.scd" % i)
        if scd is None: c.write(p)
        elif scd is not False: ck.file("f%d.scd" % i, scd)
        if not nomap:
            if mapt is None: c.write_map(p + ".map")
            else: ck.file("f%d.scd.map" % i, mapt)
        if csvdir == "dir": os.mkdir(p + ".csv")
        elif csvdir == "full": os.symlink("/dev/full", p + ".csv")
        j = dict(id="f%d" % i, kind="plain", scd=p, cc=3, mode=0, period=0); j.update({k: 0 for k in VK}); j.update(kw)
        fj.append(j); ex[j["id"]] = what
    bad("no map file", nomap=True)
    bad("record cannot be created", csvdir="dir"); bad("record cannot be written (no space)", csvdir="full")
    bad("no circuit file", scd=False); bad("empty circuit file", scd="")
    bad("map index out of range", mapt="q0 %d\nterminate 0\n" % good.wires); bad("map line without an index", mapt="q0\nterminate 0\n")
    bad("map index far out of range", mapt="q0 99999999999\nterminate 0\n"); bad("map index negative", mapt="q0 -1\nterminate 0\n")
    bad("termination without a terminate wire", period=1); bad("termination without a terminate wire", period=5)
    for k in VK:
        for t in ("xyz", "12G", "0x12", "1 2", "zz", "1.5", "-5", "-"): bad("%s=%r is not hexadecimal" % (k, t), **{k: "x:" + t.encode().hex()})
    for q in range(ck.n(30, 200)):
        t = good.scd(); w = t.split(); bad("circuit file cut after %d numbers" % q, scd=" ".join(w[:r.randrange(len(w))]))
    res = ck.run(tgh(), jobs + pj + fj)
    term_at = {}
    for j in jobs + pj:
        c, v, cc, mode, period, names, tag = ex[j["id"]]; x = res[j["id"]]
        if isinstance(c, netlist.Net):
            val = {q: [(v[q] >> i) & 1 for i in range(c.sizes[q] * (cc if q.endswith("input") else 1))] for q in VK}
            outs, sig = c.simulate(val, cc, 1)
            done = next((k + 1 for k in range(cc) if period and k % period == 0 and sig[k]["terminate"]), cc)
            outs = outs[:done]; n = c.nout; trace = None; key = str(c.cells)
        else: outs, done, trace = circ.simulate(c, v, cc, period, trace=True); n = len(c.outs); key = c.scd()
        ck.case((key, sorted(v.items()), cc, mode, period))
        lab = "%s, %d cycles, period %d, mode %d: " % (tag, cc, period, mode)
        if x.get("timeout") and not x.get("reran"): ck.inconclusive(j["id"]); continue
        p = sanity(x)
        if p: ck.violation("plain-" + p[0], lab + p[1], dict(j)); continue
        if x["S"].get("ret") != "0": ck.violation("failed", lab + "reported failure: %s" % x["S"].get("err", "")[-500:], dict(j)); continue
        want = sess.render([circ.pack(o) for o in outs], n, mode); got = sess.parse_out(x["S"].get("out", ""), mode)
        if got != want: ck.violation("value", lab + "printed %r, expected %s" % (x["S"].get("out", "")[:300], want), dict(j)); continue
        if period: term_at[done] = term_at.get(done, 0) + 1
        try: hn, rows = read_csv(j["scd"] + ".csv")
        except (OSError, ValueError) as e: ck.violation("record-missing", lab + "no usable record of the wires: %s" % e, dict(j)); continue
        if trace is None:
            # every name of the netlist that the map lists has, in each cycle, the netlist's value
            inv = {b: a for a, b in names.items()}; mapped = [l.split()[0] for l in open(j["scd"] + ".map") if l.split() and l.split()[0] != "terminate"]
            if hn != mapped: ck.violation("record-names", lab + "record has columns %s, map lists %s" % (hn[:20], mapped[:20]), dict(j)); continue
            if len(rows) != done: ck.violation("record-rows", lab + "record has %d rows for %d cycles" % (len(rows), done), dict(j)); continue
            bad_ = None
            for k, row in enumerate(rows):
                for q, nm in enumerate(hn):
                    s_ = inv.get(nm, nm)
                    if s_ in sig[k] and row[1 + q] != sig[k][s_]: bad_ = (k, nm, row[1 + q])
                    elif s_ in sig[k]: ck.count("recorded_values")
            if bad_: ck.violation("record-value", lab + "cycle %d: %s is recorded as %d" % bad_, dict(j))
            continue
        want = [[k] + [trace[k][ix] for _, ix in names] for k in range(done)]
        ck.count("recorded_values", sum(len(q) - 1 for q in want)); ck.count("cycles", done)
        if hn != [a for a, _ in names]: ck.violation("record-names", lab + "record has columns %s, expected %s" % (hn[:10], names[:10]), dict(j)); continue
        if rows != want:
            k = next((k for k in range(min(len(rows), len(want))) if rows[k] != want[k]), min(len(rows), len(want)))
            ck.violation("record-value", lab + "record differs in row %d of %d (%d expected)" % (k, len(rows), len(want)), dict(j))
    for j in fj:
        x = res[j["id"]]; ck.case(("fail", ex[j["id"]]))
        p = sanity(x)
        if p: ck.violation("fail-" + p[0], "%s: %s" % (ex[j["id"]], p[1]), dict(j)); continue
        if x["S"].get("ret") == "0": ck.violation("no-failure", "%s: success was reported (printed %r)" % (ex[j["id"]], x["S"].get("out", "")[:200]), dict(j))
    ck.cov["failing_calls"] = len(fj); ck.cov["terminated_after_cycle"] = {str(k): n for k, n in sorted(term_at.items())}
    for q in ("c0", "c1"): ck.sample(gcs.describe(ex[q][0], ex[q][1], cc=ex[q][2], mode=ex[q][3], period=ex[q][4]))


# -------------------------------------------------------------- C22
def dump_of(c):
    """what DumpCircuit prints for a circuit read from its file"""
    return ("%s|%s|%s|%s" % (" ".join(map(str, c.header())), "".join("%d,%d,%d,%d " % (a, b, t, c.g_lo + i) for i, (a, b, t) in enumerate(c.gates)),
                             "".join("%d " % o for o in c.outs), "".join("%d,%d " % x for x in zip(c.D, c.I))))


def judge(text):
    """('bad', why) if the text is not a consistent description, ('good', circuit) if it is exactly one, or ('any', None) where both answers are right"""
    t = text.split()
    if len(t) < 10: return "bad", "header incomplete"
    for x in t[:min(len(t), 10)]:
        if not re.fullmatch(r"\d+", x): return ("any" if re.fullmatch(r"[+]\d+|-0+", x) else "bad"), "header field %r" % x
    h = [int(x) for x in t[:10]]
    nd, no, term, ng = h[6:]
    n = 10 + 3 * ng + no + 2 * nd
    glued = any(re.fullmatch(r"[-+]?\d+([-+]\d+)+", x) for x in t[10:])
    if len(t) < n and not glued: return "bad", "has %d numbers of %d" % (len(t), n)
    for x in t[10:]:
        if not re.fullmatch(r"-?\d+", x): return ("any" if re.fullmatch(r"[-+]?\d+([-+]\d+)*", x) else "bad"), "field %r" % x
    if len(t) > n: return "bad", "has %d numbers, %d expected" % (len(t), n)
    c = circ.read_scd(text)
    for a, b, ty in c.gates:
        if ty == NOT and b != -1: return "any", None
    w = well_formed(c)
    if w: return "bad", w
    if max(h[:6]) > 1 << 20: return "any", None
    return "good", c


def mutate(r, c):
    t = [l.split() for l in c.scd().rstrip("\n").split("\n")]
    while len(t) < 7: t.append([])
    x = r.random()
    if x < .25:
        k = r.randrange(10); v = int(t[0][k])
        t[0][k] = str(r.choice([v + 1, v - 1, v + 7, 0, -1, -2, -3, 1 << 31, (1 << 32) + 1, 1 << 63, (1 << 64) - 1, 1 << 64, 10 ** 25, "x", "1e3", "0x3", "", "1.5", c.wires, c.wires + 1, c.in_lo, max(0, c.in_lo - 1)]))
    elif x < .75:
        k = r.choice([q for q in range(1, 7) if t[q]]) ; i = r.randrange(len(t[k])); v = int(t[k][i])
        hi = c.wires
        t[k][i] = str(r.choice([v + 1, v - 1, c.g_lo + i, c.g_lo + i + 1, c.g_lo + i - 1, hi, hi - 1, hi + 1, -1, -2, -3, -4, -100, 0, c.in_lo - 1, c.in_lo, c.init_n, max(0, c.init_n - 1), 1 << 31, (1 << 32) + c.in_lo, 1 << 62, -(1 << 63), 10 ** 20, 3, 5, 10, 15, 16, 14, 256 + 8, -8,
                                "x", "--1", "1-", "", "nan", "1.5", "0x8", ";"]))
    elif x < .85:
        k = r.randrange(1, 7)
        if t[k] and r.random() < .5: t[k].pop(r.randrange(len(t[k])))
        else: t[k].insert(r.randrange(len(t[k]) + 1), str(r.choice([0, 1, 5, -2, c.in_lo])))
    elif x < .92: t.append([str(r.randrange(9)) for _ in range(r.choice([1, 2, 50]))])
    else:
        a, b = r.randrange(1, 7), r.randrange(1, 7); t[a], t[b] = t[b], t[a]
    s = "\n".join(" ".join(l) for l in t) + "\n"
    return s


def C22(ck):
    r = ck.rng
    ck.cov["rule"] = ("random circuits written by the library from a permuted gate list and read back by the library and by an independent reader; files in other layouts read; files cut after every field, with one damaged, "
                      "missing, duplicated or surplus field, arbitrary text, directories and missing files given to the reader, the plaintext evaluator and both parties of sessions, which must refuse what an independent validity rule refuses and read "
                      "exactly what is written otherwise; distinct by text")
    jobs, ex = [], {}
    T = tgh()
    # round trip
    wj = []
    for i in range(ck.n(500, 5000)):
        c = circ.rand_circ(r, term=r.random() < .3, const_out=r.random() < .3, maxin=r.choice([1, 5, 40]), ng=r.choice([None, None, 0 or 1, 300]))
        if i < 3: c = gcs.big_layered(r, (100, 5000, 40000)[i])
        elif i < 8: c = circ.rand_circ(r, ng=(3000, 9000)[i % 2], seq=True, consts=.2, term=i % 2 == 1, maxin=r.choice([40, 400]))
        elif i < 10: c = circ.rand_circ(r, seq=True, sizes=(0, 33000, 40000, 0, 4, 4), ng=20)
        p = os.path.join(ck.wd, "w%d.scd" % i); perm = list(range(len(c.gates)))
        if r.random() < .7: r.shuffle(perm)
        j = dict(id="w%d" % i, kind="writescd", scd=p, header=" ".join(map(str, c.header())), gates=" ".join("%d,%d,%d" % g for g in c.gates), perm=" ".join(map(str, perm)),
                 outputs=" ".join(map(str, c.outs)), dffs=" ".join("%d,%d" % x for x in zip(c.D, c.I)))
        wj.append(j); ex[j["id"]] = c
    res = ck.run(T, wj)
    for j in wj:
        c = ex[j["id"]]; x = res[j["id"]]; ck.case(("rt", c.scd()))
        p = sanity(x)
        if p: ck.violation("write-" + p[0], p[1], dict(j)); continue
        if x["S"].get("ret") != "0": ck.violation("write-failed", "writing a circuit failed: %s" % x["S"].get("err", "")[-300:], dict(j)); continue
        txt = open(j["scd"]).read()
        try: d = circ.read_scd(txt)
        except (ValueError, IndexError) as e: ck.violation("written", "the written file cannot be read: %s | %s" % (e, txt[:600]), dict(j)); continue
        if (d.header(), d.gates, d.outs, d.D, d.I) != (c.header(), c.gates, c.outs, c.D, c.I): ck.violation("written", "the file does not hold the circuit: %s | %s" % (c.scd()[:700], txt[:700]), dict(j)); continue
        q = dict(id="r" + j["id"], kind="readscd", scd=j["scd"]); jobs.append(q); ex[q["id"]] = ("good", c, "written by the library", txt)
        if r.random() < .3:
            w = txt.split(); s = w[0]
            for y in w[1:]: s += r.choice([" ", " ", "\n", "\t", "  ", "\r\n", " \n "]) + y
            s += r.choice(["", "\n", " ", "\n\n"])
            q = dict(id="l" + j["id"], kind="readscd", scd=ck.file("l%s.scd" % j["id"], s.encode())); jobs.append(q); ex[q["id"]] = ("good", c, "other layout", s)
    # unwritable
    uj = []
    os.symlink("/dev/full", ck.wd + "/full.scd"); os.symlink("/dev/full", ck.wd + "/full.map")
    vt = netlist.rand_net(r).text(r); vp = ck.file("u.v", vt.encode()); bt = netlist.bristol_text(netlist.rand_bristol(r), r); bp = ck.file("u.b", bt.encode())
    for what, m, s in (("no space for the circuit", "/u.map", "/full.scd"), ("no space for the map", "/full.map", "/u.scd"), ("no directory", "/u.map", "/nodir/u.scd"), ("no directory for the map", "/nodir/u.map", "/u.scd"), ("a directory", "/u.map", "")):
        for k, f in (("v2scd", vp), ("bris", bp)):
            j = dict(id="u%d" % len(uj), kind=k, map=ck.wd + m, scd=ck.wd + s); j["in"] = f; uj.append(j); ex[j["id"]] = what
    c = circ.rand_circ(r, ng=20)
    uj.append(dict(id="u%d" % len(uj), kind="writescd", scd=ck.wd + "/full.scd", header=" ".join(map(str, c.header())), gates=" ".join("%d,%d,%d" % g for g in c.gates), perm=" ".join(map(str, range(len(c.gates)))),
                   outputs=" ".join(map(str, c.outs)), dffs=" ".join("%d,%d" % x for x in zip(c.D, c.I)))); ex[uj[-1]["id"]] = "no space for the circuit"
    # damaged
    gj = []
    def add(s, what, kind="readscd", data=None):
        i = len(jobs); p = ck.file("x%d.scd" % i, data if data is not None else s.encode("latin-1", "replace"))
        jd = judge(s)
        ck.count("files_" + jd[0])
        j = dict(id="x%d" % i, kind="readscd", scd=p, timeout=60); jobs.append(j); ex[j["id"]] = (jd[0], jd[1], what, s)
        y = r.random()
        if jd[0] == "any" and any(len(q) > 6 for q in s.split()[:10]): return       # only needs much memory
        if y < .35:
            ck.file("x%d.scd.map" % i, "terminate 0\n")
            q = dict(id="y%d" % i, kind="plain", scd=p, cc=2, mode=0, period=0, timeout=60); q.update({k: 5 for k in VK}); jobs.append(q); ex[q["id"]] = (jd[0], None, what, s)
        if y < .12 or y > .93:
            lo = r.random() < .4
            q = dict(id="z%d" % i, kind="gc", scd=p, cc=2, mode=0, mask="5", period=0, disable_ot=1, low_mem=int(lo), timeout=60); q.update({k: 5 for k in VK}); gj.append(q); ex[q["id"]] = (jd[0], None, what, s)
    for i in range(ck.n(2500, 40000)):
        c = circ.rand_circ(r, ng=r.choice([1, 2, 4, 9, 20]), term=r.random() < .4)
        s = mutate(r, c)
        if r.random() < .15: s = mutate_text(r, s)
        add(s, "damaged")
    for q in range(ck.n(3, 12)):
        c = circ.rand_circ(r, ng=r.choice([2, 6]), seq=True, term=True); w = c.scd().split()
        for k in range(len(w)): add(" ".join(w[:k]) + (" " if k % 2 else ""), "cut after %d of %d fields" % (k, len(w)))
    for q in range(ck.n(100, 1000)):
        add("".join(chr(r.getrandbits(8)) for _ in range(r.choice([0, 1, 30, 500]))), "arbitrary bytes")
        add(" ".join(str(r.choice([0, 1, 2, 3, 8, -2, -3, 1000, 1 << 40])) for _ in range(r.choice([10, 12, 30, 200]))), "arbitrary numbers")
    for name in (ck.wd + "/nonexistent.scd", ck.wd, ""):
        jobs.append(dict(id="m%d" % len(jobs), kind="readscd", scd=name)); ex[jobs[-1]["id"]] = ("bad", "missing", "missing file %r" % name, "")
    res = ck.run(T, jobs + uj + gj)
    for j in uj:
        x = res[j["id"]]; ck.case(("unw", ex[j["id"]], j["kind"])); p = sanity(x)
        if p: ck.violation("write-" + p[0], "%s: %s" % (ex[j["id"]], p[1]), dict(j)); continue
        if x["S"].get("ret") == "0": ck.violation("write-unnoticed", "%s (%s): success was reported though the file could not be written" % (ex[j["id"]], j["kind"]), dict(j))
    st = {}
    for j in jobs:
        jd, c, what, s = ex[j["id"]]; x = res[j["id"]]; ck.case((j["kind"], s))
        if x.get("timeout") and not x.get("reran"): ck.inconclusive(j["id"]); continue
        p = sanity(x); show = "%s | %s" % (what, s[:900])
        if p: ck.violation("read-" + p[0], "%s: %s" % (show, p[1]), dict(j)); continue
        ok = x["S"].get("ret") == "0"
        k = "%s %s" % (j["kind"], jd); a = st.setdefault(k, [0, 0]); a[not ok] += 1
        if jd == "bad" and ok: ck.violation("accepted", "%s accepted a bad file (%s): %s" % (j["kind"], c, show), dict(j)); continue
        if jd == "good" and not ok: ck.violation("refused", "%s refused a good file: %s: %s" % (j["kind"], show, x["S"].get("err", "")[-300:]), dict(j)); continue
        if jd == "good" and j["kind"] == "readscd" and x["S"].get("dump", "").split() != dump_of(c).split(): ck.violation("read-value", "read %s, the file holds %s: %s" % (x["S"].get("dump", "")[:500], dump_of(c)[:500], show), dict(j)); continue
        if jd == "good" and j["kind"] == "plain" and c is None:
            d = circ.read_scd(s); o, _, _ = circ.simulate(d, {q: 5 for q in VK}, 2)
            w = sess.render([circ.pack(z) for z in o], len(d.outs), 0)
            if sess.parse_out(x["S"].get("out", ""), 0) != w: ck.violation("plain-value", "the evaluator printed %r, expected %X: %s" % (x["S"].get("out", ""), w, show), dict(j))
    for j in gj:
        jd, _, what, s = ex[j["id"]]; x = res[j["id"]]; ck.case(("gc", s)); show = "%s | %s" % (what, s[:900])
        if x.get("timeout") and not x.get("reran"): ck.inconclusive(j["id"]); continue
        p = sess.sanity(x)
        if p: ck.violation("session-" + p[0], "%s: %s" % (show, p[1]), dict(j)); continue
        ok = [x[k].get("ret") == "0" for k in "AB"]
        a = st.setdefault("session %s" % jd, [0, 0]); a[not all(ok)] += 1
        if jd == "bad" and any(ok): ck.violation("session-accepted", "a party accepted a bad file: %s" % show, dict(j)); continue
        if jd == "good":
            d = circ.read_scd(s); v = sess.verdict(x, sess.Exp(d, {q: 5 for q in VK}, 2, 5), 0, len(d.outs))
            if v: ck.violation("session-" + v[0], "%s | %s" % (v[1], show), dict(j))
    ck.cov["accepted_and_refused"] = st
    ck.sample(ex["rw0"][3][:800]); ck.sample(next(ex[j["id"]][3] for j in jobs if j["id"][0] == "x")[:800])


def mutate_text(r, s):
    o = r.randrange(len(s)); x = r.random()
    if x < .4: return s[:o] + s[o + r.choice([1, 2, 20]):]
    if x < .7: return s[:o] + r.choice(["-", "9", " ", "a", "\0", "#", ","]) + s[o:]
    return s[:o]


# -------------------------------------------------------------- C24
def C24(ck):
    r = ck.rng
    ck.cov["rule"] = ("every width 1..64 with boundary and random values, random field lists (1..2300 fields, total beyond 65536 bits), offsets, short and over-long output strings, all small masks, all hexadecimal digits in both cases, "
                      "valid and invalid block strings, files of several lines; results compared with integer arithmetic; distinct by call")
    ops, want = [], []

    def add(o, f, what=None):
        ops.append(o); want.append((f, what or o))
    hx = lambda s: int(s, 16)
    bits = lambda v, w: format(v & ((1 << w) - 1), "0%db" % w)
    sgn = lambda v, w: (v & ((1 << w) - 1)) - ((1 << w) if (v >> (w - 1)) & 1 else 0)
    edge = lambda w: [0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, ((1 << w) - 1) // 3, r.getrandbits(w), r.getrandbits(w)]
    edge0 = edge; edge = lambda w: [v & ((1 << w) - 1) for v in edge0(w)]
    eq = lambda z: lambda g: g == z
    def heq(z, nd=None): return lambda g: bool(re.fullmatch(r"[0-9A-Fa-f]+", g)) and hx(g) == z
    def beq(z, w): return lambda g: g == bits(z, w)
    for w in range(1, 65):
        for v in edge(w) + [r.getrandbits(w) for _ in range(ck.n(4, 60))]:
            big = v | (r.getrandbits(64) << w) & ((1 << 64) - 1)           # bits beyond the width must not show
            add("dec2bin:%d:%d" % (r.choice([v, big]), w), beq(v, w))
            add("bin2dec:%s:1" % bits(v, w), eq(str(sgn(v, w)))); add("bin2dec:%s:0" % bits(v, w), eq(str(sgn(v, 64))))
            add("twos:" + bits(v, w), beq(-v, w))
            add("fmtin:%d:%d" % (v, w), heq(v))
            off = r.choice([0, 0, 1, 3, 4, 31, 64])
            low = r.getrandbits(off) if off else 0
            add("parseout:%X:%d:%d" % (v << off | low, w, off), eq(str(sgn(v, w))))
            add("parseout:%s:%d:%d" % ("0" * r.randrange(6) + "%x" % (v << off | low), w, off), eq(str(sgn(v, w))))
    for i in range(ck.n(2500, 40000)):
        n = r.choice([1, 2, 3, 5, 9, 40]) if i >= 12 else [41, 64, 65, 100, 128, 129, 256, 257, 300, 700, 1100, 2300][i]; ws = [r.choice([1, 2, 4, 7, 8, 16, 31, 32, 33, 63, 64, r.randint(1, 64)]) for _ in range(n)]
        vs = [r.choice(edge(w)) for w in ws]
        z = 0
        for v, w in zip(vs, ws): z = z << w | v
        tot = sum(ws)
        big = [v | ((r.getrandbits(64) << w) & ((1 << 64) - 1)) if r.random() < .5 else v for v, w in zip(vs, ws)]
        add("fmtin:%s:%s" % (",".join(map(str, big)), ",".join(map(str, ws))), heq(z))
        off = r.choice([0, 0, 0, 1, 8, 17, 200]); low = r.getrandbits(off) if off else 0
        y = z << off | low; s = "%X" % y
        x = r.random()
        if x < .2: s = s.lower()
        elif x < .4: s = "0" * r.randint(1, 9) + s
        elif x < .5: y |= r.getrandbits(13) << (tot + off); s = "%X" % y            # surplus high bits
        add("parseout:%s:%s:%d" % (s, ",".join(map(str, ws)), off), eq(",".join(str(sgn(v, w)) for v, w in zip(vs, ws))))
        # what was formatted is parsed back
    for i in range(ck.n(600, 6000)):
        n = r.choice([1, 3, 7, 8, 31, 32, 64, 65, 127, 128, 200]); v = r.choice([0, (1 << n) - 1, 1 << (n - 1), r.getrandbits(n)])
        b = bits(v, n); add("bin2hex:" + b, heq(v))
        nd = (n + 3) // 4; h = "%0*X" % (nd, v)
        if r.random() < .5: h = h.lower()
        add("hex2bin:" + h, beq(v, 4 * nd))
    for d in "0123456789abcdefABCDEF": add("hex2bin:" + d, beq(int(d, 16), 4))
    for v in range(256): add("bin2hex:" + bits(v, 8), heq(v)); add("hex2bin:%02x" % v, beq(v, 8)); add("hex2bin:%02X" % v, beq(v, 8))
    for g in list(range(0, 18)) + [31, 32, 63, 64, 65, 128, 1000, 65535]:
        for e in list(range(0, 18)) + [31, 32, 64, 127, 128, 4096, 65535]:
            if g + e == 0: continue
            add("mask:%d:%d:1" % (g, e), heq(((1 << g) - 1) << e)); add("mask:%d:%d:0" % (g, e), heq((1 << g) - 1))
    e2 = lambda s: s.encode("latin-1").hex()
    def s2b(s):
        t = re.sub(r"[ \t_]", "", s)
        if t == "": return lambda g: True
        if re.fullmatch(r"[0-9a-fA-F]{1,32}", t):
            b = int(t, 16).to_bytes(16, "little").hex()
            return lambda g: g.split() == ["0", b]
        return lambda g: g.split()[0] not in ("0", "")
    for i in range(ck.n(1500, 20000)):
        n = r.choice([1, 2, 15, 16, 17, 31, 32, 32, 33, 40, r.randint(1, 34)]); s = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(n))
        x = r.random()
        if x < .3:
            for _ in range(r.choice([1, 2, 4])): o = r.randrange(len(s) + 1); s = s[:o] + r.choice(" \t_") + s[o:]
        elif x < .6: o = r.randrange(len(s)); s = s[:o] + r.choice("gGxXzZ-+.,:;/@`!\n\r\0\x7f\xff") + s[o + (1 if r.random() < .5 else 0):]
        elif x < .65: s = r.choice(["0x", "0X", "-", "+", " -", "_+"]) + s
        add("s2b:" + e2(s), s2b(s), "Str2Block(%r)" % s)
    for o in range(16):      # an invalid character at every position of a full string
        for ch in "gx- +": s = list("0123456789abcdef0123456789ABCDEF"); s[2 * o] = ch; s = "".join(s); add("s2b:" + e2(s), s2b(s), "Str2Block(%r)" % s)
    for v in [0, 1, 15, 16, 255, (1 << 64) - 1, 1 << 63] + [r.getrandbits(64) for _ in range(30)]:
        for pad in (0, 1, 4, 16): add("toh:%d:%d" % (v, pad), eq("%0*x" % (max(pad, 1), v)) if pad else eq("%x" % v))
    for i in range(200):
        a = "".join(r.choice("abcXYZ019_-[]@{`") for _ in range(r.randrange(1, 9))); b = r.choice([a, a.upper(), a.lower(), a.swapcase(), a + "x", a[:-1], "".join(chr(ord(q) ^ 32) for q in a), a.replace("a", "b")])
        add("icmp:%s:%s" % (e2(a), e2(b)), eq(str(int(a.lower() == b.lower()))), "icompare(%r,%r)" % (a, b))
    # values from files: the first line holds the least significant digits
    for i in range(ck.n(40, 300)):
        L = ["".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.choice([1, 2, 8, 40]))) for _ in range(r.choice([1, 2, 5, 30]))]
        p = ck.file("v%d.txt" % i, "\n".join(L) + r.choice(["", "\n"])); add("rfile:" + e2(p), eq("".join(reversed(L)).encode().hex()), "file %s" % L)
    for s in ("0", "abc", "12AB", "/nonexistent/f"): add("rfile:" + e2(s), eq(e2(s)))
    for t in TYPES:
        for a in (0, 1):
            for b in (0, 1): add("gop:%d:%d:%d" % (t, a, b), eq(str(circ.gate_op(t, a, b, 1))))
    v = {8: 0, 4: 2, 7: 4, 11: 6, 14: 7, 13: 5, 1: 3, 2: 1}
    for t in v:
        # a op b = ((a ^ v0) & (b ^ v1)) ^ v2, whatever the bits are called
        def tv(g, t=t):
            x = int(g); return all((((a ^ (x & 1)) & (b ^ (x >> 1 & 1))) ^ (x >> 2 & 1)) == circ.gate_op(t, a, b, 1) for a in (0, 1) for b in (0, 1))
        add("t2v:%d" % t, tv)
    CH = 400
    jobs = []
    for q in range(0, len(ops), CH): jobs.append(dict(id="u%d" % (q // CH), kind="util", ops=";".join(ops[q:q + CH]), timeout=120))
    res = ck.run(tgh(), jobs)
    kinds = {}
    for q, j in enumerate(jobs):
        x = res[j["id"]]; R = x["S"].get("r", [])
        for k in range(min(len(ops) - q * CH, CH)):
            o = ops[q * CH + k]; f, what = want[q * CH + k]
            ck.case(o); kd = o.split(":")[0]; kinds[kd] = kinds.get(kd, 0) + 1
            if k >= len(R):
                p = sanity(x) or ("ended", "no answer")
                ck.violation("call-" + p[0], "%s: %s" % (what[:300], p[1]), dict(id=j["id"], kind="util", ops=o)); break
            try: ok = f(R[k])
            except (ValueError, IndexError): ok = False
            if not ok: ck.violation(kd, "%s gave %r" % (what[:300], R[k][:300]), dict(id=j["id"], kind="util", ops=o))
        else:
            p = sanity(x)
            if p: ck.violation("call-" + p[0], p[1], dict(j))
    ck.cov["calls"] = kinds
    ck.sample(ops[0]); ck.sample(ops[len(ops) // 3][:300]); ck.sample(ops[len(ops) // 2][:300])
