"""Verilog-2001 reader (the synthesizable subset and a little more): text -> modules as tuples.
Used by lib/vsim.py to execute the circuits of /repo/circuit_synthesis."""
import re, os


class VError(Exception): pass


TOK = re.compile(r'''
 (?P<num>(?:[0-9][0-9_]*)?\s*'[sS]?[bBdDhHoO]\s*[0-9a-fA-FxXzZ?_]+)
|(?P<real>[0-9][0-9_]*\.[0-9]+)
|(?P<dec>[0-9][0-9_]*)
|(?P<id>\$?[A-Za-z_][A-Za-z0-9_$]*|\\\S+)
|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<star>\(\s*\*\s*\))
|(?P<op><<<|>>>|===|!==|<<|>>|<=|>=|==|!=|&&|\|\||\*\*|~&|~\||~\^|\^~|\+:|-:|->|[-+*/%&|^~!<>=?:;,.(){}\[\]@#])
''', re.X)
COMMENT = re.compile(r'//[^\n]*|/\*.*?\*/|("(?:[^"\\\n]|\\.)*")', re.S)


def decomment(t):
    return COMMENT.sub(lambda m: m.group(1) or (" " if m.group(0).startswith("//") else " " + "\n" * m.group(0).count("\n")), t)


class Pre:
    def __init__(self, dirs): self.d, self.dirs, self.depth = {}, dirs, 0

    def file(self, path):
        self.depth += 1
        if self.depth > 30: raise VError("includes too deep")
        t = decomment(open(path, errors="replace").read())
        out, cond = [], []
        lines = t.split("\n"); i = 0
        while i < len(lines):
            l = lines[i]; i += 1
            m = re.match(r'\s*`(\w+)\b[ \t]*(.*)', l)
            k = m.group(1) if m else None
            if k in ("ifdef", "ifndef"):
                n = m.group(2).split()[0]
                cond.append([(n in self.d) == (k == "ifdef"), False]); cond[-1][1] = cond[-1][0]; continue
            if k == "elsif":
                n = m.group(2).split()[0]; v = n in self.d and not cond[-1][1]; cond[-1][0] = v; cond[-1][1] |= v; continue
            if k == "else": cond[-1][0] = not cond[-1][1]; cond[-1][1] = True; continue
            if k == "endif": cond.pop(); continue
            if not all(c[0] for c in cond): continue
            if k == "define":
                b = m.group(2)
                while b.endswith("\\") and i < len(lines): b = b[:-1] + " " + lines[i]; i += 1
                mm = re.match(r'(\w+)(\(([^)]*)\))?\s*(.*)', b, re.S)
                self.d[mm.group(1)] = ([x.strip() for x in mm.group(3).split(",")] if mm.group(2) else None, mm.group(4).strip()); continue
            if k == "undef": self.d.pop(m.group(2).split()[0], None); continue
            if k == "include":
                n = re.match(r'"([^"]+)"', m.group(2))
                if not n: raise VError("include: " + l)
                for d in [os.path.dirname(path)] + self.dirs + [None]:
                    p = os.path.join(d, n.group(1)) if d else os.path.join(os.path.dirname(path), os.path.basename(n.group(1)))
                    if os.path.exists(p): out.append(self.file(p)); break
                else: raise VError("include file not found: " + n.group(1))
                continue
            if k in ("timescale", "default_nettype", "resetall", "celldefine", "endcelldefine"): continue
            out.append(self.expand(l))
        self.depth -= 1
        return "\n".join(out)

    def expand(self, l, n=0):
        if "`" not in l or n > 200: return l

        m = re.search(r'`(\w+)', l)
        if not m: return l
        a = self.d.get(m.group(1))
        if a is None: raise VError("undefined macro `" + m.group(1))
        args, b = a; e = m.end()
        if args is not None:
            e = l.index("(", e) + 1; d, v, s = 1, [], e
            while d:
                c = l[e]
                if c in "([{": d += 1
                elif c in ")]}": d -= 1
                if (c == "," and d == 1) or d == 0: v.append(l[s:e].strip()); s = e + 1
                e += 1
            mp = dict(zip(args, v))
            if args and args != [""]: b = re.sub(r'\b(%s)\b' % "|".join(map(re.escape, args)), lambda x: mp[x.group(1)], b)
        return self.expand(l[:m.start()] + b + l[e:], n + 1)


def lex(t):
    t = re.sub(r'\(\*(?!\s*\)).*?\*\)', " ", t, flags=re.S)      # attributes
    r, p, n, line = [], 0, len(t), 1
    ws = re.compile(r'\s*')
    while True:
        m = ws.match(t, p); line += t.count("\n", p, m.end()); p = m.end()
        if p >= n: break
        m = TOK.match(t, p)
        if not m: raise VError("line %d: unexpected %r" % (line, t[p:p + 20]))
        k = m.lastgroup; v = m.group()
        if k == "star": r += [("op", "(", line), ("op", "*", line), ("op", ")", line)]
        else: r.append((k, v[1:] if v[0] == "\\" else v, line))
        line += v.count("\n"); p = m.end()
    r.append(("eof", "", line))
    return r


def number(v):
    """('num', width or None, signed, value, mask of x/z/? bits)"""
    w, r = v.split("'")
    w = int(w.strip().replace("_", "")) if w.strip() else None
    sg = r[0] in "sS"
    if sg: r = r[1:]
    b, d = r[0].lower(), r[1:].strip().replace("_", "").lower()
    if b == "d":
        if d[0] in "xz?": return ("num", w, sg, 0, (1 << (w or 32)) - 1)
        val, x = int(d), 0
    else:
        k = {"b": 1, "o": 3, "h": 4}[b]; val = x = 0
        for c in d:
            val <<= k; x <<= k
            if c in "xz?": x |= (1 << k) - 1
            else: val |= int(c, 16)
        if d[0] in "xz?":
            n = len(d) * k; t = w or 32
            if t > n: x |= ((1 << t) - 1) ^ ((1 << n) - 1)
    if w is not None: val &= (1 << w) - 1; x &= (1 << w) - 1
    return ("num", w, sg, val, x)


PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "~^": 4, "^~": 4, "&": 5, "==": 6, "!=": 6, "===": 6, "!==": 6, "<": 7, "<=": 7, ">": 7, ">=": 7,
        "<<": 8, ">>": 8, "<<<": 8, ">>>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10, "**": 11}
UN = {"~", "!", "-", "+", "&", "|", "^", "~&", "~|", "~^", "^~"}
NETS = {"wire", "reg", "integer", "tri", "wand", "wor", "supply0", "supply1", "logic", "time", "bit"}
GATES = {"and", "or", "not", "nand", "nor", "xor", "xnor", "buf"}


class Parser:
    def __init__(self, toks): self.t, self.p = toks, 0

    def peek(self, k=0): return self.t[min(self.p + k, len(self.t) - 1)][1]
    def kind(self, k=0): return self.t[min(self.p + k, len(self.t) - 1)][0]
    def err(self, m): raise VError("line %d near %r: %s" % (self.t[min(self.p, len(self.t) - 1)][2], self.peek(), m))
    def next(self):
        v = self.t[self.p]
        if v[0] == "eof": self.err("unexpected end")
        self.p += 1; return v[1]

    def acc(self, v):
        if self.t[self.p][1] == v and self.t[self.p][0] != "str": self.p += 1; return True
        return False

    def exp(self, v):
        if not self.acc(v): self.err("expected %r" % v)

    def ident(self):
        if self.kind() != "id": self.err("identifier expected")
        return self.next()

    # expressions
    def expr(self):
        c = self.binary(1)
        if self.acc("?"):
            a = self.expr(); self.exp(":"); b = self.expr()
            return ("cond", c, a, b)
        return c

    def binary(self, lv):
        l = self.unary()
        while self.kind() == "op" and PREC.get(self.peek(), 0) >= lv:
            op = self.next()
            r = self.binary(PREC[op] + 1)
            l = ("bin", op, l, r)
        return l

    def unary(self):
        if self.kind() == "op" and self.peek() in UN:
            op = self.next(); return ("un", op, self.unary())
        return self.primary()

    def primary(self):
        k = self.kind()
        if k == "num": return number(self.next())
        if k == "dec":
            return ("num", None, True, int(self.next().replace("_", "")), 0)
        if k == "real": return ("real", float(self.next()))
        if k == "str": return ("str", self.next()[1:-1])
        if self.acc("("):
            e = self.expr(); self.exp(")"); return e
        if self.acc("{"):
            e = self.expr()
            if self.acc("{"):
                es = [self.expr()]
                while self.acc(","): es.append(self.expr())
                self.exp("}"); self.exp("}")
                return ("rep", e, ("cat", es))
            es = [e]
            while self.acc(","): es.append(self.expr())
            self.exp("}")
            return ("cat", es)
        if k == "id":
            n = self.next()
            if n.startswith("$"):
                a = []
                if self.acc("("):
                    if not self.acc(")"):
                        a.append(self.expr())
                        while self.acc(","): a.append(self.expr())
                        self.exp(")")
                return ("sys", n, a)
            if self.peek() == "(" and self.kind() == "op":
                self.next(); a = []
                if not self.acc(")"):
                    a.append(self.expr())
                    while self.acc(","): a.append(self.expr())
                    self.exp(")")
                return ("call", n, a)
            return self.selects(("id", n))
        self.err("expression expected")

    def selects(self, e):
        while True:
            if self.acc("["):
                a = self.expr()
                if self.acc(":"): b = self.expr(); self.exp("]"); e = ("rng", e, a, b)
                elif self.acc("+:"): b = self.expr(); self.exp("]"); e = ("up", e, a, b)
                elif self.acc("-:"): b = self.expr(); self.exp("]"); e = ("down", e, a, b)
                else: self.exp("]"); e = ("idx", e, a)
            elif self.peek() == "." and self.kind() == "op" and e[0] in ("id", "idx", "dot") and self.kind(1) == "id":
                self.next(); e = ("dot", e, self.ident())
            else: return e

    def lvalue(self):
        if self.acc("{"):
            es = [self.lvalue()]
            while self.acc(","): es.append(self.lvalue())
            self.exp("}")
            return ("cat", es)
        return self.selects(("id", self.ident()))

    # statements
    def stmt(self):
        p = self.peek(); k = self.kind()
        if self.acc(";"): return ("null",)
        if k == "id":
            if p == "begin":
                self.next(); nm = self.ident() if self.acc(":") else None
                ds, ss = [], []
                while not self.acc("end"):
                    if self.peek() in NETS or self.peek() in ("parameter", "localparam", "input"): ds += self.decl()
                    else: ss.append(self.stmt())
                if self.acc(":"): self.ident()
                return ("block", nm, ds, ss)
            if p == "if":
                self.next(); self.exp("("); c = self.expr(); self.exp(")"); a = self.stmt()
                b = self.stmt() if self.acc("else") else None
                return ("if", c, a, b)
            if p in ("case", "casez", "casex"):
                self.next(); self.exp("("); e = self.expr(); self.exp(")"); items = []
                while not self.acc("endcase"):
                    if self.acc("default"): self.acc(":"); items.append((None, self.stmt()))
                    else:
                        ls = [self.expr()]
                        while self.acc(","): ls.append(self.expr())
                        self.exp(":"); items.append((ls, self.stmt()))
                return ("case", p, e, items)
            if p == "for":
                self.next(); self.exp("("); ds = []
                if self.peek() in ("integer", "int") : self.next(); nm = self.peek(); ds = [("decl", "integer", True, None, [(nm, [], None)], None)]
                i = self.asg(); self.exp(";"); c = self.expr(); self.exp(";"); s = self.asg(); self.exp(")")
                f = ("for", i, c, s, self.stmt())
                return ("block", None, ds, [f]) if ds else f
            if p == "while": self.next(); self.exp("("); c = self.expr(); self.exp(")"); return ("while", c, self.stmt())
            if p == "repeat": self.next(); self.exp("("); c = self.expr(); self.exp(")"); return ("repeat", c, self.stmt())
            if p == "forever": self.next(); return ("unsupported", "forever", self.stmt())
            if p.startswith("$"):
                self.next()
                if self.acc("("):
                    d = 1
                    while d:
                        v = self.next(); d += (v == "(") - (v == ")")
                self.exp(";"); return ("null",)
            if p in ("wait", "disable", "force", "release"):
                while not self.acc(";"): self.next()
                return ("unsupported", p)
        if self.acc("#"):
            self.primary()
            return self.stmt()
        if self.acc("@"):
            self.sens(); self.stmt(); return ("unsupported", "event control")
        if k == "id" and self.kind(1) == "op" and self.peek(1) in (";",) : n = self.next(); self.next(); return ("task", n, [])
        if k == "id" and self.peek(1) == "(":
            n = self.next(); self.next(); a = []
            if not self.acc(")"):
                a.append(self.expr())
                while self.acc(","): a.append(self.expr())
                self.exp(")")
            self.exp(";"); return ("task", n, a)
        a = self.asg(); self.exp(";"); return a

    def asg(self):
        l = self.lvalue()
        if self.acc("<="): k = "nba"
        else: self.exp("="); k = "ba"
        if self.acc("#"): self.primary()
        return (k, l, self.expr())

    def sens(self):
        if self.acc("*"): return None
        if self.kind() == "id": return [("", ("id", self.next()))]
        self.exp("(")
        if self.acc("*"): self.exp(")"); return None
        r = []
        while True:
            e = self.next() if self.peek() in ("posedge", "negedge") else ""
            r.append((e, self.expr()))
            if self.acc(")"): return r
            if not (self.acc("or") or self.acc(",")): self.err("sensitivity list")

    # declarations
    def range(self):
        if self.acc("["):
            a = self.expr(); self.exp(":"); b = self.expr(); self.exp("]"); return (a, b)
        return None

    def params(self, local):
        self.acc("integer"); sg = self.acc("signed"); r = self.range(); sg = sg or self.acc("signed")
        out = []
        while True:
            n = self.ident(); self.exp("="); out.append(("param", n, r, sg, self.expr(), local))
            if self.peek() == "," and self.kind(1) == "id" and self.peek(2) == "=": self.next(); continue
            return out

    def decl(self):
        if self.peek() in ("parameter", "localparam"):
            l = self.next() == "localparam"; r = self.params(l); self.exp(";"); return r
        dr = None
        if self.peek() in ("input", "output", "inout"): dr = self.next()
        kind = None
        while self.peek() in NETS: kind = self.next()
        sg = self.acc("signed") or kind == "integer"
        if self.acc("unsigned"): sg = False
        r = self.range()
        ns = []
        while True:
            n = self.ident(); dims = []
            while self.peek() == "[": dims.append(self.range())
            i = self.expr() if self.acc("=") else None
            ns.append((n, dims, i))
            if not self.acc(","): break
        self.exp(";")
        return [("decl", kind, sg, r, ns, dr)]

    def module(self):
        self.next(); nm = self.ident(); items, ports = [], []
        if self.acc("#"):
            self.exp("(")
            while not self.acc(")"):
                self.acc("parameter"); items += self.params(False)
                self.acc(",")
        if self.acc("("):
            dr = kind = r = None; sg = False
            while not self.acc(")"):
                if self.peek() in ("input", "output", "inout"):
                    dr = self.next(); kind = None; sg = False
                    while self.peek() in NETS: kind = self.next()
                    sg = self.acc("signed") or kind == "integer"; r = self.range()
                elif self.peek() in NETS: kind = self.next(); sg = self.acc("signed"); r = self.range()
                if self.acc("."):
                    self.err("port expressions are not supported")
                n = self.ident(); dims = []
                while self.peek() == "[": dims.append(self.range())
                i = self.expr() if self.acc("=") else None
                ports.append(n)
                if dr: items.append(("decl", kind, sg, r, [(n, dims, i)], dr))
                self.acc(",")
        self.exp(";")
        items += self.items("endmodule")
        return nm, ports, items

    def items(self, end):
        r = []
        while not self.acc(end): r += self.item()
        return r

    def genblock(self):
        """items, label"""
        if self.acc("begin"):
            lab = self.ident() if self.acc(":") else None
            r = self.items("end")
            if self.acc(":"): self.ident()
            return r, lab
        return self.item(), None

    def item(self):
        p = self.peek()
        if self.acc(";"): return []
        if self.kind() != "id": self.err("item expected")
        if p in ("parameter", "localparam", "input", "output", "inout") or p in NETS: return self.decl()
        if p == "assign":
            self.next(); r = []
            if self.acc("#"): self.primary()
            while True:
                l = self.lvalue(); self.exp("="); r.append(("assign", l, self.expr()))
                if not self.acc(","): break
            self.exp(";"); return r
        if p == "always":
            self.next()
            if self.acc("@"): s = self.sens(); return [("always", s, self.stmt())]
            self.stmt(); return [("unsupported", "always without event control")]
        if p in ("always_comb", "always_ff"):
            self.next(); s = self.sens() if self.acc("@") else None; return [("always", s, self.stmt())]
        if p == "initial": self.next(); return [("initial", self.stmt())]
        if p == "genvar":
            self.next(); self.ident()
            while self.acc(","): self.ident()
            self.exp(";"); return []
        if p == "generate": self.next(); return [x for x in self.items("endgenerate")]
        if p == "for":
            self.next(); self.exp("("); self.acc("genvar"); i = self.asg(); self.exp(";"); c = self.expr(); self.exp(";"); s = self.asg(); self.exp(")")
            b, lab = self.genblock()
            return [("genfor", i[1][1], i[2], c, s[2], lab, b)]
        if p == "if":
            self.next(); self.exp("("); c = self.expr(); self.exp(")"); a = self.genblock()
            b = self.genblock() if self.acc("else") else ([], None)
            return [("genif", c, a, b)]
        if p == "case":
            self.next(); self.exp("("); e = self.expr(); self.exp(")"); its = []
            while not self.acc("endcase"):
                if self.acc("default"): self.acc(":"); its.append((None, self.genblock()))
                else:
                    ls = [self.expr()]
                    while self.acc(","): ls.append(self.expr())
                    self.exp(":"); its.append((ls, self.genblock()))
            return [("gencase", e, its)]
        if p == "begin":
            b, lab = self.genblock(); return [("genif", ("num", None, True, 1, 0), (b, lab), ([], None))]
        if p == "function":
            self.next(); self.acc("automatic"); sg = self.acc("signed"); r = None; isint = False
            if self.acc("integer"): isint = True
            else: r = self.range()
            n = self.ident(); args, ds = [], []
            if self.acc("("):
                sg2 = False; r2 = None
                while not self.acc(")"):
                    if self.acc("input"):
                        self.acc("reg"); it = self.acc("integer"); sg2 = self.acc("signed") or it; r2 = self.range()
                        if it: r2 = (("num", None, True, 31, 0), ("num", None, True, 0, 0))
                    args.append(("decl", None, sg2, r2, [(self.ident(), [], None)], "input")); self.acc(",")
            self.exp(";")
            while self.peek() in NETS or self.peek() in ("input", "localparam", "parameter"): ds += self.decl()
            ss = []
            while not self.acc("endfunction"): ss.append(self.stmt())
            return [("func", n, r, sg or isint, isint, args + ds, ss)]
        if p == "task":
            while not self.acc("endtask"): self.next()
            return []
        if p in ("specify",):
            while not self.acc("endspecify"): self.next()
            return []
        if p == "defparam":
            while not self.acc(";"): self.next()
            return [("unsupported", "defparam")]
        if p in GATES:
            self.next(); r = []
            while True:
                if self.kind() == "id": self.next()
                self.exp("("); a = [self.expr()]
                while self.acc(","): a.append(self.expr())
                self.exp(")"); r.append(("gate", p, a))
                if not self.acc(","): break
            self.exp(";"); return r
        # instance
        mod = self.ident(); ps = []
        if self.acc("#"):
            if self.acc("("): ps = self.conns()
            else: ps = [(None, self.primary())]
        r = []
        while True:
            n = self.ident() if self.kind() == "id" else None
            if self.peek() == "[": self.err("instance arrays are not supported")
            self.exp("("); r.append(("inst", mod, ps, n, self.conns()))
            if not self.acc(","): break
        self.exp(";")
        return r

    def conns(self):
        r = []
        if self.acc(")"): return r
        while True:
            if self.acc("."):
                n = self.ident(); self.exp("("); e = None if self.peek() == ")" else self.expr(); self.exp(")"); r.append((n, e))
            elif self.peek() in (",", ")"): r.append((None, None))
            else: r.append((None, self.expr()))
            if self.acc(")"): return r
            self.exp(",")


def parse_file(path, dirs=(), defs=()):
    """{module: (ports, items, file)}"""
    pre = Pre(list(dirs))
    for d in defs: pre.d[d] = (None, "1")
    ps = Parser(lex(pre.file(path)))
    r = {}
    while ps.kind() != "eof":
        if ps.peek() in ("module", "macromodule"):
            nm, ports, items = ps.module(); r[nm] = (ports, items, path)
        else: ps.next()
    return r
