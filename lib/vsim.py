"""Executes Verilog designs (lib/vparse.py) by elaborating them to Python code.

Two-valued: x and z literals read as 0 (case wildcards excepted), registers and memories start as 0 (or `fill`),
reads outside a vector or memory give 0, writes outside are lost.
Combinational processes (assign, gates, always @*, port connections) are ordered by their bit-exact dependencies;
a dependency cycle is iterated to a fixpoint (and refused when there is none).  Clocked processes see the settled values and
commit their nonblocking assignments together."""
import sys
from lib.vparse import VError, parse_file

sys.setrecursionlimit(20000)


class Sig:
    __slots__ = ("slot", "w", "sg", "l", "r", "dims", "lo", "n", "name")

    def __init__(self, name, slot, w, sg, l, r, dims=(), lo=0, n=1):
        self.name, self.slot, self.w, self.sg, self.l, self.r, self.dims, self.lo, self.n = name, slot, w, sg, l, r, dims, lo, n


class Loc:      # a variable of a function
    __slots__ = ("py", "w", "sg", "l", "r", "dims", "n")

    def __init__(self, py, w, sg, l, r): self.py, self.w, self.sg, self.l, self.r, self.dims, self.n = py, w, sg, l, r, (), 1


class Par:
    __slots__ = ("v", "w", "sg")

    def __init__(self, v, w=32, sg=True): self.v, self.w, self.sg = v, w, sg


class Scope:
    def __init__(self, up, name): self.up, self.name, self.d = up, name, {}

    def get(self, n):
        s = self
        while s:
            if n in s.d: return s.d[n]
            s = s.up
        return None


class Ctx:
    """a process being generated: what it reads and writes, its lines"""

    def __init__(self, nba): self.R, self.W, self.nba, self.lines, self.ind, self.tmp, self.fn = [], [], nba, [], 0, 0, False

    def line(self, s): self.lines.append(" " * self.ind + s)

    def new(self):
        self.tmp += 1; return "t%d" % self.tmp


class Endless(VError):
    """a procedural loop that does not end"""


def M(w): return (1 << w) - 1


def _sx(v, w):
    h = 1 << (w - 1)
    return (v ^ h) - h


def _div(a, b, m): return (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)) & m if b else m
def _mod(a, b, m): return (abs(a) % abs(b) * (-1 if a < 0 else 1)) & m if b else a & m
def _pow(a, b, m): return (pow(a, b, m + 1) if b >= 0 else (1 if a == 1 else 0)) & m
def _shl(a, b, w): return (a << b) & M(w) if b < w else 0
def _sar(a, b, w): return (_sx(a, w) >> min(b, w)) & M(w)
def _par(v): return v.bit_count() & 1


def _clog2(v): return max(0, (v - 1).bit_length()) if v > 0 else 0


BASE = dict(_sx=_sx, _div=_div, _mod=_mod, _pow=_pow, _shl=_shl, _sar=_sar, _par=_par)
CMP = {"==", "!=", "===", "!==", "<", "<=", ">", ">="}


class Design:
    def __init__(self, mods, top, params=None, black=None, fill=None):
        """mods: {name: (ports, items, file)}; params: {name: int}; black: {module: (parameter names, [(port, dir, width function)], function)}"""
        self.mods, self.black = mods, black or {}
        self.S, self.wid, self.names, self.mask = [], [], {}, []
        self.comb, self.seq, self.init = [], [], []
        self.ns = dict(BASE); self.ns["S"] = self.S; self.nf = 0; self.fill = fill
        self.cc = {}
        self.ports = {}
        sc = Scope(None, top)
        self.module(top, sc, [(k, Par(v, 32 if -(1 << 31) <= v < 1 << 32 else max(v.bit_length() + 1, 32), True)) for k, v in (params or {}).items()], None)
        self.finish()

    # ---- storage
    def slot(self, w, n=1):
        s = len(self.S)
        self.S += [0] * n; self.wid += [w] * n
        if len(self.S) > 4000000: raise VError("design too large")
        return s

    def where(self, slot, bits):
        """name of a stored signal"""
        b = (bits & -bits).bit_length() - 1
        for n, g in self.names.items():
            if isinstance(g, Sig) and g.slot <= slot < g.slot + g.n: return "%s[%d]" % (n, b)
        for n, (d, g) in self.ports.items():
            if g.slot <= slot < g.slot + g.n: return "%s[%d]" % (n, b)
        return "bit %d of an inner signal" % b

    # ---- constant expressions
    def const(self, e, sc):
        """value as a Python int (signed when the expression is)"""
        k = e[0]
        if k == "num": return e[3] if not (e[2] and e[1]) else _sx(e[3], e[1])
        if k == "id":
            p = sc.get(e[1])
            if isinstance(p, Par): return p.v
            raise VError("%s is not constant" % e[1])
        if k == "bin" and e[1] in "+-*" and e[1] != "**":
            a, b = self.const(e[2], sc), self.const(e[3], sc)
            v = a + b if e[1] == "+" else a - b if e[1] == "-" else a * b
            w, s = self.size(e, sc)
            v &= M(w)
            return _sx(v, w) if s else v
        w, s = self.size(e, sc)
        c = Ctx(False)
        t = self.gen(e, w, s, sc, c)
        if c.R: raise VError("constant expression reads a signal")
        v = int(eval(t, self.ns))
        return _sx(v, w) if s and w else v

    def constpar(self, e, sc):
        if e[0] == "str":
            v = int.from_bytes(e[1].encode(), "big"); return Par(v, 8 * max(1, len(e[1])), False)
        if e[0] == "real": return Par(e[1], 0, True)
        w, s = self.size(e, sc)
        return Par(self.const(e, sc), w, s)

    def isconst(self, e, sc):
        k = e[0]
        if k in ("num", "str"): return True
        if k == "id": return isinstance(sc.get(e[1]), Par)
        if k == "un": return self.isconst(e[2], sc)
        if k == "bin": return self.isconst(e[2], sc) and self.isconst(e[3], sc)
        if k == "cond": return all(self.isconst(x, sc) for x in e[1:])
        if k == "cat": return all(self.isconst(x, sc) for x in e[1])
        if k == "rep": return self.isconst(e[1], sc) and self.isconst(e[2], sc)
        if k in ("sys", "call"): return all(self.isconst(x, sc) for x in e[2])
        if k in ("idx", "rng", "up", "down"): return all(self.isconst(x, sc) for x in e[1:])
        return False

    # ---- sizes
    def size(self, e, sc):
        k = e[0]
        if k == "num": return (e[1] if e[1] is not None else max(32, e[3].bit_length() + (1 if e[2] and e[3] >= 1 << 31 and e[3] >> 32 else 0)), e[2])
        if k == "id":
            s = sc.get(e[1])
            if s is None: raise VError("%s: unknown identifier %s" % (sc.name, e[1]))
            if isinstance(s, (Par, Sig, Loc)): return s.w, s.sg
            raise VError("%s is not a value" % e[1])
        if k == "idx":
            b, n = self.base(e, sc)
            if n is None: return 1, False
            return (b.w, b.sg)
        if k == "rng":
            a, b = self.const(e[2], sc), self.const(e[3], sc); return abs(a - b) + 1, False
        if k in ("up", "down"): return self.const(e[3], sc), False
        if k == "un":
            if e[1] in ("~", "-", "+"): return self.size(e[2], sc)
            return 1, False
        if k == "bin":
            o = e[1]
            if o in CMP or o in ("&&", "||"): return 1, False
            a, s = self.size(e[2], sc)
            if o in ("<<", ">>", "<<<", ">>>", "**"): return a, s
            b, t = self.size(e[3], sc)
            return max(a, b), s and t
        if k == "cond":
            a, s = self.size(e[2], sc); b, t = self.size(e[3], sc); return max(a, b), s and t
        if k == "cat": return sum(self.size(x, sc)[0] for x in e[1]), False
        if k == "rep": return self.const(e[1], sc) * self.size(e[2], sc)[0], False
        if k == "str": return 8 * max(1, len(e[1])), False
        if k == "sys":
            if e[1] == "$signed": return self.size(e[2][0], sc)[0], True
            if e[1] == "$unsigned": return self.size(e[2][0], sc)[0], False
            if e[1] in ("$clog2", "$bits"): return 32, True
            raise VError("%s is not supported" % e[1])
        if k == "call": f = self.func(e[1], sc); return f[1], f[2]
        if k == "dot": raise VError("hierarchical names are not supported")
        raise VError("expression %s" % k)

    def base(self, e, sc):
        """(signal, indices) of an indexed name; indices None when the last index selects a bit"""
        idx = []
        while e[0] == "idx": idx.insert(0, e[2]); e = e[1]
        if e[0] != "id": raise VError("select of a non-name")
        s = sc.get(e[1])
        if s is None: raise VError("%s: unknown identifier %s" % (sc.name, e[1]))
        if isinstance(s, (Par, Loc)):
            if len(idx) > 1: raise VError("too many indices")
            return s, None
        d = len(s.dims)
        if len(idx) == d: return s, idx
        if len(idx) == d + 1: return s, None
        raise VError("%s: %s needs %d indices" % (sc.name, e[1], d))

    # ---- reading
    def element(self, s, idx, sc, c):
        """slot expression of an array element: (constant slot or None, python text, guard or None)"""
        if not s.dims: return s.slot, None, None
        off, parts, guards = 0, [], []
        st = s.n
        for (a, b), i in zip(s.dims, idx):
            n = abs(a - b) + 1; st //= n; lo = min(a, b); rev = a > b
            if self.isconst(i, sc):
                v = self.const(i, sc) - lo
                if not 0 <= v < n: return -1, None, None
                off += v * st
            else:
                w, sg = self.size(i, sc)
                t = c.new()
                x = self.gen(i, w, sg, sc, c)
                if sg: x = "_sx(%s,%d)" % (x, w)
                if lo: x = "%s-%d" % (x, lo)
                parts.append((t, st)); guards.append("0<=(%s:=%s)<%d" % (t, x, n))
        if not parts: return s.slot + off, None, None
        return None, "+".join([str(s.slot + off)] + [t if m == 1 else "%s*%d" % (t, m) for t, m in parts]), " and ".join(guards)

    def readsig(self, s, idx, sc, c, lo=0, w=None):
        """text for w bits from lo (within the element) of a signal"""
        if isinstance(s, Par): v = s.v & M(s.w); return str((v >> lo) & M(w)) if w is not None else str(v)
        full = s.w
        if isinstance(s, Loc): t = s.py; base = 0
        else:
            k, t, g = self.element(s, idx or (), sc, c)
            base = s.lo
            if k == -1: return "0"
            if k is not None:
                c.R.append((k, (M(w if w is not None else full) << (lo + base)))); t = "S[%d]" % k; full = self.wid[k]
            else:
                for j in range(s.n): c.R.append((s.slot + j, M(s.w)))
                t = "(S[%s] if %s else 0)" % (t, g); full = s.w
        w = s.w if w is None else w
        lo += base
        if lo == 0 and w >= full: return t
        r = "%s>>%d" % (t, lo) if lo else t
        return "(%s&%d)" % (r, M(w)) if lo + w < full else "(%s)" % r

    def pos(self, s, e, sc, c):
        """bit position of index e: int, or text"""
        if self.isconst(e, sc):
            v = self.const(e, sc)
            return v - s.r if s.l >= s.r else s.r - v
        w, sg = self.size(e, sc)
        t = self.gen(e, w, sg, sc, c)
        if s.l >= s.r:
            return t if s.r == 0 else "((%s-%d)&0xffffffff)" % (("_sx(%s,%d)" % (t, w)) if sg else t, s.r)
        return "((%d-%s)&0xffffffff)" % (s.r, ("_sx(%s,%d)" % (t, w)) if sg else t)

    def select(self, e, sc, c):
        """(signal, element indices, position (int or text), width) of any select"""
        k = e[0]
        if k == "id":
            s = sc.get(e[1])
            if s is None: raise VError("%s: unknown identifier %s" % (sc.name, e[1]))
            if isinstance(s, Sig) and s.dims: raise VError("array %s used as a value" % e[1])
            return s, (), 0, s.w
        if k == "idx":
            s, idx = self.base(e, sc)
            if idx is not None: return s, idx, 0, s.w
            b = e[1]; ix = []
            while b[0] == "idx": ix.insert(0, b[2]); b = b[1]
            if isinstance(s, Par): s = self.parsig(s)
            return s, ix, self.pos(s, e[2], sc, c), 1
        b = e[1]; ix = []
        while b[0] == "idx": ix.insert(0, b[2]); b = b[1]
        s = sc.get(b[1]) if b[0] == "id" else None
        if s is None: raise VError("%s: bad part select" % sc.name)
        if isinstance(s, Par): s = self.parsig(s)
        if len(ix) != len(s.dims): raise VError("part select of an array")
        if k == "rng":
            p, q = self.pos(s, e[2], sc, c), self.pos(s, e[3], sc, c)
            if not (isinstance(p, int) and isinstance(q, int)): raise VError("part select bounds must be constant")
            return s, ix, min(p, q), abs(p - q) + 1
        w = self.const(e[3], sc)
        p = self.pos(s, e[2], sc, c)
        down = (k == "down") == (s.l >= s.r)
        if down: p = p - w + 1 if isinstance(p, int) else "(%s-%d)" % (p, w - 1)
        return s, ix, p, w

    def parsig(self, p):
        q = Loc(str(p.v & M(p.w)), p.w, p.sg, p.w - 1, 0); return q

    def read(self, e, sc, c):
        s, ix, p, w = self.select(e, sc, c)
        if isinstance(s, Par): return str(s.v & M(s.w))
        if isinstance(p, int):
            if p < 0:
                if p + w <= 0: return "0"
                return "(%s<<%d)" % (self.readsig(s, ix, sc, c, 0, w + p), -p)
            if p >= s.w: return "0"
            return self.readsig(s, ix, sc, c, p, min(w, s.w - p))
        t = self.readsig(s, ix, sc, c)
        if e[0] == "down" or (e[0] == "up" and s.l < s.r): return "_dsel(%s,%s,%d)" % (t, p, M(w))
        return "(%s>>%s&%d)" % (t, p, M(w))

    # ---- expressions
    def ext(self, t, w, W, sg):
        if W == w: return t
        if W < w: return "(%s&%d)" % (t, M(W))
        if sg and w: return "(_sx(%s,%d)&%d)" % (t, w, M(W))
        return t

    def bool(self, e, sc, c):
        if e[0] == "bin" and e[1] in ("&&", "||"):
            op = " and " if e[1] == "&&" else " or "
            l = []
            x = e
            while x[0] == "bin" and x[1] == e[1]: l.insert(0, x[3]); x = x[2]
            l.insert(0, x)
            return "(" + op.join(self.bool(y, sc, c) for y in l) + ")"
        if e[0] == "un" and e[1] == "!": return "(not %s)" % self.bool(e[2], sc, c)
        w, s = self.size(e, sc)
        t = self.gen(e, w, s, sc, c)
        return t

    def gen(self, e, W, sg, sc, c):
        """text of the value of e in a context of width W and signedness sg, an int in [0, 2^W)"""
        k = e[0]
        if k == "num":
            v = e[3]
            w = e[1] if e[1] is not None else self.size(e, sc)[0]
            if sg and e[2] and W > w and v >> (w - 1) & 1: v = _sx(v, w) & M(W)
            return str(v & M(W))
        if k == "id":
            s = sc.get(e[1])
            if isinstance(s, Par):
                v = s.v
                if not sg: v &= M(s.w)
                return str(v & M(W))
        if k in ("id", "idx", "rng", "up", "down"):
            w, s = self.size(e, sc)
            return self.ext(self.read(e, sc, c), w, W, sg and s)
        if k == "un":
            o = e[1]
            if o == "+": return self.gen(e[2], W, sg, sc, c)
            if o == "~":
                return "(%s^%d)" % (self.gen(e[2], W, sg, sc, c), M(W))
            if o == "-": return "(-%s&%d)" % (self.gen(e[2], W, sg, sc, c), M(W))
            if o == "!": return self.bool(e, sc, c)
            w, s = self.size(e[2], sc)
            t = self.gen(e[2], w, s, sc, c)
            if o == "&": return "(%s==%d)" % (t, M(w))
            if o == "~&": return "(%s!=%d)" % (t, M(w))
            if o == "|": return "(%s!=0)" % t
            if o == "~|": return "(%s==0)" % t
            if o == "^": return "_par(%s)" % t
            return "(_par(%s)^1)" % t
        if k == "bin":
            o = e[1]
            if o in ("&&", "||"): return self.bool(e, sc, c)
            if o in CMP:
                a, s = self.size(e[2], sc); b, t = self.size(e[3], sc)
                w = max(a, b); s = s and t
                x, y = self.gen(e[2], w, s, sc, c), self.gen(e[3], w, s, sc, c)
                if o in ("===", "!=="): o = o[:2]
                if s and o not in ("==", "!="): x, y = "_sx(%s,%d)" % (x, w), "_sx(%s,%d)" % (y, w)
                return "(%s%s%s)" % (x, o, y)
            if o in ("&", "|", "^"):
                l = []
                x = e
                while x[0] == "bin" and x[1] == o: l.insert(0, x[3]); x = x[2]
                l.insert(0, x)
                return "(" + o.join(self.gen(y, W, sg, sc, c) for y in l) + ")"
            if o in ("~^", "^~"): return "(%s^%s^%d)" % (self.gen(e[2], W, sg, sc, c), self.gen(e[3], W, sg, sc, c), M(W))
            if o in ("<<", ">>", "<<<", ">>>", "**"):
                b, t = self.size(e[3], sc)
                x, y = self.gen(e[2], W, sg, sc, c), self.gen(e[3], b, t, sc, c)
                if o == "**": return "_pow(%s,%s,%d)" % ("_sx(%s,%d)" % (x, W) if sg else x, "_sx(%s,%d)" % (y, b) if t else y, M(W))
                if o in ("<<", "<<<"):
                    if y.isdigit(): return "(%s<<%s&%d)" % (x, y, M(W)) if int(y) < W else "0"
                    return "_shl(%s,%s,%d)" % (x, y, W)
                if o == ">>>" and sg: return "_sar(%s,%s,%d)" % (x, y, W)
                return "(%s>>%s)" % (x, y)
            x, y = self.gen(e[2], W, sg, sc, c), self.gen(e[3], W, sg, sc, c)
            if o in ("/", "%"):
                if sg: x, y = "_sx(%s,%d)" % (x, W), "_sx(%s,%d)" % (y, W)
                return "%s(%s,%s,%d)" % ("_div" if o == "/" else "_mod", x, y, M(W))
            return "(%s%s%s&%d)" % (x, o, y, M(W)) if o != "*" else "(%s*%s&%d)" % (x, y, M(W))
        if k == "cond":
            r, x = "", e
            while x[0] == "cond":
                if self.isconst(x[1], sc):
                    x = x[2] if self.const(x[1], sc) else x[3]
                    if x[0] != "cond": break
                    continue
                r += "%s if %s else " % (self.gen(x[2], W, sg, sc, c), self.bool(x[1], sc, c)); x = x[3]
            return "(" + r + self.gen(x, W, sg, sc, c) + ")"
        if k == "cat":
            ts, p = [], 0
            for x in reversed(e[1]):
                w, s = self.size(x, sc)
                if w <= 0: continue
                t = self.gen(x, w, s, sc, c)
                if t != "0": ts.append("%s<<%d" % (t, p) if p else t)
                p += w
            return self.ext("(" + "|".join(ts) + ")" if ts else "0", p, W, False)
        if k == "rep":
            n = self.const(e[1], sc); w, s = self.size(e[2], sc)
            if n <= 0 or w == 0: return "0"
            t = self.gen(e[2], w, s, sc, c)
            return self.ext("(%s*%d)" % (t, sum(1 << (i * w) for i in range(n))), n * w, W, False)
        if k == "str":
            return str(int.from_bytes(e[1].encode(), "big") & M(W))
        if k == "sys":
            if e[1] in ("$signed", "$unsigned"):
                w, s = self.size(e[2][0], sc)
                return self.ext(self.gen(e[2][0], w, s, sc, c), w, W, sg and e[1] == "$signed")
            if e[1] == "$clog2": return str(_clog2(self.const(e[2][0], sc)) & M(W))
            if e[1] == "$bits": return str(self.size(e[2][0], sc)[0])
        if k == "call":
            f = self.func(e[1], sc)
            if len(e[2]) != len(f[3]): raise VError("%s: wrong number of arguments" % e[1])
            a = []
            for x, (w, s) in zip(e[2], f[3]):
                xw, xs = self.size(x, sc); ww = max(w, xw)
                a.append(self.ext(self.gen(x, ww, xs, sc, c), ww, w, False))
            c.R += f[4]
            return self.ext("%s(%s)" % (f[0], ",".join(["S"] + a)), f[1], W, sg and f[2])
        raise VError("expression %s" % k)

    # ---- functions
    def func(self, n, sc):
        f = sc.get(n)
        if isinstance(f, tuple) and f[0] == "fn": return f[1]
        if not (isinstance(f, tuple) and f[0] == "func"): raise VError("unknown function %s" % n)
        _, name, rng, sg, isint, decls, body = f[1]
        home = sc
        while n not in home.d: home = home.up
        s2 = Scope(home, home.name + "." + n)
        w = 32 if isint else 1
        l, r = w - 1, 0
        if rng: l, r = self.const(rng[0], home), self.const(rng[1], home); w = abs(l - r) + 1
        self.nf += 1
        py = "f%d" % self.nf
        ret = Loc("v_ret", w, sg, l, r)
        s2.d[n] = ret
        args, k, lines = [], 0, []
        for d in decls:
            if d[0] == "param": s2.d[d[1]] = self.constpar(d[4], s2); continue
            _, kind, dsg, dr, names, dirn = d
            dw = 32 if kind == "integer" else 1; dl, dq = dw - 1, 0
            if dr: dl, dq = self.const(dr[0], s2), self.const(dr[1], s2); dw = abs(dl - dq) + 1
            for nm, dims, i in names:
                if dims: raise VError("array in a function")
                k += 1; old = s2.d.get(nm)
                v = Loc("v%d" % k, dw, dsg, dl, dq)
                if isinstance(old, Loc) and nm != n and not dirn: v.py = old.py      # "input x; reg [..] x;"
                s2.d[nm] = v
                if dirn: args.append((v.py, dw, dsg))
                elif old is None: lines.append("%s=0" % v.py)
        info = [py, w, sg, [(a[1], a[2]) for a in args], []]
        home.d[n] = ("fn", info)                       # (recursion sees it)
        c = Ctx(False); c.fn = True; c.ind = 1
        c.line("v_ret=0")
        for x in lines: c.line(x)
        self.stmts(body, s2, c)
        c.line("return v_ret")
        info[4] = c.R
        exec("def %s(%s):\n%s" % (py, ",".join(["S"] + [a[0] for a in args]), "\n".join(c.lines)), self.ns)
        return info

    # ---- statements
    def stmts(self, ss, sc, c):
        if not ss: c.line("pass")
        for s in ss: self.stmt(s, sc, c)

    def loop(self, cond, body, sc, c):
        self.nf += 1; n = "k%d" % self.nf
        c.line("%s=0" % n); c.line("while %s:" % self.bool(cond, sc, c)); self.sub(body, sc, c)
        c.line(" %s+=1" % n); c.line(" if %s>1000000: raise Endless()" % n)

    def sub(self, s, sc, c):
        c.ind += 1; n = len(c.lines)
        self.stmt(s, sc, c)
        if len(c.lines) == n: c.line("pass")
        c.ind -= 1

    def stmt(self, s, sc, c):
        k = s[0]
        if k == "null": return
        if k == "block":
            if s[2]:
                s2 = Scope(sc, sc.name + "." + (s[1] or "blk"))
                for d in s[2]:
                    if d[0] == "param": s2.d[d[1]] = self.constpar(d[4], s2)
                    elif c.fn:
                        w = 32 if d[1] == "integer" else 1; l, r = w - 1, 0
                        if d[3]: l, r = self.const(d[3][0], sc), self.const(d[3][1], sc); w = abs(l - r) + 1
                        for nm, dims, i in d[4]: self.nf += 1; s2.d[nm] = Loc("b%d" % self.nf, w, d[2], l, r); c.line("b%d=0" % self.nf)
                    else: self.decl(d, s2, None)
                sc = s2
            for x in s[3]: self.stmt(x, sc, c)
        elif k in ("ba", "nba"): self.assign(s[1], s[2], sc, c, k == "nba" and c.nba)
        elif k == "if":
            c.line("if %s:" % self.bool(s[1], sc, c)); self.sub(s[2], sc, c)
            if s[3]: c.line("else:"); self.sub(s[3], sc, c)
        elif k == "case": self.case(s, sc, c)
        elif k == "for":
            self.stmt(s[1], sc, c)
            self.loop(s[2], ("block", None, [], [s[4], s[3]]), sc, c)
        elif k == "while": self.loop(s[1], s[2], sc, c)
        elif k == "repeat":
            w, sg = self.size(s[1], sc); c.line("for _ in range(%s):" % self.gen(s[1], w, sg, sc, c)); self.sub(s[2], sc, c)
        else: raise VError("statement %s %s is not supported" % (k, s[1] if len(s) > 1 else ""))

    def case(self, s, sc, c):
        _, kind, e, items = s
        labs = [x for ls, _ in items if ls for x in ls]
        w, sg = self.size(e, sc)
        for x in labs:
            a, b = self.size(x, sc); w = max(w, a); sg = sg and b
        t = c.new()
        c.line("%s=%s" % (t, self.gen(e, w, sg, sc, c)))
        first, dflt = True, None
        for ls, st in items:
            if ls is None: dflt = st; continue
            cs = []
            for x in ls:
                if kind != "case" and x[0] == "num" and x[4]:
                    m = M(w) & ~x[4]; cs.append("%s&%d==%d" % (t, m, x[3] & m))
                elif kind == "case" and x[0] == "num" and x[4]: cs.append("False")
                else: cs.append("%s==%s" % (t, self.gen(x, w, sg, sc, c)))
            c.line("%s %s:" % ("if" if first else "elif", " or ".join(cs))); first = False
            self.sub(st, sc, c)
        if dflt is not None:
            if first: self.stmt(dflt, sc, c)
            else: c.line("else:"); self.sub(dflt, sc, c)

    def lwidth(self, l, sc):
        if l[0] == "cat": return sum(self.lwidth(x, sc) for x in l[1])
        return self.size(l, sc)[0]

    def assign(self, l, r, sc, c, nba):
        w = self.lwidth(l, sc)
        a, s = self.size(r, sc); W = max(a, w)
        t = self.gen(r, W, s, sc, c)
        if W > w: t = "(%s&%d)" % (t, M(w))
        self.store(l, t, w, sc, c, nba)

    def store(self, l, t, w, sc, c, nba):
        if l[0] == "cat":
            v = c.new(); c.line("%s=%s" % (v, t)); p = 0
            for x in reversed(l[1]):
                xw = self.lwidth(x, sc)
                self.store(x, "(%s>>%d&%d)" % (v, p, M(xw)), xw, sc, c, nba); p += xw
            return
        s, ix, p, w2 = self.select(l, sc, c)
        if isinstance(s, Par): raise VError("assignment to a parameter")
        if isinstance(s, Loc):
            if isinstance(p, int):
                if p == 0 and w2 == s.w: c.line("%s=%s" % (s.py, t))
                elif 0 <= p < s.w: c.line("%s=%s&%d|(%s&%d)<<%d" % (s.py, s.py, M(s.w) ^ (M(w2) << p) & M(s.w), t, M(min(w2, s.w - p)), p))
            else:
                q = c.new(); c.line("%s=%s" % (q, p)); c.line("if 0<=%s<%d: %s=(%s&~(%d<<%s)|(%s)<<%s)&%d" % (q, s.w, s.py, s.py, M(w2), q, t, q, M(s.w)))
            return
        k, tx, g = self.element(s, ix, sc, c)
        if k == -1: return
        if k is not None: tx = str(k)
        ind = 0
        if g: c.line("if %s:" % g); c.ind += 1; ind = 1
        full = self.wid[s.slot]
        if isinstance(p, int):
            if p < 0: t = "(%s>>%d)" % (t, -p); w2 += p; p = 0
            if p < s.w and w2 > 0:
                if p + w2 > s.w: t = "(%s&%d)" % (t, M(s.w - p)); w2 = s.w - p
                p += s.lo; m = M(w2) << p
                if w2 == full: c.line("N.append((%s,-1,%s))" % (tx, t) if nba else "S[%s]=%s" % (tx, t))
                elif nba: c.line("N.append((%s,%d,%s))" % (tx, m, "%s<<%d" % (t, p) if p else t))
                else: c.line("S[%s]=S[%s]&%d|%s" % (tx, tx, M(full) ^ m, "%s<<%d" % (t, p) if p else t))
            else: c.line("pass")
            for j in ([k] if k is not None else range(s.slot, s.slot + s.n)): c.W.append((j, M(max(w2, 0)) << p))
        else:
            q = c.new(); c.line("%s=%s" % (q, p))
            v = c.new()
            c.line("if -%d<%s<%d:" % (w2, q, s.w)); c.ind += 1
            if w2 > 1:
                c.line("%s=%s" % (v, t))
                c.line("t_m,t_v=(%d<<%s,%s<<%s) if %s>=0 else (%d>>-%s,%s>>-%s)" % (M(w2), q, v, q, q, M(w2), q, v, q))
                c.line("t_m&=%d;t_v&=%d" % (M(s.w), M(s.w)))
            else: c.line("t_m=1<<%s;t_v=(%s)<<%s" % (q, t, q))
            if s.lo: c.line("t_m<<=%d;t_v<<=%d" % (s.lo, s.lo))
            c.line("N.append((%s,t_m,t_v))" % tx if nba else "S[%s]=S[%s]&~t_m|t_v" % (tx, tx))
            c.ind -= 1
            for j in ([k] if k is not None else range(s.slot, s.slot + s.n)): c.W.append((j, M(s.w) << s.lo))
        c.ind -= ind

    # ---- elaboration
    def decl(self, d, sc, bind):
        _, kind, sg, rng, names, dirn = d
        w = 32 if kind in ("integer", "time") else 1; l, r = w - 1, 0
        if rng: l, r = self.const(rng[0], sc), self.const(rng[1], sc); w = abs(l - r) + 1
        for n, dims, init in names:
            old = sc.d.get(n)
            if isinstance(old, Sig):
                if rng and not dims:
                    if old.w != w: raise VError("%s: two widths for %s" % (sc.name, n))
                    if sg: old.sg = True
                elif sg: old.sg = True
                if dims: raise VError("%s redeclared as an array" % n)
            else:
                al = bind.get(n) if bind and dirn else None
                if al is not None and not dims and al[2] == w:
                    sc.d[n] = Sig(n, al[0], w, sg, l, r, (), al[1]); bind[n] = "done"
                else:
                    dd = [(self.const(a, sc), self.const(b, sc)) for a, b in dims]
                    cnt = 1
                    for a, b in dd: cnt *= abs(a - b) + 1
                    sc.d[n] = Sig(n, self.slot(w, cnt), w, sg, l, r, dd, 0, cnt)
                if sc.name + "." + n not in self.names: self.names[sc.name + "." + n] = sc.d[n]
            if init is not None:
                if kind == "reg" or kind == "integer": self.init.append((("ba", ("id", n), init), sc))
                else: self.cassign(("id", n), init, sc)

    def cassign(self, l, r, sc):
        self.implicit(l, sc)
        c = Ctx(False); self.assign(l, r, sc, c, False); self.comb.append(c)

    def implicit(self, e, sc):
        """undeclared names of connections and assignments are one-bit wires"""
        if e is None: return
        if e[0] == "id" and sc.get(e[1]) is None: sc.d[e[1]] = Sig(e[1], self.slot(1), 1, False, 0, 0)
        elif e[0] == "cat":
            for x in e[1]: self.implicit(x, sc)

    def module(self, name, sc, params, bind, depth=0):
        if depth > 200: raise VError("instances nested too deep")
        ports, items, _ = self.mods[name]
        pn = [i[1] for i in items if i[0] == "param" and not i[5]]
        over = {}
        for k, (n, v) in enumerate(params):
            n = n or (pn[k] if k < len(pn) else None)
            if n not in pn: raise VError("%s has no parameter %s" % (name, n))
            over[n] = v
        sc.over = over
        self.body(items, sc, bind, depth, over)
        for p in ports:
            if not isinstance(sc.d.get(p), Sig): raise VError("%s: port %s is not declared" % (name, p))
        if depth == 0:
            dirs = {}
            for i in items:
                if i[0] == "decl" and i[5]:
                    for n, _, _ in i[4]: dirs[n] = i[5]
            for p in ports: self.ports[p] = (dirs[p], sc.d[p])

    def body(self, items, sc, bind, depth, over=None):
        late = []
        for i in items:
            if i[0] == "func": sc.d[i[1]] = ("func", i)
        for i in items:
            k = i[0]
            if k == "param":
                _, n, rng, sg, e, local = i
                p = over[n] if over and n in over and not local else self.constpar(e, sc)
                if rng:
                    w = abs(self.const(rng[0], sc) - self.const(rng[1], sc)) + 1
                    v = p.v & M(w); p = Par(_sx(v, w) if sg else v, w, sg)
                sc.d[n] = p
            elif k == "decl": self.decl(i, sc, bind)
            elif k == "func": pass
            else: late.append(i)
        for i in late:
            k = i[0]
            if k == "assign": self.cassign(i[1], i[2], sc)
            elif k == "gate": self.gate(i, sc)
            elif k == "always": self.always(i, sc)
            elif k == "initial": self.init.append((i[1], sc))
            elif k == "inst": self.inst(i, sc, depth)
            elif k == "genif":
                b = i[2] if self.const(i[1], sc) else i[3]
                self.body(b[0], Scope(sc, sc.name + ("." + b[1] if b[1] else "")), None, depth)
            elif k == "gencase":
                v = self.const(i[1], sc); d = None
                for ls, b in i[2]:
                    if ls is None: d = d or b
                    elif any(self.const(x, sc) == v for x in ls): d = b; break
                if d: self.body(d[0], Scope(sc, sc.name + ("." + d[1] if d[1] else "")), None, depth)
            elif k == "genfor":
                _, v, init, cond, step, lab, b = i
                s1 = Scope(sc, sc.name); s1.d[v] = Par(self.const(init, sc)); n = 0
                while self.const(cond, s1):
                    val = s1.d[v].v
                    s2 = Scope(sc, "%s.%s[%d]" % (sc.name, lab or "gen", val)); s2.d[v] = Par(val)
                    self.body(b, s2, None, depth)
                    s1.d[v] = Par(self.const(step, s1)); n += 1
                    if n > 100000: raise VError("generate loop does not end")
            else: raise VError("%s: %s is not supported" % (sc.name, i[1] if k == "unsupported" else k))

    def gate(self, g, sc):
        _, t, a = g
        for x in a: self.implicit(x, sc)
        if t in ("not", "buf"):
            for o in a[:-1]: self.cassign(o, ("un", "~", a[-1]) if t == "not" else a[-1], sc)
            return
        op = {"and": "&", "nand": "&", "or": "|", "nor": "|", "xor": "^", "xnor": "^"}[t]
        e = a[1]
        for x in a[2:]: e = ("bin", op, e, x)
        if t in ("nand", "nor", "xnor"): e = ("un", "~", e)
        self.cassign(a[0], e, sc)

    def always(self, i, sc):
        _, sens, st = i
        if sens and any(e for e, _ in sens):
            c = Ctx(True); ev = []
            for e, x in sens:
                if not e: raise VError("mixed sensitivity list")
                cc = Ctx(False); s, ix, p, w = self.select(x, sc, cc)
                ev.append((e, s.slot, s.lo + p))
            c.ind = 1
            self.stmt(st, sc, c); self.seq.append((ev, c))
        else:
            c = Ctx(False); self.stmt(st, sc, c); c.block = True
            self.comb.append(c)

    def direct(self, e, sc):
        """(slot, low bit, width) when e is a constant part of one signal"""
        if e[0] not in ("id", "idx", "rng"): return None
        c = Ctx(False)
        s, ix, p, w = self.select(e, sc, c)
        if not isinstance(s, Sig) or not isinstance(p, int) or p < 0 or p + w > s.w: return None
        k, t, g = self.element(s, ix, sc, c)
        if k is None or k < 0: return None
        return k, s.lo + p, w

    def inst(self, i, sc, depth):
        _, mod, ps, nm, conns = i
        path = sc.name + "." + (nm or "inst")
        for _, e in conns: self.implicit(e, sc)
        if mod in self.black: return self.blackbox(mod, ps, conns, sc)
        if mod not in self.mods: raise VError("%s: unknown module %s" % (path, mod))
        ports, items, _ = self.mods[mod]
        params = [(n, self.constpar(e, sc)) for n, e in ps if e is not None]
        cm = {}
        for k, (n, e) in enumerate(conns):
            if n is None:
                if e is None and len(conns) == 1: break
                if k >= len(ports): raise VError("%s: too many connections" % path)
                n = ports[k]
            if n not in ports: raise VError("%s: %s has no port %s" % (path, mod, n))
            cm[n] = e
        bind = {}
        for n, e in cm.items():
            if e is not None: bind[n] = self.direct(e, sc)
        s2 = Scope(None, path)
        self.module(mod, s2, params, bind, depth + 1)
        dirs = {}
        for it in items:
            if it[0] == "decl" and it[5]:
                for n, _, _ in it[4]: dirs[n] = it[5]
        for n, e in cm.items():
            if e is None or bind.get(n) == "done": continue
            s = s2.d[n]
            if s.dims: raise VError("array port")
            c = Ctx(False)
            if dirs[n] == "input":
                a, sg = self.size(e, sc); W = max(a, s.w)
                t = self.gen(e, W, sg, sc, c)
                if W > s.w: t = "(%s&%d)" % (t, M(s.w))
                self.store(("id", n), t, s.w, s2, c, False)
            else:
                w = self.lwidth(e, sc); c2 = Ctx(False)
                t = self.gen(("id", n), max(w, s.w), s.sg, s2, c)
                if s.w > w: t = "(%s&%d)" % (t, M(w))
                self.store(e, t, w, sc, c, False)
            self.comb.append(c)

    def blackbox(self, mod, ps, conns, sc):
        pn, ports, fn = self.black[mod]
        pv = {}
        for k, (n, e) in enumerate(ps):
            if e is not None: pv[n or pn[k]] = self.const(e, sc)
        cm = {}
        for k, (n, e) in enumerate(conns): cm[n or ports[k][0]] = e
        for n in cm:
            if n not in [p[0] for p in ports]: raise VError("%s has no port %s" % (mod, n))
        c = Ctx(False); ins, outs = [], []
        for n, d, w in ports:
            w = w(pv); e = cm.get(n)
            if d == "input":
                if e is None: ins.append("0"); continue
                a, sg = self.size(e, sc); W = max(a, w); t = self.gen(e, W, sg, sc, c)
                ins.append("(%s&%d)" % (t, M(w)))
            else: outs.append((n, w, e))
        self.nf += 1; f = "bb%d" % self.nf
        self.ns[f] = lambda *a, _f=fn, _p=pv: _f(_p, *a)
        t = c.new(); c.line("%s=%s(%s)" % (t, f, ",".join(ins)))
        for k, (n, w, e) in enumerate(outs):
            if e is None: continue
            lw = self.lwidth(e, sc)
            self.store(e, "(%s[%d]&%d)" % (t, k, M(min(w, lw))), lw, sc, c, False)
        self.comb.append(c)

    # ---- scheduling and code
    def finish(self):
        ns = self.ns
        ns["_dsel"] = lambda v, p, m: ((v >> p) if p >= 0 else (v << -p)) & m
        P = self.comb
        # bit-exact writers
        wr = {}
        for i, c in enumerate(P):
            ms = {}
            for k, m in c.W: ms[k] = ms.get(k, 0) | m
            c.Wm = ms
            for k, m in ms.items(): wr.setdefault(k, []).append((m, i))
        # bits with several drivers (their value would be unknown wherever the drivers differ)
        self.multi = []
        for k, l in wr.items():
            acc = 0
            for w, i in l:
                if acc & w: self.multi.append((k, acc & w))
                acc |= w
        bit = {}
        for k, l in wr.items():
            if len(l) > 8:
                d = {}
                for m, i in l:
                    b = 0
                    mm = m
                    while mm:
                        z = (mm & -mm).bit_length() - 1
                        d.setdefault(z, set()).add(i); mm &= mm - 1
                bit[k] = d
        n = len(P)
        pred = [set() for _ in range(n)]
        for i, c in enumerate(P):
            rs = {}
            for k, m in c.R: rs[k] = rs.get(k, 0) | m
            for k, m in rs.items():
                if k in c.Wm: m &= ~c.Wm[k] if getattr(c, "block", False) else -1
                if not m or k not in wr: continue
                if k in bit and m.bit_count() < len(wr[k]):
                    d = bit[k]
                    while m:
                        z = (m & -m).bit_length() - 1; m &= m - 1
                        if z in d: pred[i] |= d[z]
                else:
                    for wm, j in wr[k]:
                        if wm & m: pred[i].add(j)
            c.Rm = rs
        # strongly connected components (iterative Tarjan), predecessors first
        order, idx, low, on, st, cnt = [], [0] * n, [0] * n, [False] * n, [], 1
        for r in range(n):
            if idx[r]: continue
            work = [(r, iter(pred[r]))]; idx[r] = low[r] = cnt; cnt += 1; st.append(r); on[r] = True
            while work:
                v, it = work[-1]
                for u in it:
                    if not idx[u]:
                        idx[u] = low[u] = cnt; cnt += 1; st.append(u); on[u] = True
                        work.append((u, iter(pred[u]))); break
                    elif on[u]: low[v] = min(low[v], idx[u])
                else:
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            u = st.pop(); on[u] = False; comp.append(u)
                            if u == v: break
                        order.append(sorted(comp))
        # which components depend (transitively) on something that clocked processes or edges change
        self.loops = []
        seqw = set()
        for ev, c in self.seq:
            for k, m in c.W: seqw.add(k)
        dyn = [False] * n
        for comp in order:
            d = any(dyn[j] for i in comp for j in pred[i]) or any(k in seqw for i in comp for k in P[i].Rm) or any(k in seqw for i in comp for k in P[i].Wm)
            for i in comp: dyn[i] = d

        def code(comps, nm):
            fs, buf = [], []

            def flush():
                if buf:
                    f = "%s_%d" % (nm, len(fs)); exec(compile("def %s(S):\n%s" % (f, "\n".join(buf)), f, "exec"), ns); fs.append(ns[f]); buf.clear()
            for comp in comps:
                if len(comp) == 1 and comp[0] not in pred[comp[0]]:
                    buf += [" " + x for x in P[comp[0]].lines]
                else:
                    ks = sorted({k for i in comp for k in P[i].Wm}); self.loops.append(len(comp))
                    o = "(" + ",".join("S[%d]" % k for k in ks) + ",)"
                    buf += [" for _n in range(2000):", "  _o=" + o]
                    for i in comp: buf += ["  " + x for x in P[i].lines]
                    buf += ["  if _o==%s: break" % o, " else: raise Loop()"]
                if len(buf) > 3000: flush()
            flush()
            return fs
        ns["Loop"] = type("Loop", (VError,), {}); ns["Endless"] = Endless
        self.f_in = code([c for c in order if not dyn[c[0]]], "ci")
        self.f_dyn = code([c for c in order if dyn[c[0]]], "cd")
        self.procs = []
        for k, (ev, c) in enumerate(self.seq):
            f = "s%d" % k
            exec(compile("def %s(S,N):\n%s" % (f, "\n".join(c.lines) or " pass"), f, "exec"), ns)
            self.procs.append((ev, ns[f]))
        self.events = sorted({(s, b) for ev, _ in self.procs for _, s, b in ev})
        if self.fill is not None:
            for k in range(len(self.S)): self.S[k] = self.fill(self.wid[k])
        for st, sc in self.init:
            c = Ctx(False); c.ind = 1; self.stmt(st, sc, c)
            exec("def _init(S):\n%s" % ("\n".join(c.lines) or " pass"), ns); ns["_init"](self.S)
        for p, (d, s) in self.ports.items():
            if d == "input": self.S[s.slot] = 0
        self.ev = [0] * len(self.events)
        self.settle(True)
        self.ev = [self.S[s] >> b & 1 for s, b in self.events]
        self.stats = dict(processes=len(P), clocked=len(self.procs), slots=len(self.S), loops=len(self.loops))

    # ---- running
    def settle(self, full=False):
        S = self.S
        if full:
            for f in self.f_in: f(S)
        for f in self.f_dyn: f(S)

    def edges(self):
        S = self.S
        for _ in range(1000):
            now = [S[s] >> b & 1 for s, b in self.events]
            if now == self.ev: return
            ch = {e: ("posedge" if v else "negedge") for e, v, o in zip(self.events, now, self.ev) if v != o}
            self.ev = now
            N = []
            for ev, f in self.procs:
                if any(ch.get((s, b)) == e for e, s, b in ev): f(S, N)
            for k, m, v in N: S[k] = v if m == -1 else S[k] & ~m | v
            self.settle()
        raise VError("clocks do not settle")

    def set(self, **kv):
        for n, v in kv.items():
            d, s = self.ports[n]
            if d != "input": raise VError("%s is not an input" % n)
            self.S[s.slot] = v & M(s.w)
        self.settle(True); self.edges()

    def get(self, n):
        s = self.ports[n][1]
        return int(self.S[s.slot] >> s.lo & M(s.w))

    def width(self, n): return self.ports[n][1].w

    def tick(self, clk="clk"):
        """one rising and one falling edge"""
        s = self.ports[clk][1]
        self.S[s.slot] = 1; self.edges()
        self.S[s.slot] = 0
        for i, (k, b) in enumerate(self.events):
            if k == s.slot: self.ev[i] = 0

    def reset(self, rst="rst"):
        self.set(**{rst: 1}); self.set(**{rst: 0})


def load(files, dirs=()):
    mods = {}
    for f in files: mods.update(parse_file(f, dirs))
    return mods
