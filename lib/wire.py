"""Offline monitor of a recorded session without OT: walks both byte streams and attributes every
byte to a protocol item.  Raises ValueError when the streams do not have that shape."""
from lib import circ
from lib.sess import Cursor

TABLE = 48


class Secrecy:
    """which outputs / terminate bits are secret in which cycle, and which gates need tables
    (formal GF(2) tracking, see circ.public_cost)"""
    def __init__(s, c, v, cc, done):
        s.need, s.out_secret, s.term_secret = [], [], []
        s.c = c
        per = circ.public_cost(c, v, cc, done, want_out=True)
        for live, syn, outs, term in per:
            s.need.append((live, syn)); s.out_secret.append(outs); s.term_secret.append(term)


def take_ot(S, V, ext=False):
    """one oblivious transfer: S cursor over what the sender sent, V over what the receiver sent"""
    if not ext:
        n = S.u32()
        if n > 1 << 20: raise ValueError("oblivious transfer of %d messages" % n)
        t = dict(n=n, N=S.bn(), e=S.bn())
        t["x"] = [(S.bn(), S.bn()) for _ in range(n)]
        t["v"] = [V.bn() for _ in range(n)]
        t["c"] = [(S.bn(), S.bn()) for _ in range(n)]
        return t
    t = dict(base=take_ot(V, S))
    t["u"] = [V.bn() for _ in range(t["base"]["n"])]
    return t


def take_ext(S, V, n):
    t = take_ot(S, V, True)
    t["n"] = n
    t["y"] = [(S.bn(), S.bn()) for _ in range(n)]
    return t


def walk(c, sec, cc, done, mask, period, low, ab, ba, key=True, ot=False):
    """sec: Secrecy.  Returns dict(labels, tables per cycle, out_ab, out_ba, left)"""
    A, B = Cursor(ab), Cursor(ba)
    r = dict(labels=[], e_labels=[], tables=[], out_ab=[], out_ba=[], term=[], key=None, ots=[])
    low = low and cc > 1

    def labels(n, to):
        for _ in range(n): r[to].append(A.take(16))

    def chosen(n, what):
        """the evaluator's n labels"""
        if not ot:
            r[what] = B.bn(); labels(n, "e_labels")
        elif not (low and n == 0):
            r["ots"].append(take_ext(A, B, n) if n > 128 else take_ot(A, B))

    def tables():
        n = A.u64()
        if n > len(c.gates): raise ValueError("%d tables announced for %d gates" % (n, len(c.gates)))
        t = []
        for _ in range(n):
            b = A.take(TABLE)
            t.append((b[:16], b[16:32], int.from_bytes(b[32:36], "little"), b[36:]))
        r["tables"].append(t)

    def term(cid):
        if period and c.term > 0 and cid % period == 0:
            if sec.term_secret[cid]:
                r["term"].append((A.take(2), B.take(2)))

    def outputs(cid):
        for i in range(len(c.outs)):
            if sec.out_secret[cid][i]:
                if (mask >> i) & 1: r["out_ba"].append((cid, i, B.take(2)))
                else: r["out_ab"].append((cid, i, A.take(2)))
    if key: r["key"] = A.take(16)
    if not low:
        labels(c.gi + cc * c.g, "labels")
        if ot: chosen(c.ei + cc * c.e, "")
        else: chosen(c.ei, "e_init"); chosen(cc * c.e, "e_input")
        for cid in range(done):
            tables(); term(cid)
        for cid in range(done): outputs(cid)
    else:
        labels(c.gi, "labels")
        chosen(c.ei, "e_init")
        for cid in range(done):
            labels(c.g, "labels")
            chosen(c.e, "e_input")
            tables(); outputs(cid); term(cid)
    r["left"] = (A.left(), B.left())
    return r
