"""Two-party sessions: job construction, expected results, verdicts, transcript parsing."""
from lib import circ

CONS, SEP, LAST = 0, 1, 2


class Exp:
    """what both parties must report"""
    def __init__(s, c, v, cc, mask=0, period=0):
        outs, s.done, s.trace = circ.simulate(c, v, cc, period, trace=True)
        s.outs = outs
        n = len(c.outs)
        s.n = n
        s.full = [circ.pack(o) for o in outs]
        m = mask & ((1 << n) - 1)
        s.a = [x & m for x in s.full]
        s.b = [x & ~m for x in s.full]


def render(vals, n, mode):
    """value of an output string: int for consecutive/last, list for separated"""
    if mode == CONS: return sum(x << (i * n) for i, x in enumerate(vals))
    if mode == LAST: return vals[-1]
    return list(vals)


def parse_out(s, mode):
    try:
        if mode == SEP: return [int(x, 16) for x in s.split("\n")]
        return int(s, 16)
    except ValueError:
        return ("unparsable", s)


def job(id, scd, v, cc, mask="0", mode=0, ot=False, low=False, period=0, r=None, **kw):
    j = dict(id=id, kind="gc", scd=scd, cc=cc, mask=mask if isinstance(mask, str) else "%X" % mask,
             mode=mode, disable_ot=0 if ot else 1, low_mem=int(low), period=period)
    for k, x in v.items(): j[k] = circ.hexv(x, r)
    j.update(kw)
    j.setdefault("_cost", 30 if ot else 1)
    return j


def sanity(res, roles="AB"):
    """a problem common to all sessions: crash, sanitizer report, hang; None if clean"""
    if res.get("unconfirmed"): return None
    if res.get("stalled"): return ("hang", "the session deadlocked: both processes asleep and nothing in flight (confirmed by a second run: %s)" % bool(res.get("reran")))
    for k in roles:
        x = res[k]
        if x.get("san"): return ("san", "%s: %s" % (k, x.get("err", "")[:1800]))
        if x.get("status", "").startswith("signal:"): return ("crash", "%s died of %s: %s" % (k, x["status"], x.get("err", "")[-600:]))
        if x.get("status") not in ("exit:0",) and not res.get("timeout"):
            return ("exit", "%s ended with %s: %s" % (k, x.get("status"), x.get("err", "")[-600:]))
    return None


def verdict(res, exp, mode, n):
    """None if the session went right, else (kind, text)"""
    if res.get("timeout") and not res.get("stalled"): return None if not res.get("reran") else ("hang", "no end within the doubled time limit")
    p = sanity(res)
    if p: return p
    for k, e in (("A", exp.a), ("B", exp.b)):
        x = res[k]
        if x.get("ret") != "0":
            return ("fail", "%s reported failure (ret=%s): %s" % (k, x.get("ret"), x.get("err", "")[-800:]))
        got, want = parse_out(x.get("out", ""), mode), render(e, n, mode)
        if got != want:
            h = lambda z: ("%X" % z) if isinstance(z, int) else ([("%X" % q) for q in z] if isinstance(z, list) else z)
            return ("value", "%s printed %s, expected %s" % (k, h(got), h(want)))
    return None


class Cursor:
    def __init__(s, b): s.b, s.p = b, 0
    def take(s, n):
        if s.p + n > len(s.b): raise ValueError("stream too short: need %d at %d of %d" % (n, s.p, len(s.b)))
        x = s.b[s.p:s.p + n]; s.p += n
        return x
    def u32(s): return int.from_bytes(s.take(4), "little")
    def u64(s): return int.from_bytes(s.take(8), "little")
    def bn(s):
        n = int.from_bytes(s.take(4), "little", signed=True)
        if n < 0: raise ValueError("negative size")
        return int.from_bytes(s.take(n), "big")
    def left(s): return len(s.b) - s.p


def table_counts(ab_after_labels, cycles, term_bytes=0):
    pass
