"""The tools that turn a linked processor program into its memory image: C32."""
import array, glob, os, re, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib import build as B, run as R

PROGBITS, SYMTAB, STRTAB, REL, NOBITS = 1, 2, 3, 9, 8
TNAME = {1: "SHT_PROGBITS", 2: "SHT_SYMTAB", 3: "SHT_STRTAB", 4: "SHT_RELA", 5: "SHT_HASH", 6: "SHT_DYNAMIC", 7: "SHT_NOTE", 8: "SHT_NOBITS", 9: "SHT_REL", 10: "SHT_SHLIB", 11: "SHT_DYNSYM",
         14: "SHT_INIT_ARRAY", 15: "SHT_FINI_ARRAY", 16: "SHT_PREINIT_ARRAY", 17: "SHT_GROUP", 18: "SHT_SYMTAB_SHNDX"}


class Sec:
    def __init__(s, name, typ, addr=0, data=b"", size=None, align=4):
        s.name, s.typ, s.addr, s.data, s.align = name, typ, addr, data, align
        s.size = len(data) if size is None else size
        s.off = 0


def elf(r, secs, machine=40, phnum=None, shentsize=40, first_null=True):
    """the bytes of a linked 32-bit little-endian file with these sections (string tables among them are filled in)"""
    names = b"\0"; pos = {}
    tab = [x for x in secs if x.name == ".shstrtab"][0]
    for x in (r.sample(secs, len(secs)) if r.random() < .5 else secs):
        if x.name not in pos: pos[x.name] = len(names); names += x.name.encode() + b"\0"
    tab.data, tab.size = names, len(names)
    hdrs = ([None] if first_null else []) + list(secs)
    out = bytearray(52)
    phnum = r.choice([0, 1, 1, 2, 3]) if phnum is None else phnum
    phoff = 52 if phnum else 0
    out += bytes(32 * phnum)
    early = r.random() < .2                       # section headers before the data
    def place_headers():
        out.extend(bytes(-len(out) % 4 + 4 * r.randrange(3)))
        o = len(out); out.extend(bytes(shentsize * len(hdrs)))
        return o
    shoff = place_headers() if early else 0
    for x in (r.sample(secs, len(secs)) if r.random() < .3 else secs):
        out.extend(bytes(r.randrange(256) for _ in range(-len(out) % x.align if r.random() < .8 else r.randrange(9))))   # filler is not part of any section
        x.off = len(out)
        if x.typ != NOBITS: out.extend(x.data)
    if not early: shoff = place_headers()
    for i in range(phnum):
        ld = [x for x in secs if x.typ in (PROGBITS, NOBITS)] or secs
        x = ld[i % len(ld)]
        struct.pack_into("<8I", out, phoff + 32 * i, 1 if i < 2 else 0x6474e551, x.off, x.addr, x.addr, x.size if x.typ != NOBITS else 0, x.size, 5, 4)
    for i, x in enumerate(hdrs):
        if x is None: continue
        struct.pack_into("<10I", out, shoff + shentsize * i, pos[x.name], x.typ, 3 if x.typ in (PROGBITS, NOBITS) else 0, x.addr, x.off, x.size, 0, 0, x.align, 0)
    struct.pack_into("<16sHHIIIIIHHHHHH", out, 0, b"\x7fELF\1\1\1" + bytes([0] * 9), 2, machine, 1, r.choice([0, 0, 0x8000]), phoff, shoff, 0x5000200, 52, 32 if phnum else r.choice([0, 32]), phnum, shentsize, len(hdrs), hdrs.index(tab))
    return bytes(out)


def random_sections(r):
    """what the linker script produces, and more: sections at rising addresses with gaps, zero data, tables around them"""
    big = r.random()
    addr = 0 if r.random() < .7 else r.choice([1, 4, 8, 64, 0x100, 0x1000, r.randrange(5000)])
    secs = []
    for k in range(r.choice([0, 1, 1, 2, 3, 4, 4, 5, 9])):
        typ = NOBITS if r.random() < .3 else PROGBITS
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 40, 127, 400, r.randrange(3000)])
        if big < .05: n = r.choice([5000, 65536, 70001])
        if typ == NOBITS and r.random() < .25: n = r.choice([4096, 20000, 65536, 300000, 1000003])   # zero data takes no room in the file
        if r.random() < .3: addr += r.choice([1, 2, 3, 4, 12, 100, 4096, 30000, 66000 if r.random() < .3 else 7])
        if r.random() < .6: addr += -addr % 4
        nm = (".text .data .rodata .bss .stack .rodata.str1.4 .init .fini .vectors .ARM.extab".split() + [""])[k if k < 5 and r.random() < .7 else r.randrange(11)]
        if typ == NOBITS and r.random() < .5: nm = ".bss"
        secs.append(Sec(nm, typ, addr, r.randbytes(n) if typ == PROGBITS else b"", n))
        addr += n
    if r.random() < .15 and len(secs) > 1: r.shuffle(secs)
    for nm, typ in ((".symtab", SYMTAB), (".rel.text", REL), (".ARM.attributes", 0x70000003), (".ARM.exidx", 0x70000001), (".init_array", 14), (".note", 7)):
        if r.random() < .35: secs.append(Sec(nm, typ, r.choice([0, 0, 4]) if typ not in (14, 0x70000001) else r.randrange(200), r.randbytes(r.randrange(60))))
    tabs = [Sec(".shstrtab", STRTAB, align=1)]
    if r.random() < .7: tabs.insert(r.randrange(2), Sec(".strtab", STRTAB, 0, b"\0main\0gc_main\0$a\0$d\0" + bytes(r.choice(b"abcxyz_\0") for _ in range(r.randrange(30))) + b"\0", align=1))
    if r.random() < .2: return tabs + secs
    return secs + tabs


def image(secs):
    n = max([x.addr + x.size for x in secs if x.typ in (PROGBITS, NOBITS) and x.size] or [0])
    m = bytearray(n)
    for x in secs:
        if x.typ == PROGBITS: m[x.addr:x.addr + x.size] = x.data
    return bytes(m)


def words(b): return [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]


def big(h):
    x = array.array("I", bytes.fromhex(h)); x.byteswap()
    return x


def judge_mem(text, secs):
    """what is wrong with the printed memory file, or None"""
    want = image(secs); com = []; A, V = [], []
    for l in text.split("\n"):
        if l.startswith("@"): A.append(l[1:9]); V.append(l[10:]); ok = len(l) == 18 and l[9] == " "
        elif l.startswith("//"): com.append(l); ok = True
        else: ok = not l.strip()
        if not ok: return "line %r" % l[:80]
    try: A, V = big("".join(A)), big("".join(V))
    except ValueError: return "a word that is not hexadecimal"
    if A != array.array("I", range(0, 4 * len(A), 4)):
        i = [k for k in range(len(A)) if A[k] != 4 * k][0]
        return "word %d is given address %#x" % (i, A[i])
    W = array.array("I", want + bytes(-len(want) % 4))
    if len(V) < len(W): return "%d words for an image of %d bytes" % (len(V), len(want))
    if V[:len(W)] != W:
        i = [k for k in range(len(W)) if V[k] != W[k]][0]
        return "the word at %#x is %08x, the program has %08x there" % (4 * i, V[i], W[i])
    if any(V[len(W):]) or len(V) > len(W) + 2: return "the image of %d bytes is followed by %s" % (len(want), ["%08x" % x for x in V[len(W):][:8]])
    # the comments name every section
    C = "\n".join(com); p = 0
    for x in secs:
        m = re.compile(r"// +Section name (.*)\n// +Type (\S+), Size 0x([0-9a-f]+), Start address 0x([0-9a-f]{8})").search(C, p)
        if not m: return "section %s is not listed" % x.name
        p = m.end()
        l = (m.group(1), m.group(2), int(m.group(3), 16), int(m.group(4), 16)); e = (x.name, TNAME.get(x.typ, "???"), x.size, x.addr)
        if l != e: return "section %r is listed as %r" % (e, l)
    if "Section name" in C[p:]: return "a section is listed that the file does not have: %s" % C[p:][:200]


SAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


def tools(ck):
    src = sorted(glob.glob(os.path.join(B.REPO, "a23", "tools", "*.c"))); t = {}
    for k, cc in (("san", ["gcc"] + SAN), ("plain", ["gcc"]), ("opt", ["clang", "-O2"]), ("msan", ["clang", "-g", "-O1", "-fsanitize=memory"])):
        t[k] = os.path.join(ck.wd, "es-" + k)
        q = subprocess.run(cc + ["-w"] + src + ["-o", t[k]], capture_output=True, text=True)
        if q.returncode: raise B.BuildError("%s: %s" % (" ".join(cc), q.stderr[-800:]))
    return t


def C32(ck):
    r = ck.rng
    ck.cov["rule"] = ("linked ARM files with random sections (code, data and zero data of every size and alignment, gaps, any file and header order, tables before and after, program headers or none) through the splitter built with "
                      "AddressSanitizer and UndefinedBehaviorSanitizer, MemorySanitizer, and uninstrumented with varied heap fill, then through the word extractor; printed memory compared word by word with the sections; files cut at every "
                      "kind of place, with wild header fields or of another kind have to end with a failure status or a complete image, never with a report; distinct by file")
    T = tools(ck)
    ENV = dict(R.ENV, ASAN_OPTIONS="allocator_may_return_null=1:detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=173", UBSAN_OPTIONS="halt_on_error=1", MSAN_OPTIONS="allocator_may_return_null=1:halt_on_error=1")
    code32 = os.path.join(B.REPO, "a23", "tools", "amber-code32.sh")

    def call(how, args, fill=0, env=None):
        e = dict(env or ENV)
        if fill: e["MALLOC_PERTURB_"] = str(fill)
        try: return subprocess.run([T[how]] + args, cwd=ck.wd, env=e, capture_output=True, timeout=120)
        except subprocess.TimeoutExpired: return None

    def bad(how, q):
        """a report or a crash"""
        if q is None: return "no end within 120 s"
        err = q.stderr.decode(errors="replace")
        if q.returncode < 0: return "killed by signal %d" % -q.returncode
        if re.search(r"ERROR: \w+Sanitizer|WARNING: MemorySanitizer|runtime error", err) and "failed to allocate" not in err[:200]:
            m = re.search(r"(ERROR: \w+Sanitizer: \S+|WARNING: MemorySanitizer: \S+|runtime error: [^\n]*)", err)
            return (m.group(1) if m else "sanitizer report") + err[-1500:]

    # -------- well-formed programs
    def good(i, seed, secs_f):
        import random
        q = random.Random(seed)
        secs = secs_f(q) if secs_f else random_sections(q)
        f = ck.file("p%d.elf" % i, elf(q, secs, shentsize=q.choice([40] * 9 + [48])))
        out = []
        n = sum(x.size for x in secs if x.typ == PROGBITS)
        hows = [("san", 0), ("plain", q.randrange(1, 256)), ("opt", q.randrange(1, 256))] + ([("msan", 0)] if i % 3 == 0 else []) if i % 4 == 0 or secs_f else [("san", 0), (q.choice(["plain", "opt"]), q.randrange(1, 256))]
        first = None
        for how, fill in hows:
            x = call(how, [q.choice([f, os.path.basename(f)])], fill)
            b = bad(how, x)
            if b: out.append(("report", "%s: a program of %d sections: %s" % (how, len(secs), b))); continue
            if x.returncode: out.append(("exit", "%s ended with %d for a valid program: %s" % (how, x.returncode, (x.stdout + x.stderr)[-300:]))); continue
            t = x.stdout.decode("latin-1")
            w = judge_mem(t, secs)
            if w: out.append(("image", "%s: %s" % (how, w)))
            first = first or t
        if first and not out and (i % 5 == 0 or secs_f):
            mem = ck.file("p%d.mem" % i, first.encode("latin-1")); dst = os.path.join(ck.wd, "p%d.txt" % i)
            x = subprocess.run([code32, mem, dst], cwd=ck.wd, capture_output=True, timeout=60)
            L = open(dst).read().split("\n") if os.path.exists(dst) else None
            W = words(image(secs))
            if x.returncode or L is None: out.append(("words-exit", "the word extractor ended with %d: %s" % (x.returncode, x.stderr[-300:])))
            else:
                if L and L[-1] == "": L.pop()
                odd = [l for l in L if len(l) != 8 or set(l) - set("0123456789abcdef")]
                if odd: out.append(("words", "the word file has %r" % odd[:3]))
                else:
                    v = [int(l, 16) for l in L]
                    if v[:len(W)] != W or any(v[len(W):]): out.append(("words", "the word file holds %d words that are not the %d of the program" % (len(v), len(W))))
                if os.path.exists(dst): os.remove(dst)
            os.remove(mem)
        k = (tuple((x.typ, x.addr, x.size, bytes(x.data)) for x in secs))
        if not out: os.remove(f)
        return k, out, f, len(words(image(secs)))

    def one(typ, addr, n):
        return lambda q: [Sec(".text" if typ == PROGBITS else ".bss", typ, addr, q.randbytes(n) if typ == PROGBITS else b"", n), Sec(".shstrtab", STRTAB, align=1)]
    fixed = [one(t, a, n) for t in (PROGBITS, NOBITS) for a in (0, 1, 2, 3, 4, 61) for n in (1, 2, 3, 4, 5, 7, 8, 64)] + [one(NOBITS, 0, 1 << 20), one(PROGBITS, 0, 1 << 18), one(PROGBITS, 1 << 20, 4), one(NOBITS, 0x30001, 3)]
    # many sections; code and then large zero data, as a program with arrays has
    fixed += [lambda q: [Sec(".s%d" % k, PROGBITS, 8 * k, q.randbytes(q.randrange(1, 9))) for k in range(q.choice([200, 300, 700]))] + [Sec(".shstrtab", STRTAB, align=1)] for _ in range(3)]
    fixed += [lambda q: [Sec(".text", PROGBITS, 0, q.randbytes(4 * q.randrange(10, 400))), Sec(".bss", NOBITS, 0x2000, size=q.choice([40000, 262144])), Sec(".shstrtab", STRTAB, align=1)] for _ in range(4)]
    work = [(i, r.getrandbits(64), f) for i, f in enumerate(fixed)] + [(len(fixed) + i, r.getrandbits(64), None) for i in range(ck.n(800, 12000))]
    with ThreadPoolExecutor(8) as ex:
        for k, out, f, n in ex.map(lambda a: good(*a), work):
            ck.case(k); ck.count("words_compared", n)
            for key, what in out: ck.violation(key, what, dict(elf=f))

    # -------- files that are something else, or damaged
    def hostile(i, data, must_fail, what):
        f = ck.file("h%d.elf" % i, data); out = []
        for how in ("san", "plain"):
            x = call(how, [f])
            b = bad(how, x)
            if b: out.append(("hostile-report", "%s: %s: %s" % (how, what, b)))
            elif must_fail and x.returncode == 0: out.append(("accepted", "%s: %s was accepted: %r" % (how, what, x.stdout[:200])))
        if not out: os.remove(f)
        return what, out, f, data
    W = []
    base = lambda: elf(r, random_sections(r))
    for n in (0, 1, 3, 4, 5, 15, 16, 17, 18, 19, 20, 31, 51): W.append((base()[:n], True, "a file of %d bytes" % n))
    for m in (0, 1, 3, 8, 39, 41, 62, 183, 0x2800, 40 + 256): W.append((elf(r, random_sections(r), machine=m), True, "a file for machine %d" % m))
    for g in (b"\x7fELG", b"\x7fEL\0", b"\x7felf", b"MZ\0\0", b"!<ar"): W.append((g + base()[4:], True, "a file that starts with %r" % g))
    W += [(b"hello world\n" * 20, True, "a text file"), (open("/bin/true", "rb").read(), True, "a program of this machine"), (bytes(4000), True, "zeros")]
    for _ in range(ck.n(300, 4000)):
        secs = random_sections(r)
        d = bytearray(elf(r, secs)); what = "damaged"
        shoff, = struct.unpack_from("<I", d, 32); shn, = struct.unpack_from("<H", d, 48); ents, = struct.unpack_from("<H", d, 46)
        k = r.randrange(6); must = False
        tops = [shoff + ents * shn] + [x.off + x.size for x in secs if x.typ == PROGBITS and x.size]
        if k == 0:
            n = r.randrange(len(d)); d = d[:n]; must = n < max(tops); what = "a program cut at %d" % n
        elif k == 1 and shn:                           # where a section lies in the file, or how large it is
            i = r.randrange(shn); o = shoff + ents * i; t, = struct.unpack_from("<I", d, o + 4)
            v = r.choice([len(d), len(d) + 1, len(d) * 2, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, 0x10000000]); struct.pack_into("<I", d, o + 16, v)
            sz, = struct.unpack_from("<I", d, o + 20)
            must = t == PROGBITS and sz > 0; what = "section %d at file offset %#x" % (i, v)
        elif k == 2 and shn:
            i = r.randrange(shn); o = shoff + ents * i; t, = struct.unpack_from("<I", d, o + 4)
            if t == NOBITS: continue
            v = r.choice([len(d) + 1, len(d) * 3, 0x7fffffff, 0x80000000, 0xffffffff]); struct.pack_into("<I", d, o + 20, v)
            must = t == PROGBITS; what = "section %d of size %#x" % (i, v)
        elif k == 3 and shn:
            v = r.choice([0xffffffff, 0x7fffffff, 100000, len(d)]); struct.pack_into("<I", d, shoff + ents * r.randrange(shn), v); what = "a section name at %#x" % v
        elif k == 4:
            o, f, vs = r.choice([(32, "<I", [0xffffffff, 0x80000000, len(d), len(d) - 20, len(d) + 4]), (48, "<H", [0xffff, shn + 50]), (50, "<H", [0, 0xffff, shn, 0xff00])])
            v = r.choice(vs); struct.pack_into(f, d, o, v); what = "header field %d is %#x" % (o, v)
            must = o in (32,) and shn > 0 or o == 48 and shoff + ents * v > len(d)
        else:                                          # program headers out of the file: they say nothing about the image
            struct.pack_into("<I", d, 28, r.choice([0xffffffff, len(d), len(d) * 9])); struct.pack_into("<H", d, 44, r.choice([1, 4, 0xffff])); what = "program headers outside the file"
        W.append((bytes(d), must, what))
    with ThreadPoolExecutor(8) as ex:
        for what, out, f, d in ex.map(lambda a: hostile(a[0], *a[1]), enumerate(W)):
            ck.case(d); ck.count("damaged_or_foreign_files")
            for key, w in out: ck.violation(key, w, dict(elf=f))
    for args, what in (([], "no file"), (["missing.elf"], "a missing file"), (["."], "a folder")):
        for how in ("san", "plain"):
            x = call(how, args); b = bad(how, x); ck.case((how, what)); ck.count("refusals")
            if b: ck.violation("hostile-report", "%s: %s: %s" % (how, what, b), dict(args=args))
            elif x.returncode == 0: ck.violation("accepted", "%s: %s was accepted" % (how, what), dict(args=args))
    ck.sample(dict(well_formed=len(work), damaged=len(W), builds=sorted(T)))
