"""Builds the harness and the repository's tools from /repo's working tree.

Everything is compiled here, with flags of our own, from the sources found in /repo.
Objects live in /verif/.build/<variant>-<hash of sources and flags> (ignored by git).
"""
import hashlib, os, re, subprocess, sys, glob, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("TG_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
DIRS = ["crypto", "garbled_circuit", "scd", "tcpip", "util"]
COMMON = ["-std=c++11", "-w", "-march=x86-64-v2", "-maes", "-mpclmul", "-g1"]
VARIANTS = {
    "san": ["g++", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["g++", "-O2"],
    # for memcheck: little optimisation, so that reports are precise
    "mc": ["g++", "-O1", "-fno-omit-frame-pointer", "-fno-inline-small-functions"],
}
# observed by the harness when the function exists with this signature (see tgh.cpp)
_SIG = "RK14GarbledCircuitP9bignum_stS3_S3_S3_PmRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEl10OutputModeS3_Dv2_xSE_bi"
WRAP = ["-Wl,--wrap=_Z15GarbleBNHighMem" + _SIG, "-Wl,--wrap=_Z14GarbleBNLowMem" + _SIG] + ["-Wl,--wrap=" + f for f in ("send", "recv", "read", "write", "_Z8OTRecvBNPK9bignum_stjiPPS_", "_Z8OTSendBNPKPKPK9bignum_stji")]
LIBS = ["-lboost_program_options", "-lssl", "-lcrypto", "-lrt", "-lpthread", "-ldl"]


class BuildError(Exception):
    pass


def _drop_old(variant, out):
    """Removes builds of other source states, unless another check may be using them right now."""
    os.utime(out)
    for d in os.listdir(BUILD):
        p = os.path.join(BUILD, d)
        try:
            if d.startswith(variant + "-") and p != out and time.time() - os.stat(p).st_mtime > 1800:
                shutil.rmtree(p, ignore_errors=True)
        except FileNotFoundError: pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("build step failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def _sources():
    lib, mains = [], {}
    for d in DIRS:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            b = os.path.basename(f)
            if b.endswith("_test.cpp") or b.endswith("_testing.cpp") or b.endswith("_testsuit.cpp"):
                continue
            txt = open(f, errors="replace").read()
            if re.search(r"^\s*(int|auto)\s+main\s*\(", txt, re.M):
                mains[b[:-4]] = f
            else:
                lib.append(f)
    return lib, mains


def _hash(files, extra):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def _version():
    t = open(os.path.join(REPO, "CMakeLists.txt"), errors="replace").read()
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)\s", t[t.find("project"):])
    return m.groups() if m else ("3", "0", "0")


def _config(dst):
    t = open(os.path.join(REPO, "util", "tinygarble_config.h.in"), errors="replace").read()
    v = _version()
    for k, val in (("TinyGarble_VERSION_MAJOR", v[0]), ("TinyGarble_VERSION_MINOR", v[1]),
                   ("TinyGarble_VERSION_PATCH", v[2]), ("CMAKE_SOURCE_DIR", REPO),
                   ("CMAKE_BINARY_DIR", os.path.join(REPO, "_build"))):
        t = t.replace("@%s@" % k, val)
    t = t.replace("#cmakedefine ENABLE_LOG", "#define ENABLE_LOG")
    t = re.sub(r"#cmakedefine (\w+)", r"/* #undef \1 */", t)
    os.makedirs(os.path.join(dst, "util"), exist_ok=True)
    open(os.path.join(dst, "util", "tinygarble_config.h"), "w").write(t)


def build(variant="san", tools=()):
    """Returns {'tgh': path, '<tool>': path}.  tools: names such as garbled_circuit_main."""
    lib, mains = _sources()
    heads = [f for d in DIRS for f in glob.glob(os.path.join(REPO, d, "*.h*"))]
    heads += [os.path.join(REPO, "util", "tinygarble_config.h.in")]
    # the simulated two-party runner needs its helpers from beside the tests
    extra = [f for f in (os.path.join(REPO, "garbled_circuit", "garbled_circuit_testing.cpp"),
                         os.path.join(REPO, "tcpip", "tcpip_testsuit.cpp")) if os.path.exists(f)]
    heads += extra
    hsrc = sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp")))
    key = _hash(lib + list(mains.values()) + heads + hsrc, (variant, VARIANTS[variant], COMMON))
    out = os.path.join(BUILD, "%s-%s" % (variant, key))
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        _config(out)
        inc = ["-I" + REPO, "-I" + out, "-I" + os.path.join(VERIF, "harness")]
        cc = VARIANTS[variant] + COMMON + inc
        jobs, objs = [], []

        def obj(src, tag):
            o = os.path.join(out, tag + ".o")
            if not os.path.exists(o):
                jobs.append((cc + ["-c", src, "-o", o + ".tmp.o"], o))
            return o
        for f in lib:
            objs.append(obj(f, f[len(REPO):].strip("/").replace("/", "_")[:-4]))
        tgh_o = obj(os.path.join(VERIF, "harness", "tgh.cpp"), "tgh_main")
        tobj = {}
        eobjs = [obj(f, "extra_" + os.path.basename(f)[:-4]) for f in extra] if "a23_test_main" in tools else []
        for t in tools:
            if t not in mains:
                raise BuildError("no such tool source: " + t)
            tobj[t] = obj(mains[t], "main_" + t)

        def do(j):
            _run(j[0]); os.rename(j[1] + ".tmp.o", j[1])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(do, jobs))
        res, links = {}, []

        def link(name, o):
            p = os.path.join(out, name)
            if not os.path.exists(p):
                links.append((VARIANTS[variant] + [o] + objs + (eobjs if name == "a23_test_main" else []) + (WRAP if name == "tgh" else []) + LIBS + ["-o", p + ".tmp"], p))
            res[name] = p
        link("tgh", tgh_o)
        for t, o in tobj.items():
            link(t, o)

        def dol(j):
            _run(j[0]); os.rename(j[1] + ".tmp", j[1])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(dol, links))
        # drop builds of other source states
        _drop_old(variant, out)
        return res
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


# the bundled processor programs assume 32-bit wrap-around arithmetic, as on their processor
A23 = {
    "a23san": ["g++", "-O1", "-fno-omit-frame-pointer", "-fwrapv", "-fsanitize=address,undefined",
               "-fno-sanitize=signed-integer-overflow,shift", "-fno-sanitize-recover=all"],
    "a23plain": ["g++", "-O2", "-fwrapv"],
}


def a23_programs():
    """{name: [sources]} of the programs that have a gc_main and belong to the build, or have a build file of their own"""
    r = {}
    top = open(os.path.join(REPO, "a23", "CMakeLists.txt"), errors="replace").read()
    for d in re.findall(r'^\s*add_subdirectory\s*\(\s*"?([\w-]+)"?\s*\)', top, re.M) + (["sbox"] if "sbox" not in top and os.path.exists(os.path.join(REPO, "a23", "sbox", "CMakeLists.txt")) else []):
        src = sorted(glob.glob(os.path.join(REPO, "a23", d, "*.c")) + glob.glob(os.path.join(REPO, "a23", d, "*.cpp")))
        if any(re.search(r"\bgc_main\s*\(", open(f, errors="replace").read()) for f in src) and d != "lib":
            r[d] = src
    return r


def build_a23(variant="a23san", mains=True):
    """{'<program>': batch driver, 'main:<program>': the shipped executable}"""
    progs = a23_programs()
    lib = [f for f in _sources()[0] if os.path.basename(os.path.dirname(f)) == "util"]
    main = os.path.join(REPO, "a23", "lib", "a23_main_testing.cpp")
    drv = os.path.join(VERIF, "harness", "a23_drv.cc")
    heads = glob.glob(os.path.join(REPO, "a23", "*", "*.h")) + glob.glob(os.path.join(REPO, "util", "*.h*")) \
        + [os.path.join(REPO, "util", "tinygarble_config.h.in")]
    flags = A23[variant] + ["-std=c++11", "-w", "-march=x86-64-v2", "-maes", "-mpclmul", "-g1"]
    key = _hash(lib + [main, drv] + sum(progs.values(), []) + heads, (variant, flags))
    out = os.path.join(BUILD, "%s-%s" % (variant, key))
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock-a23"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        _config(out)
        cc = flags + ["-I" + REPO, "-I" + out]
        jobs = []

        def obj(src, tag):
            o = os.path.join(out, tag + ".o")
            if not os.path.exists(o): jobs.append((cc + ["-x", "c++", "-c", src, "-o", o + ".tmp.o"], o))
            return o
        lobj = [obj(f, "util_" + os.path.basename(f)[:-4]) for f in lib] if mains else []
        mobj, dobj = obj(main, "a23main") if mains else None, obj(drv, "a23drv")
        pobj = {p: [obj(f, "p_%s_%s" % (p, os.path.basename(f))) for f in fs] for p, fs in progs.items()}

        def do(j):
            _run(j[0]); os.rename(j[1] + ".tmp.o", j[1])
        with ThreadPoolExecutor(8) as ex: list(ex.map(do, jobs))
        res, links = {}, []
        for p, os_ in pobj.items():
            for name, l in ((p, [dobj] + os_), ("main:" + p, [mobj] + os_ + lobj + LIBS)):
                if name != p and not mains: continue
                x = os.path.join(out, name.replace("main:", "exe_"))
                if not os.path.exists(x): links.append((A23[variant] + l + ["-o", x + ".tmp"], x))
                res[name] = x

        def dol(j):
            _run(j[0]); os.rename(j[1] + ".tmp", j[1])
        with ThreadPoolExecutor(8) as ex: list(ex.map(dol, links))
        _drop_old(variant, out)
        return res
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


ARMCC = ["clang", "--target=armv4-none-eabi", "-Os", "-ffreestanding", "-fwrapv", "-fno-exceptions",
         "-fno-unwind-tables", "-fno-asynchronous-unwind-tables", "-w"]


def build_arm(out):
    """Compiles the programs for the processor itself (their ARM-only code included).
    Returns (path of the interpreter, {program: image file} , {program: why not}); the images are hex words."""
    os.makedirs(out, exist_ok=True)
    h = os.path.join(VERIF, "harness")
    emu = os.path.join(out, "arm_emu")
    _run(["g++", "-O2", "-w", os.path.join(h, "arm_emu.cc"), "-o", emu])
    ok, bad = {}, {}
    start = os.path.join(out, "start.o")
    try: _run(ARMCC + ["-x", "assembler-with-cpp", "-c", os.path.join(REPO, "a23", "lib", "start.S"), "-o", start])
    except BuildError as e: return emu, {}, {"*": str(e)[-300:]}

    def one(p, fs):
        os_, lang = [], ["-std=gnu99", "-x", "c"]
        for i, f in enumerate(fs):
            o = os.path.join(out, "%s_%d.o" % (p, i))
            _run(ARMCC + ["-isystem", os.path.join(h, "armstub")] + lang + ["-c", f, "-o", o])
            os_.append(o)
        e = os.path.join(out, p)
        _run(["ld.lld", "-T", os.path.join(h, "arm.lds"), start] + os_ + ["-o", e + ".elf"])
        _run(["llvm-objcopy-18", "-O", "binary", e + ".elf", e + ".bin"])
        b = open(e + ".bin", "rb").read()
        b += bytes(-len(b) % 4 + 4 * 4096)                       # zero-initialised data
        with open(e + ".img", "w") as f:
            for i in range(0, len(b), 4): f.write("%08x\n" % int.from_bytes(b[i:i + 4], "little"))
        return e + ".img"
    for p, fs in a23_programs().items():
        try: ok[p] = one(p, fs)
        except BuildError as e: bad[p] = str(e)[-300:]
    return emu, ok, bad


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "san", sys.argv[2:]))
