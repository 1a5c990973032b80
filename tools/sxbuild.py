"""Compile /repo translation units and harnesses, instrumented ('sx') or native ('nat'), with a content-addressed cache."""
import hashlib, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.environ.get("SX_BUILD", os.path.join(VERIF, "build"))
NGS = "/opt/ngs/6.2.2405"
SRC = REPO + "/src"
LIBD = NGS + "/lib/python3.12/site-packages/netgen_mesher.libs"
INCD = ["base", "base/utils", "base/distributed", "base/mesh", "base/coarsening", "base/factory", "base/smoothers", "base/solve",
        "base/precond", "base/ngs_extension", "base/linalg", "base/python", "h1", "elasticity", "stokes/common", "stokes/ncfes", "stokes/hdiv"]
INC = ["-I%s/%s" % (SRC, d) for d in INCD] + ["-I%s/engine" % VERIF, "-I%s/harness" % VERIF, "-I" + SRC] + \
      ["-isystem", "/usr/include/python3.12", "-isystem", NGS + "/include/netgen", "-isystem", NGS + "/include/netgen/include"]
DEF = ("-DHAVE_CXA_DEMANGLE -DHAVE_DLFCN_H -DHAVE_NETGEN_SOURCES -DLAPACK -DNETGEN_PYTHON -DNGS_PYTHON -DNG_MPI_WRAPPER -DNG_PYTHON "
       "-DNgsAMG_EXPORTS -DPARALLEL -DPYBIND11_SIMPLE_GIL_MANAGEMENT -DTCL -DUSE_PARDISO -DUSE_TIMEOFDAY -D_GLIBCXX_USE_CXX11_ABI=1 "
       "-DMIS_AGG -DSPW_AGG -DELASTICITY -DSTOKES_AMG -DNGS_COMPATIBILITY -DNDEBUG -DMAX_SYS_DIM=3 -D__regcall=").split()
FL = "-std=c++17 -fPIC -march=core-avx2 -Wno-everything -ffp-contract=off -O1 -fno-vectorize -fno-slp-vectorize -fno-strict-aliasing -fno-omit-frame-pointer".split()
CXX = "clang++-18"
PLUG = BUILD + "/sxpass.so"
ENGV = None

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def filehash(*fs):
    h = hashlib.sha256()
    for f in fs:
        with open(f, "rb") as fh: h.update(fh.read())
    return h.hexdigest()

def build_engine():
    """pass plugin + runtimes (cached)"""
    global ENGV
    os.makedirs(BUILD + "/obj", exist_ok=True)
    E = VERIF + "/engine/"
    v = filehash(E + "sxpass.cpp", E + "sxrt.cpp", E + "sxreplay.cpp", E + "sx.h")[:16]
    ENGV = filehash(E + "sxpass.cpp")[:16]
    stamp = BUILD + "/engine.stamp"
    if os.path.exists(stamp) and open(stamp).read() == v: return
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    jobs = [[CXX, "-shared", "-fPIC", "-O1"] + flags + ["-fno-rtti", E + "sxpass.cpp", "-o", PLUG],
            [CXX, "-std=c++17", "-O2", "-g1", "-fno-omit-frame-pointer", "-frounding-math", "-Wno-everything", "-c", E + "sxrt.cpp", "-o", BUILD + "/sxrt.o"],
            [CXX, "-std=c++17", "-O1", "-Wno-everything", "-c", E + "sxreplay.cpp", "-o", BUILD + "/sxreplay.o"]]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode: raise SystemExit("engine build failed:\n" + r.stdout)
    open(stamp, "w").write(v)

def obj(src, mode):
    """returns (path, log) of object for a source in given mode"""
    pre = subprocess.run([CXX] + FL + DEF + INC + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode: return None, pre.stderr.decode()[-4000:]
    key = hashlib.sha256(pre.stdout + (" ".join(FL + DEF) + mode + (ENGV if mode == "sx" else "")).encode()).hexdigest()[:24]
    out = "%s/obj/%s-%s-%s.o" % (BUILD, os.path.basename(src).replace(".cpp", ""), mode, key)
    if os.path.exists(out):
        os.utime(out); return out, ""
    cmd = [CXX] + FL + DEF + INC + ["-c", src, "-o", out + ".tmp%d" % os.getpid()]
    if mode == "sx": cmd += ["-fpass-plugin=" + PLUG]
    r = sh(cmd)
    if r.returncode: return None, r.stdout[-6000:]
    os.rename(out + ".tmp%d" % os.getpid(), out)
    return out, r.stdout

LIBS = ["ngsolve", "ngcomp", "ngfem", "ngla", "ngbla", "ngstd", "nglib", "ngcore"]

def link(objs, mode, exe):
    rt = BUILD + ("/sxrt.o" if mode == "sx" else "/sxreplay.o")
    base = [CXX, "-fuse-ld=lld", "-no-pie", "-o", exe] + objs + [rt, "-L" + LIBD, "-L" + NGS + "/lib", "-Wl,-rpath," + LIBD, "-Wl,-rpath," + NGS + "/lib",
           "-Wl,--error-limit=0", "-Wl,--no-demangle", "-Wl,--allow-shlib-undefined", "-rdynamic"] + ["-l" + l for l in LIBS] + [NGS + "/lib/libmkl_rt.so.2", "-lpython3.12", "-ldl", "-lpthread"]
    if mode == "sx": base += ["-lz3", "-lgmpxx", "-lgmp"]
    r = sh(base)
    if r.returncode == 0: return r
    und = sorted(set(re.findall(r"undefined symbol: (\S+)", r.stdout)))
    if not und: return r
    # symbols of translation units this harness does not pull in: stubs that report when reached
    asm = [".text"]
    for i, u in enumerate(und):
        if u.startswith("_ZTI"):
            asm += [".section .data", ".weak %s" % u, ".p2align 4", "%s: .quad _ZTVN10__cxxabiv117__class_type_infoE+16" % u, ".quad .Lsxn%d" % i, ".quad 0", ".quad 0", ".quad 0", ".Lsxn%d: .asciz \"%s\"" % (i, u[4:]), ".text"]
        elif u.startswith("_ZTV") or u.startswith("_ZTT") or u.startswith("_ZGV"):
            asm += [".section .data", ".weak %s" % u, ".p2align 4", "%s: .zero 4096" % u, ".text"]
        else:
            asm += [".weak %s" % u, ".type %s,@function" % u, "%s: leaq .Lsxn%d(%%rip), %%rdi" % (u, i), "andq $-16,%rsp", "call __sx_unresolved", ".section .rodata", ".Lsxn%d: .asciz \"%s\"" % (i, u), ".text"]
    asm.append(".section .note.GNU-stack,\"\",@progbits")
    st = exe + ".stub.s"
    open(st, "w").write("\n".join(asm) + "\n")
    return sh(base + [st])

def build_many(jobs, workers=8, log=print):
    """jobs: (harness, tus, mode, exe). Compiles everything needed in parallel, then links."""
    build_engine()
    need = {}
    def srcs(h, tus, mode): return [VERIF + "/harness/" + h] + ([VERIF + "/engine/shim_la.cpp"] if mode == "sx" else []) + [SRC + "/" + t for t in tus]
    for h, tus, mode, exe in jobs:
        for s in srcs(h, tus, mode): need[(s, mode)] = None
    with ThreadPoolExecutor(workers) as ex:
        for k, r in zip(need, ex.map(lambda k: obj(*k), list(need))): need[k] = r
    bad = [(k, r[1]) for k, r in need.items() if r[0] is None]
    for k, l in bad: log("compile of %s (%s) failed:\n%s" % (k[0], k[1], l))
    if bad: return False
    def lk(j):
        h, tus, mode, exe = j
        objs = [need[(s, mode)][0] for s in srcs(h, tus, mode)]
        key = hashlib.sha256((" ".join(objs) + mode + filehash(BUILD + ("/sxrt.o" if mode == "sx" else "/sxreplay.o"))).encode()).hexdigest()
        if os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key: return None
        r = link(objs, mode, exe)
        if r.returncode: return "link of %s failed:\n%s" % (exe, r.stdout[-6000:])
        open(exe + ".key", "w").write(key); return None
    ok = True
    with ThreadPoolExecutor(workers) as ex:
        for m in ex.map(lk, jobs):
            if m: log(m); ok = False
    return ok

def build(harness, tus, mode, exe, log=print): return build_many([(harness, tus, mode, exe)], log=log)

if __name__ == "__main__":
    t = time.time(); h = sys.argv[1]; mode = sys.argv[2]; exe = sys.argv[3]
    print(build(h, sys.argv[4:], mode, exe), time.time() - t)
