#!/usr/bin/env python3
"""Builds simulator binaries from /repo's current working tree into a scratch directory.

flavours: asan  = ASan + UBSan on library and harness
          fast  = -O2, no sanitizer
          sched = -O1 with a yield point on every basic-block edge
Each binary links several variants of the library side by side (public symbols renamed per variant).
"""
import os, re, subprocess, sys, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CC, CXX = "clang", "clang++"

SEAMS = ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memalign", "valloc", "strdup",
         "time", "clock", "clock_gettime", "gettimeofday", "rand", "srand", "random", "srandom", "drand48", "rand_r",
         "getenv", "secure_getenv", "getpid", "gettid", "getrandom", "sched_getcpu", "pthread_self",
         "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_once", "sched_yield", "usleep", "nanosleep",
         "pthread_spin_lock", "pthread_spin_trylock", "pthread_spin_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "mtx_lock", "mtx_unlock", "call_once", "pthread_cond_wait", "sem_wait", "sem_post",
         "fprintf", "vfprintf", "printf", "vprintf", "dprintf", "fputs", "fputc", "putc", "puts", "putchar", "fwrite", "fflush", "perror", "write", "read", "open", "openat", "close",
         "fopen", "fdopen", "freopen", "fclose", "fread", "fgets", "fgetc", "getchar", "syslog", "openlog", "setvbuf", "setbuf", "flockfile", "funlockfile", "fsync", "remove", "unlink", "rename", "system", "popen", "socket", "send", "sendto"]

VARIANTS = {
    "scalar":  dict(d=["PFFFT_SIMD_DISABLE=1"], f=[]),
    "simd":    dict(d=["MBELIB_ENABLE_SIMD=1"], f=[]),
    "notones": dict(d=["PFFFT_SIMD_DISABLE=1", "DISABLE_AMBE_TONES=1"], f=[]),
    "pat":     dict(d=["PFFFT_SIMD_DISABLE=1"], f=["-ftrivial-auto-var-init=pattern"]),
    "log":     dict(d=["PFFFT_SIMD_DISABLE=1", "MBE_DEBUG", "IMBE_DEBUG", "AMBE_DEBUG"], f=[]),
    "fmath":   dict(d=["PFFFT_SIMD_DISABLE=1"], f=["-O3", "-ffast-math", "-fno-math-errno", "-ffp-contract=fast"]),
    "fsimd":   dict(cc="gcc", d=["MBELIB_ENABLE_SIMD=1", "NDEBUG"], f=["-O3", "-ffast-math", "-fno-math-errno", "-ffp-contract=fast"]),
    "zero":    dict(d=["PFFFT_SIMD_DISABLE=1"], f=["-ftrivial-auto-var-init=zero"]),
}
FLAVOUR = {
    "asan":  dict(lib=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-sanitize=function"],
                  har=["-O1", "-g1", "-fsanitize=address"], link=["-fsanitize=address,undefined"], D=["SIM_ASAN=1"]),
    "fast":  dict(lib=["-O2", "-g0"], har=["-O2", "-g0"], link=[], D=[]),
    "sched": dict(lib=["-O1", "-g0", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"], har=["-O1", "-g0"], link=[], D=["SIM_SCHED=1"]),
}

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def version_header(out):
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"project\s*\(.*?VERSION\s+([0-9.]+)", cm, re.S)
    ver = m.group(1) if m else "0.0.0"
    d = os.path.join(out, "gen", "mbelib-neo")
    os.makedirs(d, exist_ok=True)
    tmpl = os.path.join(REPO, "include/mbelib-neo/version.h.in")
    txt = open(tmpl).read() if os.path.exists(tmpl) else '#define MBELIB_VERSION "@PROJECT_VERSION@"\n'
    parts = (ver.split(".") + ["0", "0", "0"])[:3]
    txt = re.sub(r"@[A-Za-z0-9_]*VERSION_MAJOR@", parts[0], txt)
    txt = re.sub(r"@[A-Za-z0-9_]*VERSION_MINOR@", parts[1], txt)
    txt = re.sub(r"@[A-Za-z0-9_]*VERSION_PATCH@", parts[2], txt)
    txt = re.sub(r"@[A-Za-z0-9_]*@", ver, txt)
    open(os.path.join(d, "version.h"), "w").write(txt)
    return ver

def build(out, flavour, variants, jobs=8):
    """returns path of binary"""
    fl = FLAVOUR[flavour]
    od = os.path.join(out, flavour)
    os.makedirs(od, exist_ok=True)
    ver = version_header(out)
    inc = ["-I" + os.path.join(out, "gen"), "-I" + REPO, "-I" + os.path.join(REPO, "include"),
           "-I" + os.path.join(REPO, "src/internal"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/external/pffft"),
           "-I" + os.path.join(REPO, "src/external")]
    csrc = sorted(glob.glob(os.path.join(REPO, "src/**/*.c"), recursive=True))
    if not csrc:
        raise BuildError("no sources")
    tasks, objs, harobjs = [], {v: [] for v in variants}, []
    for v in variants:
        for c in csrc:
            rel = os.path.relpath(c, REPO).replace("/", "_")
            o = os.path.join(od, "%s_%s.o" % (v, rel))
            objs[v].append(o)
            tasks.append([VARIANTS[v].get("cc", CC), "-std=gnu11", "-fPIC", "-w"] + ([] if "cc" in VARIANTS[v] else ["-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion", "-Wno-error=implicit-int", "-Wno-error=incompatible-function-pointer-types"]) + ["-fmath-errno", "-ffp-contract=off"] + fl["lib"] + VARIANTS[v]["f"] +
                         ["-DMBE_STATIC=1", "-DMBE_BUILDING=1"] + ["-D" + d for d in VARIANTS[v]["d"]] + inc + ["-c", c, "-o", o])
    for c in sorted(glob.glob(os.path.join(VERIF, "sim/*.cpp"))):
        o = os.path.join(od, "h_" + os.path.basename(c) + ".o")
        harobjs.append(o)
        tasks.append([CXX, "-std=c++17", "-Wall", "-Wno-unused-function", "-ffp-contract=off"] + fl["har"] + ["-D" + d for d in fl["D"]] + inc +
                     ["-I" + os.path.join(VERIF, "sim"), "-c", c, "-o", o])
    # variant table
    tab = os.path.join(od, "variants.cpp")
    with open(tab, "w") as f:
        f.write('#include "api.h"\n#include <string.h>\n')
        for v in variants:
            f.write('extern "C" {\n#define F(n) extern decltype(mbe_##n) %s_mbe_##n;\nMBE_API_LIST(F)\n#undef F\n}\n' % v)
            f.write('static const Api api_%s = {"%s", %s,\n#define F(n) %s_mbe_##n,\nMBE_API_LIST(F)\n#undef F\n};\n' %
                    (v, v, "false" if "DISABLE_AMBE_TONES=1" in VARIANTS[v]["d"] else "true", v))
        f.write("const Api* g_variants[] = {%s, nullptr};\n" % ", ".join("&api_" + v for v in variants))
        f.write("const Api* api_by_name(const char* n){for(int i=0;g_variants[i];i++) if(!strcmp(g_variants[i]->name,n)) return g_variants[i]; return nullptr;}\n")
    tasks.append([CXX, "-std=c++17"] + fl["har"] + inc + ["-I" + os.path.join(VERIF, "sim"), "-c", tab, "-o", tab + ".o"])
    harobjs.append(tab + ".o")
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(run, tasks))
    finals = []
    def pack(v):
        merged = os.path.join(od, v + "_all.o")
        run(["ld", "-r", "--force-group-allocation", "-o", merged] + objs[v])
        syms = run(["nm", "-g", "--defined-only", merged]).split("\n")
        red = os.path.join(od, v + ".redef")
        with open(red, "w") as f:
            for line in syms:
                p = line.split()
                if len(p) >= 3 and p[1] in "TDBRVWCuSsi" and (p[2].startswith("__odr_asan") or not p[2].startswith(("asan.", "__", "_ZT"))):
                    f.write("%s %s_%s\n" % (p[2], v, p[2]))
            for s in SEAMS:
                f.write("%s simseam_%s\n" % (s, s))
        final = os.path.join(od, v + "_final.o")
        run(["objcopy", "--redefine-syms=" + red, merged, final])
        return final
    with ThreadPoolExecutor(jobs) as ex:
        finals = list(ex.map(pack, variants))
    exe = os.path.join(od, "sim")
    run([CXX] + fl["link"] + ["-o", exe] + harobjs + finals + ["-lm", "-lpthread"])
    return exe

if __name__ == "__main__":
    out, flavour = sys.argv[1], sys.argv[2]
    print(build(out, flavour, sys.argv[3:] or ["scalar", "simd"]))
