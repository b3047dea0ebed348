#!/usr/bin/env python3
"""Builds the simulator for one or more flavours from /repo's current working tree into /verif/build."""
import hashlib, os, re, shutil, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SCC_REPO", "/repo")
BUILD = os.environ.get("SCC_BUILD", os.path.join(VERIF, "build"))
ASAN = "-fsanitize=address -fno-omit-frame-pointer --param asan-stack=1".split()
UBSAN = "-fsanitize=bounds,null,alignment,integer-divide-by-zero,shift,signed-integer-overflow -fno-sanitize-recover=all".split()
# point index, clabel, clabel NA, typelabel, arc type, clabel max, point max, arc max, limits.h in scclust.h, limits.h in types
FLAVOURS = {
 "default":  dict(pi="uint32_t", cl="uint32_t", na="UINT32_MAX", tl="uint_fast16_t", arc="uint32_t", clmax="UINT32_MAX", pimax="UINT32_MAX", arcmax="UINT32_MAX", lh=0, lt=0, opt=["-O1","-g"]+ASAN+UBSAN),
 "release":  dict(pi="uint32_t", cl="uint32_t", na="UINT32_MAX", tl="uint_fast16_t", arc="uint32_t", clmax="UINT32_MAX", pimax="UINT32_MAX", arcmax="UINT32_MAX", lh=0, lt=0, opt=["-O2"]),
 "wide":     dict(pi="uint64_t", cl="uint64_t", na="UINT64_MAX", tl="int", arc="uint64_t", clmax="UINT64_MAX", pimax="UINT64_MAX", arcmax="UINT64_MAX", lh=0, lt=0, opt=["-O2"]),
 "intmin":   dict(pi="int", cl="int", na="INT_MIN", tl="int", arc="uint32_t", clmax="INT_MAX", pimax="INT_MAX", arcmax="UINT32_MAX", lh=1, lt=1, opt=["-O1","-g"]+ASAN+UBSAN),
 "ann":      dict(pi="uint32_t", cl="uint32_t", na="UINT32_MAX", tl="uint_fast16_t", arc="uint32_t", clmax="UINT32_MAX", pimax="UINT32_MAX", arcmax="UINT32_MAX", lh=0, lt=0, opt=["-O1","-g"]+ASAN, ann=1),
 "annint":   dict(pi="int", cl="int", na="-1", tl="uint_fast16_t", arc="uint64_t", clmax="INT_MAX", pimax="INT_MAX", arcmax="UINT64_MAX", lh=1, lt=1, opt=["-O1","-g"]+ASAN, ann=1),
 # the build variant that sorts neighbours and seeds by point number
 "stable":   dict(pi="uint32_t", cl="uint32_t", na="UINT32_MAX", tl="uint_fast16_t", arc="uint32_t", clmax="UINT32_MAX", pimax="UINT32_MAX", arcmax="UINT32_MAX", lh=0, lt=0, opt=["-O1","-g"]+ASAN+UBSAN, defs=["-DSCC_STABLE_NNG", "-DSCC_STABLE_FINDSEED"]),
 # limits made reachable: same templates, narrow integer types and few cluster labels
 "tiny":     dict(pi="uint8_t", cl="uint8_t", na="UINT8_MAX", tl="uint_fast16_t", arc="uint8_t", clmax="9", pimax="UINT8_MAX", arcmax="UINT8_MAX", lh=0, lt=0, opt=["-O1","-g"]+ASAN),
}
ALLOC = ["malloc","calloc","realloc","free","qsort","strdup","aligned_alloc","posix_memalign","reallocarray"]

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def gen_headers(f, tree):
    ver = {}
    try:
        for l in open(os.path.join(REPO, "dist_info")):
            m = re.match(r"\s*(SCC_VERSION_\w+|\w*MAJOR\w*|\w*MINOR\w*|\w*PATCH\w*)\s*=\s*\"?(\d+)", l)
            if m: ver[m.group(1).lower()] = m.group(2)
    except OSError: pass
    def v(k):
        for a, b in ver.items():
            if k in a: return b
        return "0"
    def conv(name, out, lim):
        t = open(os.path.join(REPO, "templates", name)).read().split("\n")
        res = []
        for l in t:
            if "{% limits_include %}" in l:
                if not lim: continue
                l = l.replace("{% limits_include %}", "")
            res.append(l)
        s = "\n".join(res)
        for k, x in {"pointindex_type": f["pi"], "clabel_type": f["cl"], "clabel_na": f["na"], "typelabel_type": f["tl"],
                     "arcindex_type": f["arc"], "clabel_max": f["clmax"], "pointindex_max": f["pimax"], "arcindex_max": f["arcmax"],
                     "scclust_major_version": v("major"), "scclust_minor_version": v("minor"), "scclust_patch_version": v("patch")}.items():
            s = s.replace("{%% %s %%}" % k, x)
        open(os.path.join(tree, out), "w").write(s)
    conv("scclust.h", "include/scclust.h", f["lh"])
    conv("scclust_types.h", "src/scclust_types.h", f["lt"])

def inputs():
    fs = []
    for d in ("src", "include", "templates", "examples/ann"):
        fs += sorted(p for p in glob.glob(os.path.join(REPO, d, "*")) if os.path.isfile(p))
    fs += [os.path.join(REPO, "dist_info")]
    fs += sorted(glob.glob(os.path.join(VERIF, "sim", "*"))) + [os.path.abspath(__file__)]
    return fs

def digest(flavour):
    h = hashlib.sha256(flavour.encode())
    for p in inputs():
        if os.path.exists(p):
            h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()

def harness_object(cmd, out):
    """The simulator's own object depends only on its sources and the library's headers: reused across builds."""
    h = hashlib.sha256(" ".join(cmd).encode())
    for p in sorted(glob.glob(os.path.join(VERIF, "sim", "*")) + glob.glob(os.path.join(out, "include", "*")) + glob.glob(os.path.join(out, "src", "*.h")) + glob.glob(os.path.join(out, "ann", "*.h"))):
        h.update(os.path.basename(p).encode() + b"\0" + open(p, "rb").read() + b"\0")
    key = h.hexdigest()
    cdir = os.environ.get("SCC_OBJCACHE", os.path.join(BUILD, "objcache"))
    os.makedirs(cdir, exist_ok=True)
    c = os.path.join(cdir, key + ".o")
    if not os.path.exists(c):
        sh(cmd, cwd=out)
        tmp = c + ".%d.tmp" % os.getpid()
        shutil.copy(os.path.join(out, "sim.o"), tmp); os.rename(tmp, c)
    else: shutil.copy(c, os.path.join(out, "sim.o"))

def build(flavour, jobs=8):
    f = FLAVOURS[flavour]
    out = os.path.join(BUILD, flavour)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, flavour + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        d = digest(flavour)
        stamp = os.path.join(out, "stamp")
        exe = os.path.join(out, "sim")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == d:
            return exe
        shutil.rmtree(out, ignore_errors=True)
        for s in ("include", "src", "obj", "ann"): os.makedirs(os.path.join(out, s))
        for p in glob.glob(os.path.join(REPO, "src", "*.[ch]")):
            if os.path.basename(p) != "scclust_types.h": shutil.copy(p, os.path.join(out, "src"))
        for p in glob.glob(os.path.join(REPO, "include", "*.h")):
            if os.path.basename(p) != "scclust.h": shutil.copy(p, os.path.join(out, "include"))
        gen_headers(f, out)
        srcs = sorted(os.path.basename(p) for p in glob.glob(os.path.join(out, "src", "*.c")) if os.path.basename(p) != "digraph_debug.c")
        opt = f["opt"]
        ann = f.get("ann")
        jobs_l = []
        for s in srcs:
            jobs_l.append(["gcc", "-c", "-std=c99", "-DNDEBUG", "-fno-pie", "-fno-builtin-malloc", "-w", "-ftrivial-auto-var-init=pattern"] + f.get("defs", []) + opt + ["src/" + s, "-o", "obj/" + s[:-2] + ".o"])
        if ann:
            for x in ("ann_wrapper.cpp", "ann_wrapper.h"): shutil.copy(os.path.join(REPO, "examples/ann", x), os.path.join(out, "ann", x))
            os.makedirs(os.path.join(out, "ann", "include"))
            os.symlink("/usr/include/ANN", os.path.join(out, "ann", "include", "ANN"))
            jobs_l.append(["g++", "-c", "-DNDEBUG", "-fno-pie", "-w", "-I.", "-Iann"] + opt + ["ann/ann_wrapper.cpp", "-o", "obj/annwrap_raw.o"])
        with ThreadPoolExecutor(jobs) as ex:
            # the harness only needs the generated headers and the symbols' names
            hcmd = ["g++", "-c", "-std=c++17", "-O1", "-fno-pie", "-w", "-I.", "-DFLAVOUR=\"%s\"" % flavour,
                          "-DHAVE_ASAN=%d" % (1 if "-fsanitize=address" in opt else 0), "-DHAVE_ANN=%d" % (1 if ann else 0),
                          "-DSIM_CLABEL_MAX=%s" % f["clmax"], "-DSIM_POINT_MAX=%s" % f["pimax"], "-DSIM_ARC_MAX=%s" % f["arcmax"],
                          os.path.join(VERIF, "sim", "sim.cpp"), "-o", "sim.o"]
            harness = ex.submit(harness_object, hcmd, out)
            list(ex.map(lambda c: sh(c, cwd=out), jobs_l))
            objs = ["obj/" + s[:-2] + ".o" for s in srcs]
            sh(["ld", "-r", "-o", "lib_raw.o"] + objs, cwd=out)
            ren = []
            for a in ALLOC: ren += ["--redefine-sym", "%s=sim_%s" % (a, a)]
            sec = []
            secs = sh(["objdump", "-h", "lib_raw.o"], cwd=out)
            for m in re.finditer(r"\s(\.(?:data|bss)(?:\.\S+)?)\s", secs):
                n = m.group(1)
                if ".rel.ro" in n: continue
                sec += ["--rename-section", "%s=%s" % (n, "sccbss,alloc" if n.startswith(".bss") else "sccdata,alloc,load,data,contents")]
            sh(["objcopy"] + ren + sec + ["lib_raw.o", "lib.o"], cwd=out)
            objs = ["lib.o"]
            if ann:
                pairs = [("_Znwm", "sim_new"), ("_Znam", "sim_newv"), ("_ZdlPv", "sim_delete"), ("_ZdaPv", "sim_deletev"), ("_ZdlPvm", "sim_delete_sz"), ("_ZdaPvm", "sim_deletev_sz")]
                r = []
                for a, b in pairs: r += ["--redefine-sym", "%s=%s" % (a, b)]
                sec2 = []
                for m in re.finditer(r"\s(\.(?:data|bss)(?:\.\S+)?)\s", sh(["objdump", "-h", "obj/annwrap_raw.o"], cwd=out)):
                    n = m.group(1)
                    if ".rel.ro" in n: continue
                    sec2 += ["--rename-section", "%s=%s" % (n, "sccbss,alloc" if n.startswith(".bss") else "sccdata,alloc,load,data,contents")]
                sh(["objcopy"] + r + sec2 + ["obj/annwrap_raw.o", "annwrap.o"], cwd=out)
                r2 = []
                for a, b in pairs: r2 += ["--redefine-sym", "%s=%s" % (a, b.replace("sim_newv", "sim_newv_ann") if "newv" in b else b.replace("sim_new", "sim_new_ann"))]
                os.makedirs(os.path.join(out, "obj", "annlib"), exist_ok=True)
                sh(["ar", "x", "/usr/lib/x86_64-linux-gnu/libann.a"], cwd=os.path.join(out, "obj", "annlib"))
                ao = sorted(glob.glob(os.path.join(out, "obj", "annlib", "*.o")))
                sh(["ld", "-r", "-o", "annlib_raw.o"] + ao, cwd=out)
                sec3 = []
                for m in re.finditer(r"\s(\.(?:data|bss)(?:\.\S+)?)\s", sh(["objdump", "-h", "annlib_raw.o"], cwd=out)):
                    n = m.group(1)
                    if ".rel.ro" in n: continue
                    sec3 += ["--rename-section", "%s=%s" % (n, "sccbss,alloc" if n.startswith(".bss") else "sccdata,alloc,load,data,contents")]
                sh(["objcopy"] + r2 + sec3 + ["annlib_raw.o", "annlib.o"], cwd=out)
                objs += ["annwrap.o", "annlib.o"]
            harness.result()
        sh(["g++", "-no-pie"] + [o for o in opt if o.startswith("-fsanitize") or o.startswith("-fno-sanitize")] + ["-rdynamic", "sim.o"] + objs + ["-o", "sim.tmp", "-lm"], cwd=out)
        os.rename(os.path.join(out, "sim.tmp"), exe)
        shutil.rmtree(os.path.join(out, "obj"))
        for x in glob.glob(os.path.join(out, "*.o")): os.unlink(x)
        open(stamp, "w").write(d)
        return exe
    finally:
        lock.close()

def build_many(fl):
    with ThreadPoolExecutor(len(fl)) as ex:
        return dict(zip(fl, ex.map(build, fl)))

if __name__ == "__main__":
    fl = sys.argv[1:] or list(FLAVOURS)
    for k, v in build_many(fl).items(): print(k, v)
