"""Builds test binaries from /repo's current working tree (never writes inside /repo).

Every numeric variant of a domain library defines the same symbols; each variant is
compiled apart, merged with `ld -r`, and all the symbols it defines get a suffix
(box_manager_alloc -> box_manager_alloc__D), so one binary can hold all variants.
"""
import os, sys, subprocess, glob, shutil, threading, re, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(VERIF, "harness")

NUMDEF = dict(Il="NUM_LONGINT", Ill="NUM_LONGLONGINT", Rl="NUM_LONGRAT", Rll="NUM_LONGLONGRAT",
              MPZ="NUM_MPZ", MPQ="NUM_MPQ", D="NUM_DOUBLE", Dl="NUM_LONGDOUBLE", MPFR="NUM_MPFR")
ALLNUM = list(NUMDEF)

# component -> (dir, extra include dirs, excluded sources)
COMP = {
    "box": ("box", [], []),
    "oct": ("octagons", [], ["oct_test.c"]),
    "pk": ("newpolka", [], ["test.c", "test0.c", "test1.c", "test_environment.c"]),
    "t1p": ("taylor1plus", [], ["t1p_test.c", "t1p_test_eval_texp.c"]),
    "avo": ("avoct", [], ["avo_test.c"]),
    "fpp": ("fppol", [], ["fpp_test.c", "fpp_example.c"]),
}
JDK = os.environ.get("JAVA_HOME") or os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("javac") or "/usr/bin/javac")))
WARN = ["-w"]
SAN = {
    "rel": ["-O1", "-DNDEBUG"],
    "leak": ["-O1", "-DNDEBUG", "-fasynchronous-unwind-tables"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=alignment,float-divide-by-zero,float-cast-overflow,null,nonnull-attribute,signed-integer-overflow,shift",
             "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-DNDEBUG"],
}


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


class Builder:
    def __init__(self, outdir, mode="rel", jobs=None):
        self.out = outdir
        self.mode = mode
        self.cflags = SAN[mode]
        os.makedirs(outdir, exist_ok=True)
        self.pool = ThreadPoolExecutor(max_workers=jobs or (os.cpu_count() or 4))
        self.cc = ["gcc"]
        self.cxx = ["g++"]
        cc = shutil.which("ccache")
        self.env_ccache = cc and os.environ.get("VERIF_CCACHE", "1") == "1"
        if self.env_ccache:
            os.environ.setdefault("CCACHE_DIR", os.path.join(VERIF, "build", "ccache"))
            os.environ.setdefault("CCACHE_MAXSIZE", "2G")
            os.environ["CCACHE_NOHASHDIR"] = "1"
            self.cc = [cc, "gcc"]
            self.cxx = [cc, "g++"]
        self.gen = os.path.join(outdir, "gen")
        os.makedirs(self.gen, exist_ok=True)
        self._version_h()

    def inc(self, *dirs):
        r = ["-I" + self.gen]
        for d in dirs:
            r.append("-I" + os.path.join(REPO, d))
        return r

    def _version_h(self):
        v = {}
        for l in open(os.path.join(REPO, "version.mk")):
            m = re.match(r"\s*(VERSION_\w+)\s*=\s*(.*)", l)
            if m:
                v[m.group(1)] = m.group(2).strip().strip('"')
        s = v.get("VERSION_STR", "")
        for k in v:
            s = s.replace("${%s}" % k, v[k])
        with open(os.path.join(self.gen, "ap_version.h"), "w") as f:
            f.write("#ifndef AP_VERSION\n#define AP_VERSION_MAJOR %s\n#define AP_VERSION_MINOR %s\n"
                    "#define AP_VERSION_MICRO %s\n#define AP_VERSION \"%s\"\n#endif\n"
                    % (v["VERSION_MAJOR"], v["VERSION_MINOR"], v["VERSION_MICRO"], s))

    # -- compilation jobs ----------------------------------------------------
    def c(self, src, obj, incs, defs=()):
        cmd = self.cc + ["-U__STRICT_ANSI__", "-std=c99", "-fPIC", "-Werror=implicit-function-declaration"] + self.cflags + WARN + incs + \
            ["-D" + d for d in defs] + ["-c", src, "-o", obj]
        return self.pool.submit(sh, cmd)

    def cpp(self, src, obj, incs, defs=(), std="c++17", flags=None):
        cmd = self.cxx + ["-U__STRICT_ANSI__", "-std=" + std, "-fPIC"] + (flags if flags is not None else self.cflags) + WARN + incs + \
            ["-D" + d for d in defs] + ["-c", src, "-o", obj]
        return self.pool.submit(sh, cmd)

    def apron(self, nums=ALLNUM):
        """libapron + libitv (all number types): returns list of (future, obj)."""
        r = []
        ad = os.path.join(REPO, "apron")
        for s in sorted(glob.glob(ad + "/*.c")):
            b = os.path.basename(s)
            if b == "test_texpr0.c":
                continue
            if b == "ap_linearize_aux.c":
                for n in ("MPQ", "D", "MPFR"):
                    o = os.path.join(self.out, "apron_%s_%s.o" % (b[:-2], n))
                    r.append((self.c(s, o, self.inc("num", "itv", "apron"), [NUMDEF[n]]), o))
                continue
            o = os.path.join(self.out, "apron_%s.o" % b[:-2])
            r.append((self.c(s, o, self.inc("num", "itv", "apron")), o))
        for n in nums:
            for b in ("itv.c", "itv_linexpr.c", "itv_linearize.c"):
                o = os.path.join(self.out, "itv_%s_%s.o" % (b[:-2], n))
                r.append((self.c(os.path.join(REPO, "itv", b), o, self.inc("num", "itv", "apron"), [NUMDEF[n]]), o))
            for s in sorted(glob.glob(os.path.join(REPO, "itv", "*.c"))):
                b = os.path.basename(s)
                if b in ("itv.c", "itv_linexpr.c", "itv_linearize.c", "test.c", "test2.c"):
                    continue
                o = os.path.join(self.out, "itv_%s_%s.o" % (b[:-2], n))
                r.append((self.c(s, o, self.inc("num", "itv", "apron"), [NUMDEF[n]]), o))
        return r

    def variant(self, comp, num):
        """domain library variant, symbols suffixed; returns (future, obj)."""
        d, extra, excl = COMP[comp]
        futs, objs = [], []
        for s in sorted(glob.glob(os.path.join(REPO, d, "*.c"))):
            b = os.path.basename(s)
            if b in excl or b.endswith("_caml.c"):
                continue
            o = os.path.join(self.out, "%s_%s_%s.o" % (comp, num, b[:-2]))
            futs.append(self.c(s, o, self.inc(d, "apron", "num", "itv", *extra), [NUMDEF[num]]))
            objs.append(o)
        m = os.path.join(self.out, "%s_%s.o" % (comp, num))
        return (lambda: self._merge(futs, objs, m, num), m)

    def _defined(self, obj):
        syms = set()
        for l in sh(["nm", "-g", "--defined-only", obj]).splitlines():
            p = l.split()
            if len(p) >= 3 and not p[2].startswith(("__asan", "__odr_asan", "asan.", "__ubsan")):
                syms.add(p[2])
        return syms

    def _merge(self, futs, objs, m, num):
        for f in futs:
            f.result()
        t = m + ".merged.o"
        sh(["ld", "-r", "-o", t] + objs)
        syms = self._defined(t)
        mp = m + ".map"
        with open(mp, "w") as f:
            for s in sorted(syms):
                f.write("%s %s__%s\n" % (s, s, num))
            if os.path.basename(m).startswith("t1p_"):   # uses the box and polyhedra libraries
                f.write("box_manager_alloc box_manager_alloc__%s\npk_manager_alloc pk_manager_alloc__MPQ\n" % num)
        sh(["objcopy", "--redefine-syms=" + mp, t, m])
        os.unlink(t)
        for o in objs:
            os.unlink(o)

    def ppl(self):
        r = []
        for s in sorted(glob.glob(os.path.join(REPO, "ppl", "*.cc"))):
            o = os.path.join(self.out, "ppl_" + os.path.basename(s)[:-3] + ".o")
            r.append((self.cpp(s, o, self.inc("ppl", "apron", "num", "itv"), std="gnu++17"), o))
        return r

    def pkgrid(self):
        o = os.path.join(self.out, "ap_pkgrid.o")
        f = self.c(os.path.join(REPO, "products", "ap_pkgrid.c"), o,
                   self.inc("products", "apron", "num", "itv", "ppl", "newpolka"), [NUMDEF["MPQ"]])

        def post():
            f.result()
            # its references to newpolka go to the MPQ variant
            mp = o + ".map"
            pkmap = os.path.join(self.out, "pk_MPQ.o.map")
            shutil.copy(pkmap, mp)
            sh(["objcopy", "--redefine-syms=" + mp, o])
        return (post, o)

    def java(self):
        """the Java binding: classes, libjgmp.so and libjapron.so beside the executable; the APRON symbols they use come from it."""
        jd = os.path.join(self.out, "java")
        cl, jh = os.path.join(jd, "classes"), os.path.join(jd, "jh")
        os.makedirs(cl, exist_ok=True)
        os.makedirs(jh, exist_ok=True)
        skip = ("Test.java", "TestPplite.java", "Pplite.java", "package-info.java")
        src = [f for d in ("gmp", "apron") for f in sorted(glob.glob(os.path.join(REPO, "japron", d, "*.java"))) if os.path.basename(f) not in skip]
        sh(["javac", "-J-XX:+UseSerialGC", "-nowarn", "-encoding", "UTF-8", "-d", cl, "-h", jh] + src)
        incs = ["-I" + jh, "-I" + JDK + "/include", "-I" + JDK + "/include/linux"] + \
            ["-I" + os.path.join(REPO, "japron", d) for d in ("gmp", "apron")] + self.inc("apron", "num", "itv", "box", "octagons", "newpolka", "ppl", "products")
        defs = ["%s_manager_alloc=%s_manager_alloc__%s" % (d, d, n) for d, n in (("box", "D"), ("oct", "D"), ("pk", "MPQ"), ("pkeq", "MPQ"))]
        libs = []
        for d, lib in (("gmp", "jgmp"), ("apron", "japron")):
            objs = []
            for s in sorted(glob.glob(os.path.join(REPO, "japron", d, "*.c"))):
                b = os.path.basename(s)
                if b == "apron_Pplite.c":
                    continue
                o = os.path.join(self.out, "java_%s.o" % b[:-2])
                objs.append((self.c(s, o, incs, defs), o))
            libs.append((lib, objs))
        for lib, objs in libs:
            for f, o in objs:
                f.result()
            sh(["gcc", "-shared", "-o", os.path.join(jd, "lib%s.so" % lib)] + [o for f, o in objs] +
               ([] if lib == "jgmp" else ["-L" + jd, "-ljgmp"]) + ["-Wl,-rpath,$ORIGIN", "-lmpfr", "-lgmp", "-lm"])
            for f, o in objs:
                os.unlink(o)

    def build(self, exe, harness, variants=(), ppl=False, pkgrid=False, extra_incs=(), nums=ALLNUM,
              defs=(), libs=(), extra_objs=(), shims=(), java=False):
        """variants: list of (comp, num)."""
        jobs = []
        objs = []
        jt = None
        if java:
            jt = ThreadPoolExecutor(max_workers=1).submit(self.java)
            extra_incs = list(extra_incs) + ["-I" + JDK + "/include", "-I" + JDK + "/include/linux"]
            libs = list(libs) + ["-rdynamic", "-L" + JDK + "/lib/server", "-ljvm", "-Wl,-rpath," + JDK + "/lib/server"]
        # slow ones first
        hflags = ["-O1"] + (["-g", "-fsanitize=address", "-fno-omit-frame-pointer"] if self.mode == "asan" else [])
        dirs = ["apron", "num", "itv", "box", "octagons", "newpolka", "taylor1plus", "ppl", "products", "avoct", "fppol"]
        hdefs = list(defs) + ["HAVE_%s_%s" % v for v in variants]
        if ppl:
            hdefs.append("HAVE_PPL")
        if pkgrid:
            hdefs.append("HAVE_PKGRID")
        for h in list(harness) + (["leak.cpp"] if self.mode == "leak" else []):
            src = os.path.join(H, h) if not os.path.isabs(h) else h
            o = os.path.join(self.out, "h_" + os.path.basename(h).rsplit(".", 1)[0] + ".o")
            if src.endswith(".c"):
                m = re.match(r".*_(\w+)\.c$", src)
                jobs.append(self.c(src, o, self.inc(*dirs) + ["-I" + H] + list(extra_incs), hdefs))
            else:
                jobs.append(self.cpp(src, o, self.inc(*dirs) + ["-I" + H] + list(extra_incs), hdefs, flags=hflags))
            objs.append(o)
        for sh_ in shims:                       # harness sources compiled once per number type
            for n in nums:
                o = os.path.join(self.out, "s_%s_%s.o" % (sh_[:-2], n))
                jobs.append(self.c(os.path.join(H, sh_), o, self.inc(*dirs) + ["-I" + H], [NUMDEF[n]]))
                objs.append(o)
        if ppl or pkgrid:
            for f, o in self.ppl():
                jobs.append(f)
                objs.append(o)
        for f, o in extra_objs:
            jobs.append(f)
            objs.append(o)
        posts = []
        vs = list(variants)
        for v in vs:
            p, o = self.variant(*v)
            posts.append(p)
            objs.append(o)
        if pkgrid:
            pk, o = self.pkgrid()
            objs.append(o)
        for f, o in self.apron(nums):
            jobs.append(f)
            objs.append(o)
        pp = ThreadPoolExecutor(max_workers=8)
        for r in [pp.submit(p) for p in posts]:
            r.result()
        if pkgrid:
            pk()
        for j in jobs:
            j.result()
        if jt:
            jt.result()
        link = ["g++", "-o", exe] + (["-fsanitize=address,undefined"] if self.mode == "asan" else []) + objs + \
            list(libs) + ["-lppl_c", "-lppl", "-lglpk", "-lgmpxx", "-lmpfr", "-lgmp", "-lm", "-lpthread"]
        sh(link)
        for o in objs:
            try:
                os.unlink(o)
            except OSError:
                pass
        return exe
