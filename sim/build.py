"""Builds everything a check needs from /repo's working tree into a scratch directory.

  src/    the tree, built as it ships: camlrunm, mosmllib, compiler, tools
  sim/    a copy in which the runtime and the C libraries are compiled with the
          hooks on and linked, several times over, into one simulator process
"""
import os, re, shutil, subprocess, sys, threading, glob, tempfile, time

REPO = os.environ.get("SIM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VARIANTS = [(0, "", 5), (1, "-DIO_BUFFER_SIZE=64", 2)]   # (variant, flags, copies)
SIMCC = "gcc -DMOSML_SIM -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector -fcf-protection=none -fcommon"
LIBS = {  # directory -> (shared library, archives)
    "munix": ("libmunix.so", []), "msocket": ("libmsocket.so", []), "mregex": ("libmregex.so", []),
    "mgdbm": ("libmgdbm.so", ["/usr/lib/x86_64-linux-gnu/libgdbm.a"]),
    "intinf": ("libmgmp.so", ["/usr/lib/x86_64-linux-gnu/libgmp.a"]),
    "interface": ("libcside.so", []),
}


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, log=None, check=True, env=None):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if check and r.returncode:
        raise BuildError("%s (in %s) failed:\n%s" % (cmd, cwd, r.stdout.decode("utf-8", "replace")[-4000:]))
    return r.stdout.decode("utf-8", "replace")


def copy_tree(dst):
    names = subprocess.run(["git", "-C", REPO, "-c", "safe.directory=" + REPO, "ls-files", "-z", "-co", "--exclude-standard", "src"],
                           stdout=subprocess.PIPE, check=True).stdout.decode("utf-8", "surrogateescape").split("\0")
    n = 0
    for f in sorted(set(filter(None, names))):
        s = REPO + "/" + f
        if not (os.path.isfile(s) or os.path.islink(s)):
            continue
        d = dst + "/" + f
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy(s, d, follow_symlinks=False)
        if not os.path.islink(d):
            os.utime(d, (1600000000, 1600000000))
        n += 1
    return n


class Build:
    def __init__(self, keep=False):
        self.dir = os.environ.get("SIM_BUILD_DIR") or tempfile.mkdtemp(prefix="mosml-sim-", dir="/tmp")
        self.src = self.dir + "/src"
        self.sim = self.dir + "/sim/src"
        self.drv = self.dir + "/drv"
        self.lib = self.dir + "/lib"
        self.simrun = self.dir + "/simrun"
        self.passthrough = []

    def remove(self):
        if not os.environ.get("SIM_BUILD_DIR"):
            shutil.rmtree(self.dir, ignore_errors=True)

    def make(self, d, *args, j=8, root=None, check=True):
        root = root or self.src
        c = ["-C", root + "/" + d, *args, "PREFIX=%s/inst" % self.dir] + ([] if any(a.startswith("CC=") for a in args) else ["CC=gcc"])
        try:
            return sh(["make", "-j%d" % j] + c, check=check)
        except Exception:
            # the dependencies in the Makefiles are not complete enough for parallel makes: what is left over is made one after another
            if j == 1:
                raise
            return sh(["make", "-j1"] + c, check=check)

    def go(self, force=False):
        if os.path.exists(self.simrun) and os.environ.get("SIM_BUILD_DIR") and not force:
            self.scan_lib()
            return
        t0 = time.time()
        copy_tree(self.dir)
        os.makedirs(self.drv, exist_ok=True)
        errs = []

        def bg(f):
            def g():
                try:
                    f()
                except Exception as e:      # reported by the main thread
                    errs.append(e)
            t = threading.Thread(target=g)
            t.start()
            return t
        nodes_inc = self.dir + "/nodes.inc"
        k = 0
        lines, nodevar = [], []
        for v, fl, copies in VARIANTS:
            for _ in range(copies):
                lines.append("NODE(%d)" % k)
                nodevar.append(v)
                k += 1
        open(nodes_inc, "w").write("\n".join(lines) + "\n")
        nv = "static const int nodevar_[]={%s};\n#define NODEVAR(k) nodevar_[k]\n" % ",".join(map(str, nodevar))
        open(self.dir + "/nodevar.h", "w").write(nv)
        t_os = bg(lambda: sh(["g++", "-std=c++17", "-O1", "-g", "-fpermissive", "-w", "-I" + self.dir, "-I" + HERE, "-include", self.dir + "/nodevar.h",
                              "-c", HERE + "/os.cpp", "-o", self.dir + "/os.o"]))
        self.make("config", "all")
        self.make("runtime", "all")
        shutil.copy(self.src + "/runtime/camlrunm", self.src + "/camlrunm")
        # copy for the simulator, before the rest is built
        os.makedirs(self.dir + "/sim", exist_ok=True)
        os.makedirs(self.sim)
        for d in ("config", "runtime", "dynlibs"):
            shutil.copytree(self.src + "/" + d, self.sim + "/" + d, symlinks=True)
        for f in os.listdir(self.src):
            if os.path.isfile(self.src + "/" + f):
                shutil.copy(self.src + "/" + f, self.sim + "/" + f)
        inc = self.dir + "/inst/include/mosml"
        os.makedirs(inc)
        for f in glob.glob(self.src + "/runtime/*.h") + glob.glob(self.src + "/config/*.h"):
            shutil.copy(f, inc)
        t_ml = bg(self.build_ml)
        t_nd = bg(self.build_objs)
        for t in (t_os, t_nd, t_ml):
            t.join()
        if errs:
            raise errs[0]
        self.link_nodes(nodevar)
        self.scan_lib()
        self.seconds = time.time() - t0

    # ---- the system as it ships
    def build_ml(self):
        self.make("mosmlyac", "all")
        self.make("mosmllib", "all")
        self.make("compiler", "all")
        for d in ("toolssrc", "lex", "launch"):
            self.make(d, "all")
        self.make(".", "basisdynlib", j=1)
        os.makedirs(self.lib, exist_ok=True)
        for f in glob.glob(self.src + "/mosmllib/*"):
            if f.endswith((".ui", ".uo", ".sig", ".fke")) or os.path.basename(f) in ("Help", "README", "index.html"):
                shutil.copy(f, self.lib)
        # basis libraries that live beside their C code
        for f in glob.glob(self.src + "/dynlibs/intinf/IntInf.u[io]") + glob.glob(self.src + "/dynlibs/intinf/IntInf.sig"):
            shutil.copy(f, self.lib)
        for f in ("mosmltop", "mosmlcmp", "mosmllnk"):
            shutil.copy(self.src + "/compiler/" + f, self.lib)
        if os.path.exists(self.src + "/lex/mosmllex"):
            shutil.copy(self.src + "/lex/mosmllex", self.lib)
        with open(self.lib + "/header", "w") as f:
            f.write("#!/bin/camlrunm\n")

    # ---- objects for the simulator
    def build_objs(self):
        rt = self.sim + "/runtime"
        objs = sorted(os.path.basename(f) for f in glob.glob(rt + "/*.o"))
        if "main.o" not in objs:
            raise BuildError("no runtime objects")
        self.rtobjs = objs
        ths, errs = [], []

        def run(f, *a):
            def g():
                try:
                    f(*a)
                except Exception as e:
                    errs.append(e)
            t = threading.Thread(target=g)
            t.start()
            ths.append(t)

        def variant(v, fl):
            d = rt if v == 0 else "%s%d" % (rt, v)
            if v:
                shutil.copytree(rt + ".pristine", d)
            for o in glob.glob(d + "/*.o"):
                os.remove(o)
            self.make("runtime" + (str(v) if v else ""), "CC=%s %s" % (SIMCC, fl), *objs, root=self.sim)
            inc = ["-I" + d]
            sh("gcc -O1 -g -U_FORTIFY_SOURCE -fno-stack-protector -Dunix -DTHREADED -DMOSML_SIM %s -I%s -I%s -I%s -w -c %s/glue.c -o %s/glue.o" % (fl, d, self.sim + "/config", HERE, HERE, d))
        shutil.copytree(rt, rt + ".pristine")
        for v, fl, _ in VARIANTS:
            run(variant, v, fl)

        def lib(d):
            args = ["CC=" + SIMCC]
            if d == "mgdbm":
                gd = self.dir + "/gdbm"
                os.makedirs(gd, exist_ok=True)
                if not os.path.lexists(gd + "/libgdbm.a"):
                    os.symlink("/usr/lib/x86_64-linux-gnu/libgdbm.so", gd + "/libgdbm.a")
                args += ["GDBMLIBDIR=" + gd, "GDBMINCDIR=/usr/include"]
            if d == "interface":
                args += ["libcside.so"]
            elif d == "intinf":
                args += ["libmgmp.so"]
            elif d == "mgdbm":
                args += ["libmgdbm.so"]
            else:
                args = ["all"] + args
            # only the C side is wanted; the ML side needs the compiler
            out = self.make("dynlibs/" + d, *args, j=1, root=self.sim, check=False)
            so = glob.glob(self.sim + "/dynlibs/" + d + "/" + LIBS[d][0])
            if not so:
                raise BuildError("dynlibs/%s did not build:\n%s" % (d, out[-3000:]))
        for d in LIBS:
            run(lib, d)
        for t in ths:
            t.join()
        if errs:
            raise errs[0]

    def link_nodes(self, nodevar):
        w = self.dir
        out = sh(["nm", "-g", "--defined-only", w + "/os.o"])
        simsyms = set(m.group(1) for m in re.finditer(r"\b[TtDdBbVW] sim_(\w+)$", out, re.M))
        skip = {"host_malloc", "host_free", "host_realloc", "flush_stdio"}
        simsyms -= skip
        libmap = w + "/redef.lib"
        rtmap = w + "/redef.rt"
        mallocs = {"malloc", "calloc", "realloc", "free", "strdup"}
        own = {"lmalloc", "lcalloc", "lrealloc", "lfree", "lstrdup"}
        with open(rtmap, "w") as f:
            for s in sorted(simsyms - own):
                f.write("%s sim_%s\n" % (s, s))
        with open(libmap, "w") as f:
            for s in sorted(simsyms - own):
                f.write("%s sim_%s%s\n" % (s, "l" if s in mallocs else "", s))
            f.write("stat_alloc sim_lib_stat_alloc\nstat_resize sim_lib_stat_resize\n")
        # libraries: one relocatable object each, its own symbols prefixed
        libobjs, table = [], ["#include <stddef.h>\nstruct libsymrec { const char *name; void *fn; };\nstruct librec { const char *base; const struct libsymrec *syms; };\n"]
        recs = []
        for i, (d, (so, archives)) in enumerate(sorted(LIBS.items())):
            dd = self.sim + "/dynlibs/" + d
            objs = [o for o in glob.glob(dd + "/*.o") + glob.glob(dd + "/**/regex.o", recursive=True)]
            objs = sorted(set(objs))
            o1, o2 = "%s/lib_%s.1.o" % (w, d), "%s/lib_%s.o" % (w, d)
            sh(["ld", "-r", "-d", "-o", o1, *objs, *archives])
            defs = [l.split()[2] for l in sh(["nm", "-g", "--defined-only", o1]).splitlines() if len(l.split()) == 3]
            ownsyms = set()
            for o in objs:
                ownsyms |= {l.split()[2] for l in sh(["nm", "-g", "--defined-only", o]).splitlines() if len(l.split()) == 3 and l.split()[1] in "TW"}
            red = "%s/redef_%s" % (w, d)
            with open(red, "w") as f:
                have = set(defs)
                for s in defs:
                    f.write("%s L%d_%s\n" % (s, i, s))
                for l in open(libmap):
                    if l.split()[0] not in have:
                        f.write(l)
            sh(["objcopy", "--redefine-syms=" + red, o1, o2])
            libobjs.append(o2)
            table.append("".join("extern char L%d_%s[];\n" % (i, s) for s in sorted(ownsyms)))
            table.append("static const struct libsymrec syms%d[] = { %s {0,0} };\n" % (i, " ".join('{"%s", L%d_%s},' % (s, i, s) for s in sorted(ownsyms))))
            recs.append('{"%s", syms%d},' % (so, i))
        table.append("const struct librec sim_libtab[] = { %s {0,0} };\n" % " ".join(recs))
        open(w + "/libtab.c", "w").write("".join(table))
        sh("gcc -O1 -w -c %s/libtab.c -o %s/libtab.o" % (w, w))
        ths, errs, nodeobjs = [], [], []

        def node(k, v):
            try:
                d = self.sim + "/runtime" + (str(v) if v else "")
                a, b = "%s/node%d.1.o" % (w, k), "%s/node%d.o" % (w, k)
                c = "%s/rt%d_%d.o" % (w, v, k)
                sh(["ld", "-r", "-d", "-o", c] + [d + "/" + o for o in self.rtobjs])
                sh(["objcopy", "--redefine-syms=" + rtmap, c])
                sh(["ld", "-r", "-d", "-o", a, c, d + "/glue.o", w + "/libtab.o"] + libobjs)
                secs = set(re.findall(r"^\s*\d+ (\.(?:data|bss)[\w.]*)\s", sh(["objdump", "-h", a]), re.M))
                args = []
                for s in sorted(secs):
                    if s.startswith(".data.rel.ro"):
                        continue
                    args += ["--rename-section", "%s=%s%d" % (s, "nbss" if s.startswith(".bss") else "ndata", k)]
                sh(["objcopy", "--redefine-sym", "sim_node_api=n%d_sim_node_api" % k, "--keep-global-symbol=n%d_sim_node_api" % k, *args, a, b])
                for x in (a, c):
                    os.remove(x)
            except Exception as e:
                errs.append(e)
        for k, v in enumerate(nodevar):
            t = threading.Thread(target=node, args=(k, v))
            t.start()
            ths.append(t)
            nodeobjs.append("%s/node%d.o" % (w, k))
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        und = set()
        for l in sh(["nm", "-u", nodeobjs[0]]).splitlines():
            und.add(l.split()[-1])
        self.passthrough = sorted(x for x in und if not x.startswith(("sim_", "os_")))
        sh(["g++", "-no-pie", "-o", self.simrun, w + "/os.o", *nodeobjs, "-lm", "-lpthread"])

    def scan_lib(self):
        pass

    # ---- driver programs
    def compile_driver(self, name, units, extra_ui=(), out=None):
        """compile ML sources (paths) in order and link them into drv/name"""
        d = self.drv
        uos = []
        for u in units:
            base = os.path.basename(u)
            shutil.copy(u, d + "/" + base)
        for u in units:
            base = os.path.basename(u)
            stem = base.rsplit(".", 1)[0]
            if base.endswith(".sig"):
                self.mosmlc(d, ["-structure"] + list(extra_ui) + [base])
            else:
                self.mosmlc(d, ["-structure"] + list(extra_ui) + [base])
                uos.append(stem + ".uo")
        exe = d + "/" + name
        sh([self.src + "/camlrunm", self.lib + "/mosmllnk", "-stdlib", self.lib, "-exec", exe] + uos, cwd=d)
        return exe

    def mosmlc(self, cwd, args):
        o = sh([self.src + "/camlrunm", self.lib + "/mosmlcmp", "-stdlib", self.lib] + args, cwd=cwd)
        return o


if __name__ == "__main__":
    os.environ.setdefault("SIM_BUILD_DIR", "/tmp/simdev")
    if sys.argv[1:] == ["os"]:          # only the simulator proper
        d = os.environ["SIM_BUILD_DIR"]
        sh(["g++", "-std=c++17", "-O1", "-g", "-fpermissive", "-w", "-I" + d, "-I" + HERE, "-include", d + "/nodevar.h",
            "-c", HERE + "/os.cpp", "-o", d + "/os.o"])
        sh(["g++", "-no-pie", "-o", d + "/simrun", d + "/os.o"] + sorted(glob.glob(d + "/node[0-9].o")) + ["-lm", "-lpthread"])
        sys.exit(0)
    shutil.rmtree(os.environ["SIM_BUILD_DIR"], ignore_errors=True)
    os.makedirs(os.environ["SIM_BUILD_DIR"])
    b = Build()
    t = time.time()
    b.go(force=True)
    print("built in %.1f s; passthrough: %s" % (time.time() - t, " ".join(b.passthrough)))
