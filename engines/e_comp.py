"""C26, C19, C20: compiler and linker.  C22: the interactive system."""
import glob, hashlib, os, re
from core import *
from simlib import *
import e_io, smlgen, units


def make(b, prop):
    return globals()[{"C26": "Same", "C19": "Fails", "C20": "Builds", "C22": "Top"}[prop]](b, prop)


CMP = "/lib/mosmlcmp -stdlib /lib"
LNK = "/lib/mosmllnk -stdlib /lib"
RUN = "/bin/camlrunm"


def h(b):
    return None if b is None else "%d %s" % (len(b), hashlib.md5(b).hexdigest())


class Base(Engine):
    real = ["compiler, linker and interactive system (bytecode, as built)", "runtime system", "basis library"]
    stub = ["kernel: files, processes, signals"]

    def prepare(self):
        return ["LOAD /lib/%s %s 755" % (os.path.basename(f), f) for f in sorted(glob.glob(self.b.lib + "/*")) if os.path.isfile(f)]

    def benign(self, rng, c, p=.4, gc=(10, 100, 1000)):
        for cl in ("gc", "short_r", "short_w", "eintr", "place", "slice"):
            if rng.random() < p:
                c.cls[cl] = [rng.choice(gc) if cl == "gc" else rng.choice([3000, 100000, 500000]), 0, 1 << 40, 1 << 40]


class Same(Base):
    name = "compile-same"
    groups_quick = 400
    faulted = 4
    assumptions = ["white space and comments between tokens do not change the code (they change positions in messages)"]

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        c.opts["arm"] = 0
        mode = rng.choice(["structure", "toplevel"])
        bad = rng.random() < .25
        t = smlgen.program(rng, rng.choice([1, 3, 8, 8, 15, 30]), bad, mode == "toplevel")
        padded = not bad and rng.random() < .6
        two = not bad and mode == "structure" and rng.random() < .3
        if bad and rng.random() < .5:
            t = smlgen.comment(rng, rng.choice([10, 4000, 9000])) + "\n" + t
        fl = rng.choice(["-i", "-i", "", "-q", "-i -perv none" if False else "-i"])
        lf = rng.choice(["", "-g", "-noheader", "-i"])
        c.meta = {"bad": bad, "padded": padded, "kind": mode + (" error" if bad else "")}
        c.script = ["mkdir /w 777", "write /w/A.sml " + esc(t)]
        dirs = "w"
        if padded:
            p = smlgen.pad(rng, t, rng.choice([10, 500, 4000, 5000, 9000]))
            c.script += ["mkdir /v 777", "write /v/A.sml " + esc(p)]
            dirs = "wv"
        for d in dirs:
            c.script += ["run name=c%s cwd=/%s in=null -- %s %s %s -%s A.sml" % (d, d, RUN, CMP, fl, mode)]
            us = "A.uo"
            if two:
                names = re.findall(r"\( Int\.toString (\S+) \^", t)
                c.script += ["write /%s/B.sml %s" % (d, esc("val b = A.%s mod 1000 + 1 val _ = print (Int.toString b)\n" % rng.choice(names) if d == "w" else "val b = A.%s + 1\n val _ = print (Int.toString b)\n" % names[0])) if False else
                             "write /%s/B.sml %s" % (d, esc("open A\nval b = %s mod 1000 + 1 val _ = print (Int.toString b)\n" % names[0])),
                             "run name=b%s cwd=/%s in=null -- %s %s -i -structure B.sml" % (d, d, RUN, CMP)]
                us = "A.uo B.uo"
            c.script += ["run name=l%s cwd=/%s in=null -- %s %s %s -o a %s" % (d, d, RUN, LNK, lf, us)]
            c.script += ["run name=x%s cwd=/%s in=null -- %s /%s/a" % (d, d, RUN, d)]
            for n in "cblx":
                if n == "b" and not two:
                    continue
                c.script += ["dump /out/%s%s.%s" % (n, d, x) for x in ("out", "err")]
            c.script += ["dump /%s/%s" % (d, x) for x in (("A.ui", "A.uo", "a", "B.ui", "B.uo") if two else ("A.ui", "A.uo", "a"))]
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        while not c.cls:
            self.benign(rng, c)
        c.meta["want"] = {p: h(v) for p, v in r0.files.items()}
        c.meta["status"] = {n: r0.status(n) for n in r0.starts}
        v = rng.choice(e_io.VARIANTS)
        c.script = [s.replace("-- " + RUN, "-- " + v) for s in c.script]
        if rng.random() < .4:
            c.env["CAMLRUNPARAM"] = rng.choice(["s=1k", "s=4096,i=4096", "s=1000000", "o=1", "o=1000", "i=1000000,o=10", "s=8192,o=0,i=4096"])
        if rng.random() < .4:
            c.opts["wall"] = rng.choice([0, 1, 86400, 2 ** 31 - 10, 2 ** 31 + 5, 4 * 10 ** 9])
        if rng.random() < .3:
            c.env[rng.choice(["HOME", "LANG", "TZ", "MOSMLLIB", "TMPDIR", "LC_ALL"])] = rng.choice(["", "x", "C", "de_DE.UTF-8", "/none", "y" * 3000])
        if rng.random() < .2:
            c.script.insert(0, "gen /w/%s d 1 100" % rng.choice(["B.sml", "zz", "a.sml", "A.sml~"]))
        return c

    def judge(self, case, r):
        m, f = case.meta, r.files
        if "want" in m:
            for n, s in m["status"].items():
                if r.status(n) != s:
                    return ["step %s ended with status %s instead of %s: %r" % (n, r.status(n), s, ((f.get("/out/%s.out" % n) or b"") + (f.get("/out/%s.err" % n) or b""))[-200:])]
            for p, v in m["want"].items():
                if h(f.get(p)) != v:
                    return ["%s is %s instead of %s: %r" % (p, h(f.get(p)), v, (f.get(p) or b"")[-100:])]
            return []
        if m["bad"]:
            if r.status("cw") != 512:
                return ["compiling a wrong program ended with status %s" % r.status("cw")]
            if not f["/out/cw.out"]:
                return ["no message"]
            if f["/w/A.uo"] is not None or f["/w/a"] is not None:
                return ["output of a failed compilation"]
            return []
        for n in r.starts:
            if r.status(n):
                return ["step %s ended with status %s: %r" % (n, r.status(n), (f["/out/%s.out" % n] + f["/out/%s.err" % n])[-300:])]
        if m["padded"]:
            for p in f:
                q = p.replace("w/", "v/").replace("w.", "v.") if p.startswith("/out") or p.startswith("/w") else None
                if q in f and q != p and not p.startswith("/out/cw") and f[p] != f[q]:
                    return ["%s differs after white space was added" % p]
        return []


# ------------------------------------------------------------- C20, C19
UNIT = re.compile(rb"unit (\w+) (-?\d+)((?: \w+:-?\d+ -?\d+)*);")
ANYNAME = re.compile(("|".join(units.NAMES)).encode())


class Fam:
    """a family of units, the actions on them (script) and what they mean (steps)"""

    def __init__(self, rng, c, n, dir="/w"):
        self.rng, self.c, self.n = rng, c, n
        self.deps = [[] if k == 0 else sorted(set([k - 1] if rng.random() < .7 else []) | {d for d in range(k) if rng.random() < .35} or {0}) for k in range(n)]
        self.main = n - 1
        self.names = units.NAMES[:n]
        self.hassig = [rng.random() < .25 for _ in range(n)]
        self.named = [rng.random() < .3 for _ in range(n)]
        self.src = [units.Src(rng.randrange(64), rng.randrange(100)) for _ in range(n)]
        self.steps = []
        self.no = 0
        self.snaps = []
        self.fl = ""               # options of run

    def text(self, k):
        s = self.src[k]
        t = units.source(k, self.deps[k], self.names, s)
        N = self.names[k]
        if self.named[k]:
            t = "structure %s%s = struct\n%send\n" % (N, " :> " + N if self.hassig[k] else "", t)
        return t

    def sigtext(self, k):
        N = self.names[k]
        t = units.sig(self.src[k].iface) + {5: "val w : int ->\n", 6: "val w : nosuchtype\n", 7: "val w : string list list list int\nval v : int * Nosuchunit.t\n"}.get(self.src[k].err, "")
        return "signature %s = sig\n%send\n" % (N, t) if self.named[k] else t

    def write(self, k, dir="/w"):
        N = self.names[k]
        self.c.script.append("write %s/%s.sml %s" % (dir, N, esc(self.text(k))))
        if self.hassig[k]:
            self.c.script.append("write %s/%s.sig %s" % (dir, N, esc(self.sigtext(k))))
        if dir == "/w":
            self.steps.append(["src", k] + self.src[k].key())

    def edit(self, k):
        s = self.src[k]
        x = self.rng.random()
        if x < .55:
            s.iface = self.rng.randrange(64)
        if x > .4:
            s.impl = self.rng.randrange(1000)
        s.err = self.rng.choice([1, 2, 3, 4, 5, 6, 7] if self.hassig[k] else [1, 2, 3, 4]) if self.rng.random() < .12 + .15 * self.hassig[k] else 0
        self.write(k)

    def tool(self, kind, what, args, dir="/w", extra="", dump=True):
        nm = "%s%d" % (kind, self.no)
        self.no += 1
        self.c.script.append("run name=%s cwd=%s in=null %s %s -- %s %s" % (nm, dir, self.fl, extra, RUN, args))
        if dump:
            self.c.script += ["dump /out/%s.out" % nm, "dump /out/%s.err" % nm]
        return nm

    def comp(self, k, which="sml", dir="/w", extra=""):
        nm = self.tool("c", k, "%s %s -structure %s.%s" % (CMP, self.rng.choice(["-i", ""]) if dir == "/w" else "", self.names[k], which), dir, extra)
        if dir == "/w":
            self.steps.append(["comp", nm, k, which])
        return nm

    def compall(self, k):
        if self.hassig[k]:
            self.comp(k, "sig")
        self.comp(k)

    def link(self, k=None, dir="/w", extra=""):
        k = self.main if k is None else k
        nm = self.tool("l", k, "%s %s -o x %s.uo" % (LNK, self.rng.choice(["", "-g", "-noheader"]) if dir == "/w" else "", self.names[k]), dir, extra)
        if dir == "/w":
            self.steps.append(["link", nm, k])
        return nm

    def runit(self, dir="/w"):
        nm = self.tool("x", 0, "%s/x" % dir, dir)
        self.steps.append(["run", nm, dir])

    def load(self, k):
        self.c.script.append("write /w/in %s" % esc("load \"%s\";\nload \"%s\";\n" % (self.names[k], self.names[k])))
        nm = "t%d" % self.no
        self.no += 1
        self.c.script.append("run name=%s cwd=/w in=/w/in %s -- %s /lib/mosmltop -stdlib /lib" % (nm, self.fl, RUN))
        self.c.script += ["dump /out/%s.out" % nm, "dump /out/%s.err" % nm]
        self.steps.append(["load", nm, k])

    def damage(self):
        k = self.rng.randrange(self.n)
        x = self.rng.choice(["ui", "uo"])
        f = "/w/%s.%s" % (self.names[k], x)
        if self.rng.random() < .5:
            self.c.script.append("rm " + f)
            self.steps.append(["gone", k, x])
        else:
            self.c.script.append("truncate %s %d" % (f, self.rng.choice([0, 1, 3, 4, 21, 22, 23, 30, 50, self.rng.randrange(100, 2000)])))
            self.steps.append(["cut", k, x])

    def save(self):
        k = self.rng.randrange(self.n)
        j = len(self.snaps)
        for x in ("ui", "uo"):
            self.c.script.append("copy /w/%s.%s /snap/%d.%s" % (self.names[k], x, j, x))
        self.snaps.append(k)
        self.steps.append(["save", k, j])

    def restore(self):
        if not self.snaps:
            return
        j = self.rng.randrange(len(self.snaps))
        k = self.snaps[j]
        w = self.rng.choice([["ui"], ["uo"], ["ui", "uo"]])
        for x in w:
            self.c.script.append("copy /snap/%d.%s /w/%s.%s" % (j, x, self.names[k], x))
        self.steps.append(["restore", k, j, w])

    def outs(self, dir):
        return ["%s/%s.%s" % (dir, N, x) for N in self.names for x in ("ui", "uo")]

    def rebuild(self, check=True):
        """everything from the sources, and a clean build to compare with"""
        self.c.script.append("mkdir /ref 777")
        for k in range(self.n):
            if self.src[k].err:
                self.src[k].err = 0
                self.write(k)
            self.write(k, "/ref")
        for d in ("/w", "/ref"):
            for k in range(self.n):
                if self.hassig[k]:
                    self.clean(k, "sig", d)
                self.clean(k, "sml", d)
            nm = self.tool("l", self.main, "%s -o x %s.uo" % (LNK, self.names[self.main]), d)
            self.steps.append(["must", nm])
            nm = self.tool("x", 0, "%s/x" % d, d)
            self.steps.append(["must", nm])
            self.c.script += ["dump " + f for f in self.outs(d) + [d + "/x"]]
        self.steps.append(["same", self.names])

    def clean(self, k, which, d):
        nm = self.tool("c", k, "%s -structure %s.%s" % (CMP, self.names[k], which), d)
        self.steps.append(["must", nm])

    def meta(self):
        return {"steps": self.steps, "deps": self.deps, "main": self.main, "hassig": self.hassig, "named": self.named, "names": self.names}


class Builds(Base):
    name = "builds"
    groups_quick = 400
    faulted = 5
    assumptions = ["files are cut short, lost or replaced by older ones; a file whose bytes were changed is not noticed (the formats have no checksum)"]

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        c.opts["arm"] = 0
        f = Fam(rng, c, rng.choice([2, 3, 3, 4, 5]))
        c.script = ["mkdir /w 777", "mkdir /snap 777"]
        for k in range(f.n):
            f.write(k)
        if rng.random() < .85:
            for k in range(f.n):
                f.compall(k)
        for _ in range(rng.choice([2, 4, 8, 14])):
            x = rng.random()
            k = rng.randrange(f.n)
            if x < .3:
                f.edit(k)
                if rng.random() < .7:
                    f.compall(k)
            elif x < .38:
                # one unit changes, some of the others follow
                f.edit(k)
                f.src[k].iface = rng.randrange(64)
                f.src[k].err = 0
                f.write(k)
                f.compall(k)
                for j in range(f.n):
                    if j != k and (rng.random() < .5 or j == f.main):
                        f.compall(j)
                (f.link if rng.random() < .7 else f.load)(f.main)
                if rng.random() < .5:
                    f.runit()
            elif x < .5:
                if f.hassig[k] and rng.random() < .4:
                    f.comp(k, "sig")
                else:
                    f.compall(k)
            elif x < .7:
                f.link(f.main if rng.random() < .8 else k)
                f.runit()
            elif x < .8:
                f.load(f.main if rng.random() < .7 else k)
            elif x < .86:
                f.damage()
            elif x < .93:
                f.save()
            else:
                f.restore()
        if rng.random() < .5:
            f.link()
            f.runit()
        else:
            f.load(f.main)
        if rng.random() < .5:
            f.rebuild()
        c.meta = f.meta()
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        c.cls = {}
        if rng.random() < .4:
            self.benign(rng, c)
        tools = [s[1] for s in base.meta["steps"] if s[0] in ("comp", "link")]
        if k == 0 or not tools:
            return c
        c.meta["killed"] = 1
        for _ in range(rng.choice([1, 1, 2, 3])):
            p = r0.pid(rng.choice(tools))
            n = r0.counts.get(p, {}).get("kill", 0)
            if n:
                # the last part of a run is where the files are written
                c.D.append([p, "kill", rng.randrange(n) if rng.random() < .4 else n - 1 - min(n - 1, int(rng.expovariate(1 / 25.))), 1])
        return c

    # ---- what the files are, as far as known.  A file is None (absent), "?" (unknown),
    # "cut", or a description of the interface (ui) / of interface, code and mentions (uo)
    def judge(self, case, r):
        m = case.meta
        names = m["names"]
        N = len(names)
        src = [None] * N
        ui, uo, snap = [None] * N, [None] * N, {}
        impls = [set() for _ in range(N)]
        exe = None            # None, "?", "bad" or the expected units
        hassig, named, deps = m["hassig"], m["named"], m["deps"]
        for s in m["steps"]:
            o = s[0]
            if o == "src":
                src[s[1]] = s[2:]
                impls[s[1]].add(s[3])
            elif o == "gone":
                (ui if s[2] == "ui" else uo)[s[1]] = None
            elif o == "cut":
                l = ui if s[2] == "ui" else uo
                if l[s[1]] is not None:
                    l[s[1]] = "cut?"
            elif o == "save":
                snap[s[2]] = {"ui": ui[s[1]], "uo": uo[s[1]]}
            elif o == "restore":
                for x in s[3]:
                    v = snap[s[2]][x]
                    if v is None:
                        continue          # there was nothing to copy: the file there stays
                    (ui if x == "ui" else uo)[s[1]] = v
            elif o == "comp":
                e = self.comp(s, r, m, src, ui, uo)
                if e:
                    return [e]
            elif o == "link":
                exe, e = self.link(s, r, m, ui, uo, exe)
                if e:
                    return [e]
            elif o == "run":
                e = self.ran(s, r, m, exe, impls)
                if e:
                    return [e]
            elif o == "load":
                e = self.loaded(s, r, m, ui, uo, impls)
                if e:
                    return [e]
            elif o == "must":
                if r.status(s[1]) != 0:
                    return ["rebuilding everything: %s ended with status %s: %r" % (s[1], r.status(s[1]), self.text(r, s[1])[-200:])]
            elif o == "same":
                for f in [x for U in s[1] for x in (U + ".ui", U + ".uo")] + ["x"]:
                    if r.files["/w/" + f] != r.files["/ref/" + f]:
                        return ["%s differs from that of a clean build (%s, %s)" % (f, h(r.files["/w/" + f]), h(r.files["/ref/" + f]))]
            else:
                e = self.special(s, r, m, src, ui, uo)
                if e:
                    return [e]
        return []

    def special(self, s, r, m, src, ui, uo):
        return None

    def text(self, r, nm):
        return (r.files.get("/out/%s.out" % nm) or b"") + (r.files.get("/out/%s.err" % nm) or b"")

    def disturbed(self, r, m, nm):
        """a fault was injected into this step"""
        return any(d[0] == r.pid(nm) and d[1] not in BENIGN for d in r.D)

    def known(self, x):
        return isinstance(x, (list, tuple))

    def comp(self, s, r, m, src, ui, uo):
        nm, k, which = s[1:]
        st = r.status(nm)
        N = m["names"][k]
        iface, impl, err = src[k]
        D = self.disturbed(r, m, nm)
        if st is None:
            return "step %s did not end" % nm
        if st & 127 and not (D and st & 127 in (2, 9)):         # (2: before it began to catch interrupts)
            return "compiling %s ended by signal %d: %r" % (N, st & 127, self.text(r, nm)[-200:])
        if st & 127:
            if which == "sig":
                ui[k] = "?"
            else:
                uo[k] = "?"
                if not m["hassig"][k]:
                    ui[k] = "?"
            return None
        if which == "sig":
            if st == 0:
                if err > 4:
                    return "compiling a wrong %s.sig succeeded" % N
                ui[k] = (k, iface, "sig")
                return None
            if err > 4 and not D:
                ui[k] = None              # it was removed
                return self.message(s, r, m)
            ui[k] = "?"
            if not D:
                return "compiling %s.sig failed with status %d: %r" % (N, st, self.text(r, nm)[-200:])
            return self.message(s, r, m)
        dk = [(d, ui[d]) for d in m["deps"][k]]
        if st == 0:
            if 0 < err < 5:
                return "compiling a wrong %s.sml succeeded" % N
            for d, u in dk:
                if u is None:
                    return "compiling %s.sml succeeded although %s.ui is missing" % (N, m["names"][d])
            if m["hassig"][k]:
                if ui[k] is None:
                    return "compiling %s.sml succeeded although %s.ui is missing" % (N, N)
            else:
                ui[k] = (k, iface, m["named"][k], tuple(dk)) if all(self.known(u) for _, u in dk) else "?"
            uo[k] = (k, impl, ui[k], tuple(dk)) if all(self.known(u) for _, u in dk) and self.known(ui[k]) else "?"
            return None
        if err in (1, 3) and not D and all(self.known(u) for _, u in dk) and (not m["hassig"][k] or self.known(ui[k])):
            uo[k] = None                  # an error found while it was being produced: the outputs were removed
            if not m["hassig"][k]:
                ui[k] = None
            return self.message(s, r, m)
        good = err not in (1, 2, 3, 4) and all(self.known(u) for _, u in dk) and (not m["hassig"][k] or ui[k] == (k, iface, "sig"))
        uo[k] = "?"
        if not m["hassig"][k]:
            ui[k] = "?"
        if good and not D:
            return "compiling %s.sml failed with status %d: %r" % (N, st, self.text(r, nm)[-200:])
        return self.message(s, r, m)

    def message(self, s, r, m):
        t = self.text(r, s[1])
        if not t and not self.mute(r, m):
            return "%s failed without a message, status %s" % (s[1], r.status(s[1]))
        return None

    def mute(self, r, m):
        return False

    def reach(self, m, k):
        out = []

        def go(j):
            for d in m["deps"][j]:
                go(d)
            if j not in out:
                out.append(j)
        go(k)
        return out

    def verdict_on(self, m, ui, uo, k):
        """(must succeed, must fail), by what is known of the files"""
        us = self.reach(m, k)
        fail = any(uo[j] is None for j in us)
        known = all(self.known(uo[j]) for j in us)
        ok = known
        if known:
            for j in us:
                for d, st in uo[j][3]:
                    if uo[d][2] != st:
                        ok = False
                        # the same declarations may give the same interface; other ones never do
                        if units.sig(uo[d][2][1]) != units.sig(st[1]):
                            fail = fail or "%s was compiled against another interface of %s" % (m["names"][j], m["names"][d])
        return ok and not fail, fail

    def link(self, s, r, m, ui, uo, old):
        nm, k = s[1:]
        st = r.status(nm)
        t = self.text(r, nm)
        N = m["names"][k]
        if st is None:
            return "?", "step %s did not end" % nm
        D = self.disturbed(r, m, nm)
        if st & 127:
            return "?", None if D and st & 127 in (2, 9) else "linking %s ended by signal %d" % (N, st & 127)
        ok, fail = self.verdict_on(m, ui, uo, k)
        if st == 0:
            if fail:
                return "?", "linking %s succeeded although %s" % (N, fail if isinstance(fail, str) else "a unit is missing")
            return ({str(j): uo[j][1] for j in self.reach(m, k)} if ok else "?"), None
        if D:
            return "?", self.message(s, r, m)
        if ok:
            return "?", "linking %s failed with status %d although all units agree: %r" % (N, st, t[-200:])
        if not ANYNAME.search(t):
            return "?", "linking %s failed without naming a unit: %r" % (N, t[-200:])
        return "?", None          # an older program may still be there

    def lines(self, t, m, impls, want, what):
        """checks the lines that units printed"""
        seen = {}
        for x in UNIT.finditer(t):
            N = x.group(1).decode()
            k = m["names"].index(N)
            v = int(x.group(2))
            if k in seen:
                return seen, "%s: unit %s ran twice" % (what, N)
            if v not in impls[k]:
                return seen, "%s: unit %s was never version %d" % (what, N, v)
            ds = x.group(3).split()
            if len(ds) != 2 * len(m["deps"][k]):
                return seen, "%s: unit %s printed %r" % (what, N, x.group(0))
            for j, d in enumerate(m["deps"][k]):
                if d not in seen:
                    return seen, "%s: unit %s ran before %s" % (what, N, m["names"][d])
                if ds[2 * j] != b"%s:%d" % (m["names"][d].encode(), seen[d]) or ds[2 * j + 1] != b"0":
                    return seen, "%s: unit %s was compiled against another interface of %s: %r" % (what, N, m["names"][d], x.group(0))
            seen[k] = v
        if want is not None:
            if {str(k): v for k, v in seen.items()} != want:
                return seen, "%s: units %r ran instead of %r" % (what, seen, want)
        return seen, None

    def ran(self, s, r, m, exe, impls):
        st = r.status(s[1])
        t = r.files.get("/out/%s.out" % s[1]) or b""
        if st is None or st & 127:
            return "the linked program ended with status %s" % st
        want = exe if isinstance(exe, dict) else None
        if want is not None and st != 0:
            return "the linked program ended with status %s: %r" % (st, self.text(r, s[1])[-200:])
        seen, e = self.lines(t, m, impls, want, "linked program")
        if e:
            return e
        if st and not r.files.get("/out/%s.err" % s[1]):
            return "the linked program was refused without a message"
        if st == 0 and not seen:
            return "the linked program did nothing"
        if st and seen:
            return "the linked program ended with status %s after %r: %r" % (st, seen, self.text(r, s[1])[-200:])
        if st == 0 and exe != "?" and want is None:
            return "a program ran although none was linked"
        return None

    def loaded(self, s, r, m, ui, uo, impls):
        nm, k = s[1:]
        st = r.status(nm)
        t = self.text(r, nm)
        ok, fail = self.verdict_on(m, ui, uo, k)
        # loading also reads the interfaces
        us = self.reach(m, k)
        if any(ui[j] is None for j in us):
            fail, ok = True, False
        elif any(not self.known(ui[j]) or not self.known(uo[j]) or ui[j] != uo[j][2] for j in us):
            ok = False
        if st != 0:
            return "the interactive system ended with status %s: %r" % (st, t[-200:])
        seen, e = self.lines(t, m, impls, {str(j): uo[j][1] for j in us} if ok else None, "interactive system")
        if e:
            return e
        if k not in seen:
            if ok:
                return "loading %s failed although all units agree: %r" % (m["names"][k], t[-300:])
            if not re.search(rb"! .*(%s)" % ANYNAME.pattern, t):
                return "loading %s failed without naming a unit: %r" % (m["names"][k], t[-300:])
        elif fail:
            return "loading %s succeeded although %s" % (m["names"][k], fail if isinstance(fail, str) else "a unit is missing")
        return None


class Fails(Builds):
    name = "build-faults"
    groups_quick = 900
    faulted = 8
    assumptions = ["faults are injected into one step of a build; the other steps run undisturbed"]
    FAULTS = ("err_r", "err_w", "err_open", "err_close", "err_seek", "err_meta", "malloc", "pollsig", "syssig", "racesig", "kill")

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        c.opts["arm"] = 0
        f = Fam(rng, c, rng.choice([1, 1, 2, 2, 3]))
        c.script = ["mkdir /w 777", "mkdir /snap 777", "mkdir /ref 777"]
        f.fl = "fault=0 sig=0"
        for k in range(f.n):
            f.write(k)
        if rng.random() < .6:
            for k in range(f.n):
                f.compall(k)
            if rng.random() < .6:
                f.link()
            for k in range(f.n):
                if rng.random() < .7:
                    f.edit(k)
                    f.src[k].err = 0
                    f.write(k)
        todo = []
        for k in range(f.n):
            if f.hassig[k]:
                todo.append((k, "sig"))
            todo.append((k, "sml"))
        todo.append((f.main, "link"))
        t = rng.choice(todo) if rng.random() < .7 else todo[-1]
        k = t[0]
        if t[1] == "sml" and rng.random() < .15:
            f.src[k].err = rng.choice([1, 2, 3, 4])
            f.write(k)
        if t[1] == "sig" and rng.random() < .3:
            f.src[k].err = rng.choice([5, 6, 7])
            f.write(k)
        verbose = rng.random() < .5
        for k in range(f.n):
            f.write(k, "/ref")
        flags = {}
        for x in todo:
            flags[x] = rng.choice(["", "-i"]) if x[1] != "link" else rng.choice(["", "-g", "-noheader", "-i"])
        for d in ("/w", "/ref"):
            cut = len(c.script)
            for x in todo:
                N = f.names[x[0]]
                if d == "/w" and x == t:
                    f.fl = ""
                if x[1] == "link":
                    nm = f.tool("l", x[0], "%s %s -o x %s.uo" % (LNK, flags[x], N), d)
                    outs = ["x"]
                else:
                    nm = f.tool("c", x[0], "%s %s -structure %s.%s" % (CMP, flags[x], N, x[1]), d)
                    outs = [N + ".ui"] if x[1] == "sig" else [N + ".uo"] + ([] if f.hassig[x[0]] else [N + ".ui"])
                f.fl = "fault=0 sig=0"
                if d == "/w":
                    f.steps.append(["link", nm, x[0]] if x[1] == "link" else ["comp", nm, x[0], x[1]])
                if x == t:
                    if d == "/ref":
                        ref = nm
                        c.script += ["copy /ref/%s /snap/r%s" % (o, o) for o in outs] + ["dump /snap/r" + o for o in outs]
                    else:
                        c.script += ["copy /w/%s /snap/t%s" % (o, o) for o in outs] + ["dump /snap/t" + o for o in outs]
                        f.steps.append(["target", nm, None, outs])
                        target = nm
        [s for s in f.steps if s[0] == "target"][0][2] = ref
        refcut = [cut, len(c.script)]
        f.runit()
        if rng.random() < .4:
            f.load(f.main)
        if t[1] != "link" or rng.random() < .3:
            f.link()
            f.runit()
        if rng.random() < .3:
            f.rebuild()
        c.meta = f.meta()
        c.meta["target"] = target
        c.meta["kind"] = t[1]
        c.meta["cut"] = refcut
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        self.benign(rng, c, .3)
        t = base.meta["target"]
        # what the undisturbed tool gives is known by now
        i, j = c.meta["cut"]
        del c.script[i:j]
        ref, outs = [(s[2], s[3]) for s in base.meta["steps"] if s[0] == "target"][0]
        c.meta["ref"] = [r0.status(ref), h(r0.files["/out/%s.out" % ref]), {o: h(r0.files.get("/snap/r" + o)) for o in outs}]
        pid = r0.pid(t)
        cnt = r0.counts.get(pid, {})
        cnt["pollsig"] = cnt.get("poll", 0)
        x = rng.random()
        if x < .25:
            j = [n for n, s in enumerate(c.script) if s.startswith("run name=%s " % t)][0]
            size = sum(len(r0.files.get(f) or b"") for s in base.meta["steps"] if s[0] == "target" for f in ["/snap/t" + o for o in s[3]])
            c.script.insert(j, "disk %d" % (rng.randrange(1, size + 200) if rng.random() < .8 else rng.choice([0, 1, 100, 5000])))
            c.script.insert(j + 2, "disk 1000000000")
        else:
            cls = rng.choice([("err_w",), ("err_r",), ("err_open",), ("err_close",), ("err_seek",), ("err_meta",), ("malloc",), ("pollsig",), ("syssig", "racesig"), ("kill",), self.FAULTS[:7]])
            if rng.random() < .75:
                c.D = pick_targets(rng, {pid: cnt}, list(cls), rng.choice([1, 1, 2]))
            else:
                for cl in cls:
                    if cl != "kill":
                        c.cls[cl] = [rng.choice([10, 100]) if cl == "pollsig" else rng.choice([10000, 50000, 200000]), 0, 1 << 40, rng.choice([1, 2, 1 << 40])]
        if rng.random() < .1:
            c.D += pick_targets(rng, {pid: cnt}, ["pollsig", "err_close", "err_w"], 1)
        return c

    def disturbed(self, r, m, nm):
        return nm == m["target"] and (any(d[0] == r.pid(nm) and d[1] not in BENIGN for d in r.D) or r.probes.get("disk_full", 0))

    def mute(self, r, m):
        return r.cls.get("err_w", (0, 0))[1] or r.probes.get("disk_full", 0) or r.cls.get("err_close", (0, 0))[1]

    def special(self, s, r, m, src, ui, uo):
        nm, ref, outs = s[1:]
        st = r.status(nm)
        rst, rout, rfiles = m.get("ref") or [r.status(ref), h(r.files["/out/%s.out" % ref]), {o: h(r.files.get("/snap/r" + o)) for o in outs}]
        if st == 0 and rst == 0:
            for o in outs:
                if h(r.files.get("/snap/t" + o)) != rfiles[o]:
                    return "%s reported success, but %s is %s instead of %s" % (nm, o, h(r.files.get("/snap/t" + o)), rfiles[o])
            if not self.mute(r, m) and h(r.files["/out/%s.out" % nm]) != rout:
                return "%s printed %r, %s instead of %s" % (nm, r.files["/out/%s.out" % nm][-100:], h(r.files["/out/%s.out" % nm]), rout)
        elif st == 0:
            return "%s reported success, undisturbed it ends with status %s" % (nm, rst)
        return None
