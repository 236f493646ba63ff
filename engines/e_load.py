"""C21: starting programs."""
import os, shutil, subprocess
from core import *
from simlib import *
import e_io, mkload

HEAD = len("#!/bin/camlrunm\n")


def make(b, prop):
    return Load(b, prop)


class Load(Engine):
    name = "load"
    groups_quick = 3000
    real = ["runtime system (main.c, intern.c, io.c, sys.c, init of memory management)", "programs as linked by the real linker"]
    stub = ["kernel: files, exec; the header line of a program is interpreted as the kernel does"]
    assumptions = ["the last bytes of a truncated or extended program are not by chance a valid trailer"]
    SIZES = (0, 200, 3000)

    def prepare(self):
        d = self.b.drv
        shutil.copy(VERIF + "/drv/Sim.sml", d)
        self.b.mosmlc(d, ["-structure", "Sim.sml"])
        self.want, self.data = {}, {}
        lines = []
        for k, n in enumerate(self.SIZES):
            src, want = mkload.program(n)
            p = "%s/Load%d.sml" % (d, k)
            with open(p, "w") as f:
                f.write(src)
            self.b.mosmlc(d, ["-structure", "Load%d.sml" % k])
            for v, fl in (("p", []), ("d", ["-g"]), ("n", ["-noheader"])):
                exe = "%s/load%d%s" % (d, k, v)
                r = subprocess.run([self.b.src + "/camlrunm", self.b.lib + "/mosmllnk", "-stdlib", self.b.lib] + fl + ["-exec", exe, "Load%d.uo" % k], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    raise RuntimeError("linking failed: %r" % r.stdout)
                self.data["load%d%s" % (k, v)] = open(exe, "rb").read()
                self.want["load%d%s" % (k, v)] = want
                lines.append("LOAD /bin/load%d%s %s 755" % (k, v, exe))
        return lines

    FAULTS = ("err_r", "err_open", "err_close", "err_seek", "malloc", "err_meta")

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        for cl in ("gc", "short_r", "short_w", "eintr", "place", "slice"):
            if rng.random() < .5:
                c.cls[cl] = [rng.choice([100, 3000]) if cl == "gc" else rng.choice([3000, 100000, 500000]), 0, 1 << 40, 1 << 40]
        if k % 2 == 1:
            cls = rng.choice([("err_r",), ("malloc",), ("malloc",), self.FAULTS])
            if rng.random() < .7:
                c.D = pick_targets(rng, r0.counts, list(cls), rng.choice([1, 1, 2]))
            else:
                for cl in cls:
                    c.cls[cl] = [rng.choice([3000, 30000, 200000]), 0, 1 << 40, rng.choice([1, 3, 1 << 40])]
            if rng.random() < .2:
                c.opts["memlimit"] = rng.choice([1000, 30000, 300000, 600000, 1000000, 3000000])
        return c

    def judge(self, case, r):
        F = sum(r.cls.get(x, (0, 0))[1] for x in self.FAULTS) or "memlimit" in case.opts
        oom = r.cls.get("malloc", (0, 0))[1] or "memlimit" in case.opts
        m = case.meta
        log = r.log("d")
        st = r.status("d")
        out = r.files.get("/out/d.out", b"")
        err = r.files.get("/out/d.err", b"")
        if m["prog"] is None:
            if log:
                return ["a program ran although its file was %s: %r" % (m["what"], log[:3])]
            if st is None:
                return None if False else ["simfail", "no status"]
            if st == 0 or st & 127:
                return ["the attempt to run a file that was %s ended with status %s" % (m["what"], st)]
            if not err:
                return ["the attempt to run a file that was %s gave no message" % m["what"]]
            return []
        want = []
        for x in self.want[m["prog"]]:
            want += [unesc(y) for y in m["args"]] if x is None else [x]
        if log == want and st == 0:
            if out != b"printed\n":
                return ["the program printed %r" % out[:60]]
            return []
        if not F:
            return ["the program logged %r instead of %r, status %s, message %r" % (diff(log, want), None, st, err[:80])]
        if st is not None and st & 127:
            return ["the program was ended by signal %d" % (st & 127)]
        if st == 0:
            return ["status 0 although the program logged %r" % diff(log, want)]
        if not err:
            return ["status %d without a message" % st]
        if log and not oom:
            return ["part of the program ran: %r" % log[-2:]]
        if log != want[:len(log)]:
            return ["the program logged %r" % diff(log, want)]
        return []

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        c.opts["arm"] = 0
        k = rng.choice([0, 0, 0, 1, 1, 2])
        v = rng.choice("pdn")
        nm = "load%d%s" % (k, v)
        d = self.data[nm]
        size = len(d)
        pre = ["mkdir /t 777", "mkdir /q 777", "mkdir /w 777"]
        args = [rng.choice([b"a", b"", b"-v", b"x y", b"%", bytes(range(1, 256)), b"/t/none", b"-stdlib"]) for _ in range(rng.choice([0, 0, 1, 3, 30]))]
        if rng.random() < .05:
            args += [data(5, 20).replace(b"\0", b"z")] * 3000
        c.meta["args"] = [esc(x) for x in args]
        c.meta["prog"] = nm
        c.meta["what"] = None
        run = rng.choice(e_io.VARIANTS)
        opts = []
        how = rng.choice(["runtime", "runtime", "script", "path", "joined", "opt"])
        file = "/t/prog"
        pre.append("copy /bin/%s %s" % (nm, file))
        bad = rng.random() < .5
        if how == "script" and v == "n":
            how = "runtime"
        if how == "joined":
            pre.append("write /t/rt %s" % esc(b"NODE %d\n" % (0 if run.endswith("m") else 1) + data(3, rng.choice([0, 10, 500, 5000]))))
        if bad:
            c.meta["prog"] = None
            x = rng.choice(["cut", "cut", "cut", "cut", "cut", "longer", "magic", "none", "dir", "unreadable", "data", "empty", "text"])
            t = d[-20:]
            if x == "cut":
                sec = [int.from_bytes(t[4 * j:4 * j + 4], "big") for j in range(4)]
                marks = [0, 1, 2, HEAD, size - 20, size - 20 - sec[3], size - 20 - sec[3] - sec[2], size - 20 - sec[3] - sec[2] - sec[1], size - 20 - sum(sec), size]
                n = rng.randrange(size) if rng.random() < .5 else rng.choice(marks) + rng.randrange(-25, 5)
                n = max(0, min(size - 1, n))
                c.meta["what"] = "cut to %d of %d bytes" % (n, size)
                pre.append("truncate %s %d" % (file, n))
                if how in ("script",) and n < HEAD:
                    how = "runtime"
            elif x == "longer":
                c.meta["what"] = "extended"
                pre.append("append %s %s" % (file, esc(rng.choice([b"\0", b"x" * 19, data(4, 500), b"\n"]))))
            elif x == "magic":
                c.meta["what"] = "of a different magic number"
                pre.append("corrupt %s %d %d" % (file, rng.randrange(-4, 0), 1 << rng.randrange(8)))
            elif x == "none":
                c.meta["what"] = "missing"
                pre.append("rm " + file)
            elif x == "dir":
                c.meta["what"] = "a directory"
                pre += ["rm " + file, "mkdir %s 777" % file]
            elif x == "unreadable":
                c.meta["what"] = "unreadable"
                pre += ["chmod %s 111" % file, "chown %s 0" % file]
            elif x == "data":
                c.meta["what"] = "random data"
                pre += ["gen %s %s %d %d" % (file, rng.choice("dt"), rng.randrange(100), rng.choice([1, 19, 20, 21, 300, 100000])), "chmod %s 755" % file]
            elif x == "empty":
                c.meta["what"] = "empty"
                pre += ["truncate %s 0" % file]
            else:
                c.meta["what"] = "a text"
                pre += ["write %s %s 755" % (file, esc(b"#!/bin/camlrunm\nprint\n"))]
            if how in ("script", "joined") and x not in ("cut", "longer", "magic", "text") or how == "path" and x in ("none", "dir"):
                how = "runtime"
        A = " ".join(esc(x) for x in args)
        if how == "runtime":
            cmd = "%s %s" % (run, file)
        elif how == "opt":
            cmd = "%s %s %s" % (run, rng.choice(["-v", "-verbose"]), file)
        elif how == "script":
            cmd = file
        elif how == "joined":
            pre.append("join /t/rt %s /t/both 755" % file)
            if rng.random() < .3:      # found through PATH, as shells do
                c.env["PATH"] = "/w:/t:/bin"
                opts.append("arg0=both")
            cmd = "/t/both"
            args2 = [x for x in args if not x.startswith(b"-") and x != b"/t/none"]
            if bad:
                args = args2[:1]
                c.meta["args"] = [esc(x) for x in args]
                A = " ".join(esc(x) for x in args)
        else:
            dirs = rng.sample([b"/q", b"/none", b"/" + b"y" * rng.choice([3, 200, 511, 600, 5000]), b"/bin", b"/w", b"."], rng.choice([0, 1, 3, 5]))
            dirs.insert(rng.randrange(len(dirs) + 1), b"/t")
            if rng.random() < .5:
                pre += ["write /q/prog x 644", "chown /q/prog 1000"]       # not executable: passed over
            c.env["PATH"] = b":".join(dirs).decode()
            cmd = "%s prog" % run
        if rng.random() < .4:
            w = []
            if rng.random() < .5:
                w.append("s=%d" % rng.choice([0, -1, 1, 4096, 4097, 100000, 1000000]))
            if rng.random() < .5:
                w.append("i=%d" % rng.choice([0, -1, 1, 4096, 30000, 1000000]))
            if rng.random() < .5:
                w.append("o=%d" % rng.choice([0, -1, 1, 50, 200, 1000000]))
            if rng.random() < .3:
                w.append(rng.choice(["v=1", "v=0", "v", "", "x=3", "s", "s=", "i=z"]))
            c.env["CAMLRUNPARAM"] = ",".join(w)
        c.script = pre + ["run name=d in=null %s -- %s %s" % (" ".join(opts), cmd, A), "dump /out/d.out", "dump /out/d.err"]
        return c


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "... %r (not %r)" % (x[:60], y[:60])
    return "%d of %d lines, the last %r" % (len(a), len(b), a[-1:])
