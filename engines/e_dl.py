"""C28: foreign libraries."""
from core import *
from simlib import *
import e_io


def make(b, prop):
    return Dl(b, prop)


NOS = {"liba.so": 40, "libb.so": 41}
SYMS = ["%s%d" % (x, k) for x in ("pack", "last", "boom") for k in (1, 2, 3, 4, 5)] + ["set", "count", "stale", "var"]


def pr(s):
    """the printed form of a value"""
    pos = [0]

    def num():
        j = s.index(";", pos[0])
        v = int(s[pos[0]:j])
        pos[0] = j + 1
        return v

    def one():
        c = s[pos[0]]
        pos[0] += 1
        if c == "s":
            a = num()
            return b"s" + show(data(a, num())) + b";"
        if c == "l":
            n = num()
            return b"l%d;" % n + b"".join(one() for _ in range(n))
        return c.encode() + b"%d;" % num()
    return one()


class Dl(Engine):
    name = "dynlib"
    groups_quick = 3000
    real = ["dynlib.c", "callback.c (calls of C functions)", "interp.c (C_CALLN)", "Dynlib"]
    stub = ["dynamic linker", "two C libraries written for the check"]
    assumptions = ["the dynamic linker keeps its error until it is asked for it, as POSIX says"]
    FAULTS = ("err_dl", "malloc")

    def prepare(self):
        self.b.compile_driver("dl", [VERIF + "/drv/Sim.sml", VERIF + "/drv/DlDrv.sml"])
        return ["LOAD /bin/dl %s/dl 755" % self.b.drv]

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        for cl in ("gc", "place", "slice"):
            if rng.random() < .6:
                c.cls[cl] = [rng.choice([100, 3000, 100000]) if cl == "gc" else rng.choice([3000, 100000, 500000]), 0, 1 << 40, 1 << 40]
        if k % 2 == 1:
            cls = rng.choice([("err_dl",), ("err_dl",), ("malloc",), self.FAULTS])
            if rng.random() < .6:
                c.D = pick_targets(rng, r0.counts, list(cls), rng.choice([1, 1, 2]))
            else:
                for cl in cls:
                    c.cls[cl] = [rng.choice([3000, 30000, 200000]), 0, 1 << 40, rng.choice([1, 3, 1 << 40])]
        return c

    def judge(self, case, r):
        F = r.cls.get("err_dl", (0, 0))[1]
        oom = r.cls.get("malloc", (0, 0))[1]
        ops = [o.split() for o in case.ops["d"]]
        log = r.log("d")
        if r.status("d") != 0 and not (oom and r.status("d") == 512):
            return ["ended with status %s" % r.status("d")]
        if (len(log) != len(ops) + 1 or log[-1] != b"end") and r.status("d") == 0:
            return ["%d of %d results" % (len(log), len(ops))]
        hs, ss, ps = {}, {}, {}
        libs = {n: {"refs": 0, "var": no, "calls": 0} for n, no in NOS.items()}
        self.flags = b""
        self.mem = None
        self.pinned = 0
        for w, x in zip(ops, log):
            m = self.one(w[1:], x, F, oom, hs, ss, ps, libs)
            if m:
                return ["op %s: %s" % (" ".join(w)[:100], m)]
        return []

    def call(self, s, args, x, packed, oom):
        """the result of calling symbol s of a library"""
        h, name = s
        l = h["lib"]
        k = int(name[-1])
        if name.startswith("boom"):
            return None if x == b"!Out_of_memory" and oom else None if x == b"!Fail lib%s %d" % (h["name"][3:4].encode(), k) else "%r" % x
        if x == b"!Out_of_memory" and oom:
            l["calls"] = None
            return None
        if l["calls"] is not None:
            l["calls"] += 1
        want = b"".join(pr(a) for a in args) + b"%d" % NOS[h["name"]] if packed else pr(args[-1])
        return None if x == want else "%r instead of %r" % (x[:100], want[:100])

    def one(self, w, x, F, oom, hs, ss, ps, libs):
        o = w[0]
        if x == b"!Out_of_memory" and not oom:
            return "Out_of_memory without reason"
        if o == "open":
            n = unesc(w[2]).decode("latin-1")
            base = n.rsplit("/", 1)[-1]
            if x == b"+":
                if base not in NOS:
                    return "opened"
                l = libs[base]
                if l["refs"] == 0:
                    l["var"], l["calls"] = NOS[base], 0
                l["refs"] += 1
                self.flags = (base + (" now" if w[3] == "n" else " lazy") + (" global" if w[4] == "g" else " local")).encode()
                hs[w[1]] = {"name": base, "lib": l, "open": True}
                return None
            if x == b"!Out_of_memory":
                self.pinned = 1       # it may have been opened
                return None
            msgs = [unesc(w[2]) + b": cannot open shared object file: " + y + b" while loading C library " + unesc(w[2]) for y in (b"No such file or directory", b"Cannot allocate memory")]
            if base not in NOS:
                return None if x in [b"!Fail " + m for m in msgs[:1 + (F > 0)]] else "%r" % x
            return None if F and x == b"!Fail " + msgs[1] else "%r" % x
        if o == "sym":
            h = hs.get(w[2])
            if h is None:
                return None if x == b"!Fail nothing" else "%r" % x
            if not h["open"]:
                return None if x == b"!Closed" or x == b"!Out_of_memory" else "%r on a closed handle" % x
            s = unesc(w[3]).decode("latin-1")
            have = s in SYMS or s == "only" + h["name"][:4]
            if x == b"+":
                if not have:
                    return "found"
                ss[w[1]] = (h, s)
                return None
            if x == b"!Out_of_memory":
                return None
            if (not have or F) and x.startswith(b"!Fail undefined symbol: " + unesc(w[3]) + b" when binding " + unesc(w[3]) + b" in "):
                return None
            return "%r" % x
        if o == "close":
            h = hs.get(w[1])
            if h is None:
                return None if x == b"!Fail nothing" else "%r" % x
            if x != b"+":
                return "%r" % x
            if h["open"]:
                h["open"] = False
                h["lib"]["refs"] -= 1
            return None
        if o == "garbage":
            return None if x == b"+" or x == b"!Out_of_memory" else "%r" % x
        if o == "ctl":
            if w[1] == "dlflags":
                return None if x == self.flags or self.pinned else "opened with %r instead of %r" % (x, self.flags)
            if w[1] == "dlrefs":
                want = b"%d %d" % (libs["liba.so"]["refs"], libs["libb.so"]["refs"])
                return None if x == want or self.pinned else "open handles %r instead of %r" % (x, want)
            if w[1] == "!mem":
                n = int(x.split()[2])
                if self.mem is not None and n > self.mem and not oom:
                    return "%d blocks of C memory are in use, at first %d" % (n, self.mem)
                self.mem = n if self.mem is None else self.mem
                return None
            return None if x == b"ok" else "%r" % x
        if o == "go":
            p = ps.get(w[1])
            if p is None:
                return None if x == b"!Fail nothing" else "%r" % x
            s, args, packed = p
        else:
            s = ss.get(w[3] if o == "part" else w[2] if o == "app" else w[1])
            if s is None:
                return None if x == b"!Fail nothing" or x == b"!Out_of_memory" else "%r" % x
        if o == "part":
            if x == b"+":
                ps[w[2]] = (s, w[4:], w[1] == "p")
                return None
            return None if x == b"!Out_of_memory" else "%r" % x
        if not s[0]["open"]:
            return None if x in (b"!Closed", b"!Out_of_memory") else "%r although the library was closed" % x
        l = s[0]["lib"]
        if o == "app":
            return self.call(s, w[3:], x, w[1] == "p", oom)
        if o == "go":
            return self.call(s, args, x, packed, oom)
        if x == b"!Out_of_memory":
            return None
        if o == "var":
            return None if x == b"%d" % l["var"] else "%r instead of %d" % (x, l["var"])
        if o == "set":
            l["var"] = int(w[2])
            return None if x == b"+" else "%r" % x
        if o == "count":
            return None if l["calls"] is None or x == b"%d" % l["calls"] or self.pinned else "%r instead of %d calls" % (x, l["calls"])
        return None if x == b"+" else "%r" % x

    def value(self, rng, d=2):
        k = rng.choice("iisfu" + ("l" if d else ""))
        if k == "i":
            return "i%d;" % rng.choice([0, 1, -1, 5, 10, 2 ** 31, 2 ** 62 - 1, 1 - 2 ** 62])
        if k == "s":
            return "s%d;%d;" % (rng.randrange(50), rng.choice([0, 1, 7, 8, 100, 3000]))
        if k == "l":
            n = rng.choice([0, 1, 3])
            return "l%d;" % n + "".join(self.value(rng, d - 1) for _ in range(n))
        return k + "%d;" % rng.randrange(-9, 100)

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        c.opts["arm"] = 1
        o = []
        names = [b"liba.so", b"liba.so", b"libb.so", b"libb.so", b"/usr/lib/liba.so"]
        bad = [b"libc.so", b"", b"none", b"/none/libd.so", b"lib" + b"x" * 300 + b".so", b"lib%dS.so", b"%s%n"]
        slots = {}        # what a handle probably is
        syms = {}
        parts = {}
        nsym = [0]
        G = lambda: "i%d;" % rng.choice([0, 5, 1])     # the last argument decides about collections

        def bind(h):
            j = nsym[0]        # each slot holds one kind of symbol: calls are not checked
            if j >= 39:
                return
            nsym[0] += 1
            s = rng.choice(SYMS) if rng.random() < .9 else rng.choice(["none", "onlyliba", "onlylibb", "", "x" * 300, "pack6", "%s%n"])
            o.append("sym %d %d %s" % (j, h, esc(s.encode())))
            if s in SYMS:
                syms[j] = s
        for _ in range(rng.choice([5, 20, 60])):
            x = rng.random()
            if x < .12 or not slots:
                h = rng.randrange(6)
                n = rng.choice(names) if rng.random() < .85 else rng.choice(bad)
                o.append("open %d %s %s %s" % (h, esc(n), rng.choice("nl"), rng.choice("gl")))
                if n in names:
                    slots[h] = n
                if rng.random() < .5:
                    o.append("ctl dlflags")
            elif x < .35 or not syms:
                bind(rng.choice(list(slots)))
            elif x < .42:
                o.append("close %d" % rng.choice(list(slots)))
            elif x < .46:
                o.append("ctl dlrefs")
            elif x < .5:
                o.append("garbage 3000")
            else:
                j = rng.choice(list(syms))
                s = syms[j]
                if s in ("var", "count", "stale"):
                    o.append("%s %d" % (s, j))
                elif s == "set":
                    o.append("set %d %d" % (j, rng.choice([0, 1, 77, 123456789])))
                else:
                    k = int(s[-1])
                    if s.startswith("pack"):
                        args = [self.value(rng) for _ in range(k - 1)] + [G()]
                    else:
                        args = [self.value(rng) for _ in range(k)]
                    p = "p" if s.startswith("pack") else "v"
                    if rng.random() < .25:
                        q = rng.randrange(8)
                        o.append("part %s %d %d %s" % (p, q, j, " ".join(args)))
                        parts[q] = 1
                    else:
                        o.append("app %s %d %s" % (p, j, " ".join(args)))
            if parts and rng.random() < .1:
                o.append("go %d" % rng.choice(list(parts)))
        if rng.random() < .3:      # many failing calls leak nothing
            o += ["open 7 liba.so l l", "sym 39 7 boom5", "app v 39 i1; i2; i3; i4; i5;", "ctl !mem"] + ["app v 39 i1; i2; i3; i4; i5;"] * 8 + ["ctl !mem"]
        o.append("ctl !verify")
        c.ops["d"] = ["%d %s" % (j + 1, x) for j, x in enumerate(o)]
        c.script = ["run name=d in=null -- %s /bin/dl" % rng.choice(e_io.VARIANTS)]
        return c
