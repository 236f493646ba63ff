"""C11: values stored through channels."""
import struct
from core import *
from simlib import *
import e_gc
from e_gc import Heap, Model, N, I, finger, NREGS, UNIT, istr


def make(b, prop):
    return Store(b, prop)


def graph(roots):
    seen, order, st = set(), [], list(roots)
    while st:
        n = st.pop()
        if id(n) not in seen:
            seen.add(id(n))
            order.append(n)
            st += n.kids()
    return order


def clone(root):
    """a copy with the same sharing"""
    nodes = graph([root])
    m = {id(n): (n if n.k == "U" else N(n.k)) for n in nodes}
    for n in nodes:
        if n.k == "U":
            continue
        f = lambda x: m[id(x)] if isinstance(x, N) else [m[id(y)] for y in x] if isinstance(x, list) else bytearray(x) if isinstance(x, bytearray) else x
        m[id(n)].a = [f(x) for x in n.a]
    return m[id(root)]


def storable(root):
    return not any(n.k in "FBZX" for n in graph([root]))


class SModel(Model):
    """A file is ("v", values) | ("i", n) | ("part", values): what it holds may be cut short."""

    def __init__(self):
        Model.__init__(self)
        self.f = {}

    def o_sput(self, f, c, a):
        if not storable(self.g(a)):
            self.f[f] = ("bad",)
            return b"!Invalid_argument"
        self.f[f] = ("v", [clone(self.g(a))])
        return b"+"

    def o_sput3(self, f, c, a, b, d):
        l = []
        for x in (a, b, d):
            if not storable(self.g(x)):
                self.f[f] = ("v", l, 1)
                return b"!Invalid_argument"
            l.append(clone(self.g(x)))
        self.f[f] = ("v", [clone(self.g(x)) for x in (a, b, d)])
        return b"+"

    def o_sputi(self, f, c, n):
        self.f[f] = ("i", int(n))
        return b"+"

    def o_sbig(self, f, c, n):
        self.f[f] = ("B", int(n))
        return b"+"

    def o_sbigr(self, f):
        return self.read("B", [], f, None)

    def failed(self, w):
        """the operation raised: what is left?"""
        if w[0] in ("sput", "sput3", "sputi", "sbig"):
            had = self.f.get(w[1])
            self.run(w)
            new = self.f[w[1]]
            self.f[w[1]] = ("part", [new] + ([("none",)] if had is None else []) + ([had] if had is not None and had[0] != "part" else had[1] if had else []))
        elif w[0] == "cut":
            self.f[w[3]] = ("part", [self.f.get(w[3], ("bad",)), self.f.get(w[1], ("bad",))])

    REFUSED = (b"!Size", b"!Fail intern", b"!Fail input_value")

    def read(self, kind, regs, f, show):
        st = self.f.get(f)
        if st is None:
            return lambda r: None if r == b"!SysErr" else "reading a file that does not exist gives %r" % r

        def one(st, r):
            if st[0] == "part":
                flat = []
                todo = list(st[1])
                while todo:
                    x = todo.pop()
                    if x[0] == "part":
                        todo += x[1]
                    else:
                        flat.append(x)
                if r.startswith(self.REFUSED) or r == b"!SysErr" and ("none",) in flat:
                    return None
                for x in flat:
                    if x[0] == "none":
                        continue
                    if one(x, r) is None or x[0] == "v" and len(x[1]) == 3 and one(("cut", x[1]), r) is None:
                        return None
                return "a file whose writing failed reads as %r" % r[:60]
            if st[0] == "cut":
                if r.startswith(self.REFUSED):
                    return None
                want = show([finger(x) for x in st[1]])
                if r != want if len(regs) == 1 else not want.startswith(r) or len(r) < len(want) - 4:
                    return "a file that was cut short reads as %r" % r[:60]
                for a, x in zip(regs, st[1]):
                    self.p(a, clone(x))
                return None
            if st[0] == "bad" or st[0] != kind or (kind == "v" and len(st[1]) < len(regs)):
                return None if r.startswith(self.REFUSED) else "a damaged file reads as %r" % r[:60]
            want = show([finger(x) for x in st[1]]) if kind == "v" else b"ok %d" % st[1] if kind == "B" else istr(st[1])
            if want != r:
                return "%r instead of %r" % (r[:80], want[:80])
            for a, x in zip(regs, st[1] if regs else ()):
                self.p(a, clone(x))
            return None
        return lambda r: one(st, r)

    def o_sget(self, a, f):
        return self.read("v", [a], f, lambda l: l[0])

    def o_sget3(self, a, b, d, f):
        return self.read("v", [a, b, d], f, lambda l: b",".join(l) + b",mid,tail")

    def o_sgeti(self, f):
        return self.read("i", [], f, None)

    def o_cut(self, f, n, g):
        st = self.f.get(f)
        if st is None:
            # the target is opened first
            self.f[g] = ("bad",)
            return b"!SysErr"
        self.f[g] = ("cut", st[1]) if st[0] == "v" and len(st[1]) == 3 else ("part", [st]) if st[0] == "part" or len(st) == 3 else ("bad",)
        return b"+"

    def o_sleak(self, n, a): return b""
    o_rleak = o_sleak


class Store(Heap):
    name = "store"
    groups_quick = 1500
    real = ["runtime system (extern.c, intern.c, externcp.c, interncp.c, io.c, memory management)", "Nonstdio, BasicIO"]
    stub = ["kernel: files, their errors and the splitting of transfers"]
    assumptions = e_gc.COMMON_ASSUME + ["a stored file is cut short or its transfer fails; files with altered bytes are outside the property (the format has no checksum)"]
    build = [x for x in Heap.build if x not in ("exn", "lazy")]
    work = [x for x in Heap.work if x not in ("app",)]
    FILES = ["/s%d" % i for i in range(4)]
    CUTS = ["/c%d" % i for i in range(2)]
    verify_every = [1, 3]

    def basic(self, rng):
        t = Heap.basic(self, rng)
        R = lambda: rng.randrange(NREGS)
        F = lambda: rng.choice(self.FILES)
        G = lambda: rng.choice(self.FILES[:3] + self.CUTS + self.CUTS)
        C = lambda: rng.choice("sssc")
        t.update({"sput": lambda: (F(), C(), R()), "sput3": lambda: (F(), C(), R(), R(), R()), "sputi": lambda: ("/i", C(), rng.choice([0, 1, -1, 63, 64, -64, 127, 128, -128, -129, 32767, 32768, -32769, 2 ** 30, -2 ** 30, 2 ** 31, 2 ** 31 - 1, -2 ** 31, -2 ** 31 - 1, 2 ** 40, -2 ** 61, 2 ** 61])),
                  "sget": lambda: (R(), G()), "sget3": lambda: (R(), R(), R(), G()), "sgeti": lambda: ("/i",),
                  "cut": lambda: (F(), rng.choice([0, 1, 3, 4, 5, 8, 9, 12, 15, 16, 17, 20, 24, 25, 40, -1, -2, -3, -4, -5, -8, -9, rng.randrange(5000)]), rng.choice(self.CUTS)),
                  "big": lambda: (R(), "%d" % rng.randrange(10 ** 12))})
        return t

    def mix(self, rng):
        st = ["sput", "sput", "sput3", "sputi", "sget", "sget", "sget3", "sgeti", "cut"]
        return [(self.build, 8), (self.work, 5), (self.collect, 2), (st, 10), (["big", "clo"], rng.choice([0, 0, 0.5])), (["viac", "cmapn", "phys", "phys", "ref", "arr", "upd", "upd"], 3)]

    def ops(self, rng):
        x = rng.random()
        if x > 0.96:          # values of many objects, shared from far away
            out = [o for o in Heap.ops(self, rng)][:20]
            for n in rng.sample([300, 5000, 20000, 40000, 70000], 2):
                out += ["sbig /b %s %d" % (rng.choice("scc"), n), rng.choice(["full", "minor", "sum"]), "sbigr /b"]
                out += [rng.choice(["full", "sum"])]
            return out
        if x < 0.15:
            out = [o for o in Heap.ops(self, rng)][:30]
            bad = rng.random() < 0.5
            if bad:
                out += ["clo 1 2 3", "pair 1 %d 1" % rng.randrange(NREGS)]
            f = rng.choice(self.CUTS)
            out += ["str 3 7 %d" % rng.choice([5, 3000]), "list 2 50 3 3", "sput /s0 %s 2" % rng.choice("sc"), "cut /s0 %d %s" % (-rng.choice([1, 4, 9]), f),
                    "sleak 3 1", "rleak 3 %s" % f, "full", "ctl !mem", "ctl !heap", "sleak 60 1", "rleak 60 %s" % f, "full", "ctl !mem", "ctl !heap", "sum"]
            return out
        return Heap.ops(self, rng)

    def gen(self, rng, i):
        c = Heap.gen(self, rng, i)
        if any(" sbig " in o for o in c.ops["d"]):
            c.opts["verify_every"] = 50
        c.script = ["run name=d -- %s /bin/heap" % rng.choice(["/bin/camlrunm", "/bin/camlrunm1"])] + ["dump " + f for f in self.FILES]
        return c

    def faults(self, rng, base, r0, k):
        c = Heap.faults(self, rng, base, r0, k)
        pid = r0.pid("d")
        counts = {pid: r0.counts.get(pid, {})}
        B = 1 << 40
        x = k % 6
        if x in (0, 5):
            for cl in ("short_r", "short_w", "eintr"):
                if rng.random() < 0.7:
                    c.cls[cl] = [rng.choice([30000, 300000, 900000]), 0, B, B]
        if x in (1, 2):
            c.D += pick_targets(rng, counts, [rng.choice(["err_r", "err_w", "syssig", "err_seek", "err_close", "err_open"])], rng.randrange(1, 4))
        elif x == 3:
            for cl in rng.sample(["err_r", "err_w", "syssig", "malloc", "err_seek"], 2):
                c.cls[cl] = [rng.choice([3000, 30000, 200000]), 0, B, B]
        elif x == 4:
            c.D += pick_targets(rng, counts, ["malloc"], rng.randrange(1, 3))
        if x in (0, 5):
            self.foreign(rng, c, r0)
        return c

    # ---- files from other machines
    def foreign(self, rng, c, r0):
        fs = {}
        for f in self.FILES:
            b = r0.files.get(f)
            if b:
                g = "/x" + f[1:]
                v = convert(b, rng.choice(["32le", "32be", "64be"]))
                if v:
                    fs[g] = f
                    c.script.insert(0, "write %s %s" % (g, esc(v)))
        if fs:
            c.meta["foreign"] = fs
            n = len(c.ops["d"])
            for g in fs:
                c.ops["d"] += ["%d sget %d %s" % (n + 1, rng.randrange(NREGS), g)]
            c.ops["d"].append("%d sum" % (n + 2))
            c.ops["d"].append("%d full" % (n + 3))
            c.ops["d"].append("%d sum" % (n + 4))

    def judge(self, case, r):
        hard = [k for k in ("err_r", "err_w", "syssig", "malloc", "err_seek", "err_close", "err_open") if r.cls.get(k, (0, 0))[1]]
        ops = case.ops["d"]
        log = r.log("d")
        m = SModel()
        st = r.status("d")
        foreign = case.meta.get("foreign", {})
        ok = set()
        if any(k.startswith("err") for k in hard):
            ok |= {b"!Io", b"!SysErr", b"!Size", b"!Fail"}
        if "syssig" in hard:
            ok.add(b"!Interrupt")
        if "malloc" in hard:
            ok.add(b"!Out_of_memory")
        last = blocks = None
        for j, o in enumerate(ops):
            w = o.split()[1:]
            if j >= len(log):
                if "malloc" in hard and st == 512 and ("err_w" in hard or any(x in r.files.get("/out/d.err", b"") for x in e_gc.FATAL)):
                    return []
                if "syssig" in hard and st == 512:
                    return []
                return ["the program ended with status %s before operation %s (%r)" % (st, o, r.files.get("/out/d.err", b"")[:100])]
            got = log[j]
            if len(w) > 1 and w[-1] in foreign and w[-1] not in m.f:
                s = m.f.get(foreign[w[-1]])
                m.f[w[-1]] = s if s is not None else ("bad",)
            if got.split(b" ")[0] in ok and (w[0][0] == "s" or w[0] == "cut" or got in (b"!Out_of_memory", b"!Interrupt")):
                if got == b"!Interrupt" and w[0][:4] != "sput" or got == b"!Out_of_memory" and w[0][:4] == "sget":
                    return []      # (what the interrupted computation had done is not modelled)
                m.failed(w)
                if got == b"!Out_of_memory" and w[0] in e_gc.NoMem.skip:
                    return []
                continue
            try:
                want = m.run(w)
            except Exception as ex:
                return [("simfail", "model: %r on %s" % (ex, o))]
            if callable(want):
                e = want(got)
                if e:
                    return ["op %s: %s" % (o, e)]
            elif want != got:
                return ["op %s: %r instead of %r" % (o, got[:80], want[:80])]
            if w == ["ctl", "!mem"]:
                blocks = int(got.split()[2])
            elif w[0] == "ctl" and blocks is not None:
                k = blocks - int(got.split()[4])
                blocks = None
                if last is not None and k > last + 25:
                    return ["after 60 failed transfers %d blocks of memory besides the heap are in use instead of %d" % (k, last)]
                last = k
        if len(log) != len(ops) + 1 or st != 0:
            if "syssig" in hard and st == 512 and len(log) >= len(ops):
                return []
            return ["the program ended with status %s (%r)" % (st, r.files.get("/out/d.err", b"")[:100])]
        return []


def convert(b, to):
    """the first value of a file in the natural format, rewritten as another machine writes it; None if it does not fit"""
    if len(b) < 8 or b[:4] != struct.pack(">I", 0x8495A6B9 + 3):
        return None
    n = struct.unpack(">I", b[4:8])[0]
    if n == 0:
        v = struct.unpack(">i", b[8:12])[0]
        if v & 1 and abs(v) >= 1 << 30:
            return None
        return struct.pack(">I", 0x8495A6B9 + {"32le": 1, "32be": 0, "64be": 2}[to]) + b[4:12]
    if len(b) < 8 + 8 * n:
        return None
    w = struct.unpack("<%dQ" % n, b[8:8 + 8 * n])
    blocks, i = [], 0
    while i < n:
        hd = w[i]
        size, tag = hd >> 10, hd & 0xFF
        blocks.append((i + 1, size, tag, w[i + 1:i + 1 + size]))
        i += 1 + size
    e = "<" if to == "32le" else ">"
    if to == "64be":
        out = []
        for pos, size, tag, f in blocks:
            out.append(struct.pack(">Q", size << 10 | 3 << 8 | tag))
            if tag == 253:
                out.append(struct.pack("<%dQ" % size, *f))
            else:
                out.append(struct.pack(">%dQ" % size, *f))
        return struct.pack(">II", 0x8495A6B9 + 2, n) + b"".join(out)
    new, p = {}, 0
    items = []
    for pos, size, tag, f in blocks:
        if tag == 253:
            raw = struct.pack("<%dQ" % size, *f)
            ln = 8 * size - 1 - raw[-1]
            s32 = (ln + 4) // 4
            body = raw[:ln] + b"\0" * (4 * s32 - ln - 1) + bytes([4 * s32 - 1 - ln])
            items.append((pos, s32, tag, body))
            sz = s32
        elif tag == 254:
            items.append((pos, 2, tag, struct.pack(e + "Q", f[0])))
            sz = 2
        elif tag >= 251:
            return None
        else:
            items.append((pos, size, tag, f))
            sz = size
        new[pos * 8] = (p + 1) * 4
        p += 1 + sz
    out = []
    for pos, size, tag, f in items:
        if size >= 1 << 22:
            return None
        out.append(struct.pack(e + "I", size << 10 | 3 << 8 | tag))
        if isinstance(f, bytes):
            out.append(f)
            continue
        for x in f:
            if x & 1:
                v = x - (1 << 64) if x >> 63 else x
                if not -(1 << 31) <= v < 1 << 31:
                    return None
                out.append(struct.pack(e + "i", v))
            elif x & 2:
                out.append(struct.pack(e + "I", x))
            else:
                out.append(struct.pack(e + "I", new[x]))
    return struct.pack(">II", 0x8495A6B9 + (1 if to == "32le" else 0), p) + b"".join(out)
