"""C09: interrupts."""
from core import *
from simlib import *
import e_io


def make(b, prop):
    return Sig(b, prop)


FIB = [0, 1]
while len(FIB) < 30:
    FIB.append(FIB[-1] + FIB[-2])


class Sig(Engine):
    name = "sig"
    groups_quick = 1600
    real = ["runtime system (signals.c, interp.c, sys.c, io.c, stacks.c, memory management)", "TextIO, Susp, Listsort, Polyhash, Process, Dynlib"]
    stub = ["kernel: signals are delivered at system calls, at the interpreter's polls and inside the marked windows", "a feeder process on standard input"]
    assumptions = ["signals arrive between instructions of the interpreter, at system calls, or inside the windows marked Sim_race in signals.c and interp.c; arrival between a completed read and leave_blocking_section is not simulated (documented loss)"]

    def prepare(self):
        self.b.compile_driver("sig", [VERIF + "/drv/Sim.sml", VERIF + "/drv/SigDrv.sml"])
        self.b.compile_driver("sock", [VERIF + "/drv/Sim.sml", VERIF + "/drv/SockDrv.sml"])
        return ["LOAD /bin/sig %s/sig 755" % self.b.drv, "LOAD /bin/sock %s/sock 755" % self.b.drv]

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        ops = []
        n = rng.randrange(2, 14)
        kinds = ["fill", "push", "force", "deep", "nest", "viac", "mapn", "sort", "tree", "hash", "str", "cat", "big"]
        if rng.random() < 0.6:
            kinds = rng.sample(kinds, rng.randrange(1, 6)) + ["fill"]
        io = rng.random() < 0.7
        if io:
            kinds += ["read", "read1", "input", "line", "look", "nb", "out", "out", "flush", "sleep"]
        if rng.random() < 0.35:
            kinds += rng.sample(["child", "kid", "file", "gdir", "intf"], 2)
        sock = rng.random() < 0.3
        grams = []
        if sock:
            kinds += ["sacc", "srecv", "srecv", "sarr", "ssel"]
            ops.append("sacc")
            if rng.random() < 0.5:
                kinds += ["sfrom"] * 2
        for j in range(n):
            k = rng.choice(kinds)
            if k == "sfrom":
                if len(grams) > 5:
                    continue
                grams.append("sendto 1 v U:/tmp/g %d %d 0 -" % (rng.randrange(1000), rng.choice([1, 10, 300])))
            o = {"sacc": lambda: "sacc", "srecv": lambda: "srecv %d" % rng.choice([1, 10, 100, 3000]), "sarr": lambda: "sarr %d" % rng.choice([1, 10, 100, 3000]),
                 "sfrom": lambda: "sfrom %d" % rng.choice([5, 400]), "ssel": lambda: "ssel %d" % rng.choice([0, 1, 500, 3000]),
                 "child": lambda: "child %s" % rng.choice(["0", "0.1", "2"]), "kid": lambda: "kid %d" % rng.choice([0, 10, 5000, 70000]),
                 "file": lambda: "file %d" % rng.choice([0, 63, 64, 5000]), "gdir": lambda: "gdir", "intf": lambda: "intf %d" % rng.randrange(2, 60),
                 "fill": lambda: "fill %d" % (j + 1), "push": lambda: "push %d" % rng.randrange(1, 600), "force": lambda: "force %d" % rng.randrange(4),
                 "deep": lambda: "deep %d" % rng.choice([10, 1000, 9000, 40000]), "nest": lambda: "nest %d" % rng.choice([1, 20, 300, 2000]),
                 "viac": lambda: "viac %d" % rng.choice([1, 5, 40]), "mapn": lambda: "mapn %d" % rng.randrange(1, 60),
                 "sort": lambda: "sort %d" % rng.randrange(1, 250), "tree": lambda: "tree %d %d" % (rng.randrange(1, 120), j), "hash": lambda: "hash %d" % rng.randrange(1, 120),
                 "str": lambda: "str %d" % rng.randrange(1, 400), "cat": lambda: "cat %d" % rng.randrange(1, 200), "big": lambda: "big %d" % rng.choice([3, 30, 100]),
                 "read": lambda: "read %d" % rng.randrange(1, 300), "read1": lambda: "read1", "input": lambda: "input", "line": lambda: "line", "look": lambda: "look", "nb": lambda: "nb",
                 "out": lambda: "out %d %d" % (rng.randrange(10 ** 6), rng.choice([1, 50, 63, 64, 65, 200, 5000])), "flush": lambda: "flush", "sleep": lambda: "sleep %d" % rng.choice([0, 1, 20, 300])}[k]()
            ops.append(o)
            if rng.random() < 0.25:
                ops.append("check")
        ops.append("check")
        c.ops["d"] = ["%d %s" % (j + 1, o) for j, o in enumerate(ops)]
        inn = "null"
        if io:
            inn = "feed:i0"
            c.ops["i0"] = []
            for _ in range(rng.randrange(1, 6)):
                c.ops["i0"] += ["G %s %d %d" % (rng.choice("dtt"), rng.randrange(10 ** 6), rng.choice([1, 10, 64, 100, 300, 5000]))]
                c.ops["i0"] += ["S %d" % rng.choice([1000, 10 ** 6, 10 ** 8, 10 ** 10])]
        c.opts["arm"] = 1
        c.opts["gtime"] = 1
        peer = []
        if sock:
            c.env["SOCK"] = "1"
            c.opts["sockcap"] = rng.choice([64, 1000, 100000])
            q = ["mk 0 us"] + ["sleep %d" % rng.choice([1000, 1000000])] * (rng.random() < .5) + ["connectr 0 U:/tmp/s 100000", "mk 1 ud"]
            st = []
            for _ in range(rng.choice([0, 1, 3, 6])):
                st += ["sendall 0 %d %d" % (rng.randrange(1000), rng.choice([1, 10, 100, 3000]))]
            st = grams + st           # the stream may fill up
            for x in st:
                q += ["sleep %d" % rng.choice([1, 1000, 100000, 2000000])] * (rng.random() < .6) + [x]
            q += ["sleep %d" % rng.choice([1, 2000000]), "close 0"]
            c.ops["p"] = ["%d %s" % (j + 1, o) for j, o in enumerate(q)]
            c.meta["fixed_ops"] = ["p"]
            peer = ["spawn name=p in=null fault=0 sig=0 ign=13 -- /bin/camlrunm /bin/sock"]
        kills = []
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2, 3])):
                kills += ["sleep %d" % rng.choice([10 ** 4, 10 ** 5, 10 ** 6, 10 ** 7, 10 ** 9, 3 * 10 ** 9]), "kill d 2"]
        c.script = ["spawn name=d in=%s -- %s /bin/sig" % (inn, rng.choice(e_io.VARIANTS))] + peer + kills + ["waitall" if not io and not sock else "wait d", "dump /home"]
        c.meta["kind"] = "io=%d,kills=%d,sock=%d" % (io, len(kills) // 2, sock)
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        pid = r0.pid("d")
        counts = {pid: dict(r0.counts.get(pid, {}))}
        counts[pid]["pollsig"] = counts[pid].get("poll", 0)
        if k % 3 == 0:
            c.D = pick_targets(rng, counts, ["pollsig"], 1)
        elif k % 3 == 1:
            c.D = pick_targets(rng, counts, ["pollsig", "syssig", "racesig", "syssig", "racesig"], rng.choice([1, 1, 2, 3]))
        else:
            for cl in ("pollsig", "syssig", "racesig"):
                if rng.random() < 0.6:
                    c.cls[cl] = [rng.choice([10, 100]) if cl == "pollsig" else rng.choice([20000, 200000]), 0, 1 << 40, rng.choice([1, 2, 5, 40])]
        for cl in ("gc", "short_r", "short_w", "eintr", "sched", "place", "slice"):
            if rng.random() < 0.3:
                c.cls[cl] = [rng.choice([20, 300]) if cl == "gc" else rng.choice([3000, 100000, 300000]), 0, 1 << 40, 1 << 40]
        return c

    # ---- oracle
    def judge(self, case, r):
        bad = []
        pid = r.pid("d")
        sigs = ints = 0
        pending = 0
        grace = 0
        held = 0
        log = []
        now = since = 0
        for e in r.events:
            if e[0] == "AT":
                now = int(e[1])
            elif e[0] == "G" and int(e[1]) == pid and int(e[2]) == 2:
                sigs += 1
                held = 0
                if not pending:
                    since = now
                pending = 1
                grace = 2
            elif e[0] == "HELD" and int(e[1]) == pid:
                held = held or 1
            elif e[0] == "L" and e[1] == pid:
                log.append(e[2])
                if held and not e[2].startswith(b"INT"):
                    held += 1
                    if held > 3 or e[2] == b"done":
                        bad.append("a signal is still blocked when %r is completed" % e[2][:40])
                        break
                if e[2].startswith(b"INT"):
                    ints += 1
                    if pending and now - since > 100000000:
                        bad.append("Interrupt was raised %.1f s after the signal (at %r)" % ((now - since) / 1e9, e[2][:40]))
                        break
                    pending = 0
                    if ints > sigs:
                        bad.append("Interrupt was raised %d times for %d signals (at %r)" % (ints, sigs, e[2]))
                        break
                elif e[2] == b"done":
                    if pending:
                        bad.append("a signal never raised Interrupt")
                else:
                    grace -= 1
                    if pending and grace <= 0:
                        bad.append("a signal did not raise Interrupt before %r was completed" % e[2][:40])
                        break
        st = r.status("d")
        if st == 2 and not sigs and not log:
            return []              # killed before it had begun
        if st == 512 and (sigs - ints >= 2 or sigs - ints == 1 and (not log or log[-1].startswith(b"INT") or b"done" in log
                             or log[-1].split()[1:2] == [x.split()[0].encode() for x in case.ops["d"][-1:]])):
            if b"done" not in log:
                return []          # outside the range of any handler
            st = 0
        if st != 0 and not bad:
            bad.append("the program ended with status %s after %d signals" % (st, sigs))
        if bad:
            return bad
        return self.model(case, r, log)

    def model(self, case, r, log):
        ops = {int(o.split()[0]): o.split()[1:] for o in case.ops["d"]}
        src = e_io.fed(case.ops.get("i0", []))
        arr = [[0] * 40]           # possible states are checked on the fly: prefix of a fill over the previous one
        fills = []                 # values in order of the fills that were begun
        pushed = (0, 0)
        pos = {0}
        sg = e_io.Seg()
        order = sorted(ops)
        pops = [o.split()[1:] for o in case.ops.get("p", [])]
        ssrc = b"".join(data(int(o[2]), int(o[3])) for o in pops if o[0] == "sendall")
        gram = [data(int(o[4]), int(o[5])) for o in pops if o[0] == "sendto"]
        spos = {0}
        gpos = {0}
        acc = "no"
        done = {}
        for l in log:
            w = l.split(b" ", 2)
            if w[0] == b"ok":
                done[int(w[1])] = ("ok", w[2] if len(w) > 2 else b"")
            elif w[0] == b"INT" and w[1] != b"0":
                done.setdefault(int(w[1]), ("INT", b""))
            elif w[0] == b"!" and w[2] == b"FailEINTR" and ops[int(w[1])][0] in ("sacc", "srecv", "sarr", "sfrom", "ssel") and r.cls.get("eintr", (0, 0))[1]:
                done[int(w[1])] = ("INT", b"")
            elif w[0] == b"!":
                return ["op %s %s raised %r" % (w[1].decode(), " ".join(ops[int(w[1])]), w[2])]
        step = e_io.In.step
        prev = [0] * 40
        partial = []               # fills that may have been cut short, newest last
        lo = hi = 0                # length of the list
        for n in order:
            o = ops[n]
            what, res = done.get(n, ("INT", b""))
            if n not in done and not any(x.startswith(b"INT") for x in log):
                return ["op %d %s left no trace" % (n, " ".join(o))]
            ok = what == "ok"
            k = o[0]
            if k == "fill":
                v = int(o[1])
                if ok:
                    partial = []
                    prev = [v] * 40
                else:
                    partial.append(v)
            elif k == "push":
                m = int(o[1])
                lo, hi = (lo + m, hi + m) if ok else (lo, hi + m)
            elif k == "check" and ok:
                a, ln, g, hs = res.split(b" ")
                cells = []
                for x in a.split(b","):
                    if x:
                        v, _, m = x.partition(b"x")
                        cells += [int(v)] * int(m)
                if not self.fits(cells, prev, partial):
                    return ["op %d check: the array %r is not a state of the interrupted fills %s over %s" % (n, a, partial, prev[:1])]
                prev, partial = cells, []
                ln = int(ln)
                if not lo <= ln <= hi:
                    return ["op %d check: the list has %d elements, expected %d to %d" % (n, ln, lo, hi)]
                lo = hi = ln
            elif k == "force" and ok:
                m = 30 + int(o[1])
                want = 5 * m * (m - 1) // 2
                if int(res) != want:
                    return ["op %d force: %r instead of %d" % (n, res, want)]
            elif k == "sacc":
                if ok and res != (b"new" if acc == "no" else b"tried") and not (acc == "?" and res == b"new"):
                    return ["op %d sacc: %r" % (n, res)]
                acc = "yes" if ok and res == b"new" else "?" if not ok and acc == "no" else acc
            elif k in ("srecv", "sarr"):
                m = int(o[1])
                if ok and res == b"nosock":
                    if acc == "yes":
                        return ["op %d %s: the accepted connection is gone" % (n, k)]
                elif ok:
                    if acc == "no":
                        return ["op %d %s: data %r without a connection" % (n, k, res[:40])]
                    acc = "yes"
                    b, f = e_io.unshow(res)
                    j = len(b) if b is not None else f[0]
                    nxt = {q + j for q in spos if j <= min(m, len(ssrc) - q) and (j > 0 or q == len(ssrc)) and res == show(ssrc[q:q + j])}
                    if not nxt:
                        return ["op %d %s: %r is not what the peer sent at %s" % (n, " ".join(o), res[:60], sorted(spos)[:4])]
                    spos = nxt
                else:
                    spos = {q + j for q in spos for j in range(0, min(m, len(ssrc) - q) + 1)}
            elif k == "sfrom":
                m = int(o[1])
                if ok:
                    nxt = {q + 1 for q in gpos if q < len(gram) and res == show(gram[q][:m])}
                    if not nxt:
                        return ["op %d %s: %r is not the next datagram" % (n, " ".join(o), res[:60])]
                    gpos = nxt
                else:
                    gpos = gpos | {q + 1 for q in gpos}
            elif k == "child" and ok and res != b"0" or k == "file" and ok and res != b"same" or k == "intf" and ok and res != b"ok" or k == "kid" and ok and int(res) != int(o[1]) or k == "gdir" and ok and res not in (b"1", b"2"):
                return ["op %d %s: %r" % (n, " ".join(o), res)]
            elif k == "deep" and ok and int(res) != int(o[1]):
                return ["op %d deep: %r" % (n, res)]
            elif k == "nest" and ok and int(res) != FIB[8] + int(o[1]):
                return ["op %d nest: %r" % (n, res)]
            elif k == "viac" and ok and int(res) != FIB[7] + int(o[1]):
                return ["op %d viac: %r" % (n, res)]
            elif k == "mapn" and ok:
                m = int(o[1])
                if int(res) != m * (m - 1) // 2 + m * FIB[3]:
                    return ["op %d mapn: %r" % (n, res)]
            elif k == "sort" and ok and int(res if res != b"unsorted" else -1) != int(o[1]):
                return ["op %d sort: %r" % (n, res)]
            elif k == "big" and ok and int(res) != int(o[1]) * (int(o[1]) + 1) // 2:
                return ["op %d big: %r" % (n, res)]
            elif k == "cat" and ok and int(res) != sum(len(str(x)) for x in range(1, int(o[1]) + 1)):
                return ["op %d cat: %r" % (n, res)]
            elif k in ("read", "read1", "input", "line", "look", "nb"):
                name = {"read": "inputN", "read1": "input1", "input": "input", "line": "inputLine", "look": "lookahead", "nb": "input"}[k]
                if ok:
                    if k == "nb" and res == b"nothing":
                        continue
                    w = [name, "0"] + o[1:]
                    nxt = {q for q in (step(None, w, "std", src, p, res) for p in pos) if q is not None}
                    if not nxt:
                        return ["op %d %s: result %r is not what the source holds there (positions %s of %d)" % (n, " ".join(o), res[:60], sorted(pos)[:3], len(src))]
                    pos = nxt
                else:
                    lim = {"read": int(o[1]) if k == "read" else 0, "read1": 1, "input": 60, "nb": 60, "look": 1}.get(k, len(src))
                    pos = {q for p in pos for q in range(p, min(len(src), p + lim) + 1)}
            elif k == "out":
                sg.add(data(int(o[1]), int(o[2])), not ok)
        D = r.files.get("/home/out")
        if D is not None and not self.outok(sg, D):
            return ["the output file (%d bytes) is not a sequence of the whole writes that were made" % len(D)]
        return []

    def outok(self, sg, D):
        pos = {0}
        for b, opt in sg.segs:
            nxt = set()
            for p in pos:
                if opt:
                    nxt.add(p)
                if D[p:p + len(b)] == b:
                    nxt.add(p + len(b))
            pos = nxt
        return len(D) in pos

    def fits(self, cells, base, partial):
        # the last fill covers a prefix, the one before it may show beyond it, and so on
        limit = len(cells)
        i = 0
        for v in reversed(partial):
            while i < limit and cells[i] == v:
                i += 1
        return cells[i:] == base[i:]
