"""Streams: C05 (output), C06 (output under errors), C07 (input), C08 (positions)."""
import sys, random
from core import *
from simlib import *

VARIANTS = ["/bin/camlrunm", "/bin/camlrunm1"]
BUF = {0: 4096, 1: 64}
BENIGN_IO = ["short_r", "short_w", "eintr", "sched", "pipechunk", "gc", "tick", "place"]


def make(b, prop):
    return {"C05": Out, "C06": OutErr, "C07": In, "C08": Seek}[prop](b, prop)


def esc1(s):
    return esc(s)


class Base(Engine):
    name = "io"
    real = ["runtime system (io.c, sys.c, fail.c, interp.c, memory management)", "TextIO, BinIO, BasicIO, Nonstdio as compiled by the tree's own compiler"]
    stub = ["kernel file system, pipes and processes", "feeder and drainer processes at the other end of pipes"]
    assumptions = ["the kernel model: read and write may move any positive part of what was asked, or fail with EINTR, EIO, ENOSPC or EPIPE; a close releases the descriptor even if it fails"]
    groups_quick = 700

    def prepare(self):
        self.b.compile_driver("stream", [VERIFP + "/drv/Sim.sml", VERIFP + "/drv/StreamDrv.sml"])
        return ["LOAD /bin/stream %s/stream 755" % self.b.drv]

    def size(self, rng, v):
        B = BUF[v]
        r = rng.random()
        if r < 0.15:
            return rng.choice([0, 1, 2, 3])
        if r < 0.5:
            return max(0, rng.choice([B, B, 2 * B, 60, 127, 128]) + rng.randrange(-3, 4))
        if r < 0.9:
            return rng.randrange(1, 3 * B // 2)
        return rng.randrange(1, 5 * B)

    def swarm(self, rng, classes, ppms=(3000, 30000, 150000, 400000)):
        out = {}
        for c in classes:
            if rng.random() < 0.5:
                out[c] = [rng.choice(ppms), 0, 1 << 40, 1 << 40]
        if "gc" in out:
            out["gc"][0] = rng.choice([20, 300, 3000])
        return out

    benign = BENIGN_IO
    errors = []

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        mode = k % 3
        if mode == 0 or not self.errors:
            c.cls = self.swarm(rng, self.benign)
        if mode == 1 or (mode == 0 and not self.errors):
            c.D += pick_targets(rng, r0.counts, self.benign[:3], rng.randrange(1, 4))
        if self.errors and mode >= 1:
            if mode == 1:
                c.D += pick_targets(rng, r0.counts, self.errors, rng.choice([1, 1, 2]))
            else:
                c.cls = self.swarm(rng, self.benign, (3000, 30000))
                c.cls[rng.choice(self.errors)] = [rng.choice([20000, 100000, 400000]), rng.randrange(0, 6), 1 << 40, rng.choice([1, 2, 3, 1 << 40])]
        return c


VERIFP = VERIF


class Seg:
    """what should be on an output device, as segments: (bytes, optional)"""

    def __init__(self, init=b""):
        self.segs = []
        if init:
            self.segs.append((init, 0))
        self.synced = True

    def add(self, b, failed=False):
        if b:
            self.segs.append((b, 1 if failed else 0))

    def states(self, D):
        """positions in D reachable after consuming all segments; None in the set means D ended early (prefix)"""
        pos = {0}
        pre = False
        for b, opt in self.segs:
            nxt = set()
            for p in pos:
                rest = D[p:p + len(b)]
                if opt:
                    m = 0
                    while m < len(rest) and rest[m] == b[m]:
                        m += 1
                    nxt.update(range(p, p + m + 1))
                    if p + m == len(D):
                        pre = True
                else:
                    if rest == b:
                        nxt.add(p + len(b))
                    elif len(rest) < len(b) and b.startswith(rest):
                        pre = True
            pos = nxt
            if not pos:
                break
        return pos, pre

    def exact(self, D):
        pos, _ = self.states(D)
        return len(D) in pos

    def prefix(self, D):
        pos, pre = self.states(D)
        return pre or len(D) in pos

    def minimal(self):
        return b"".join(b for b, o in self.segs if not o)

    def has_opt(self):
        return any(o for _, o in self.segs)


def unshow(s):
    """-> (bytes, None) or (None, (len, fp))"""
    if s[:1] == b"=":
        return s[1:], None
    if s[:1] == b"#":
        n, _, h = s[1:].partition(b":")
        return None, (int(n), s[1:])
    return None, None


def matches(s, b):
    return s == show(b)


class Out(Base):
    """C05"""

    def gen(self, rng, i):
        v = rng.randrange(2)
        c = Case(rng.randrange(1 << 40))
        ops = []
        dev = {}
        streams = {}
        script = []
        c.opts["pipecap"] = rng.choice([64, 512, 4096, 65536])
        kinds = []
        ns = rng.randrange(1, 4)
        for k in range(3, 3 + ns):
            t = rng.choice(["openOut", "openAppend", "bopenOut", "bopenAppend", "nopenOut", "nopenExcl", "fifo"])
            path = "/home/f%d" % k
            if t == "fifo":
                script.append("fifodrain %s fd%d" % (path, k))
                c.ops["fd%d" % k] = ["R %d" % rng.randrange(1, 9000), "S %d" % rng.randrange(1, 10 ** 7)] * rng.randrange(0, 4)
                ops.append("%s %d %s" % (rng.choice(["openAppend", "bopenOut", "nopenOut", "openOut"]), k, path))
            else:
                if rng.random() < 0.5:
                    script.append("gen %s d %d %d" % (path, rng.randrange(1000), self.size(rng, v)))
                ops.append("%s %d %s" % (t, k, path))
            streams[k] = path
        out1 = rng.choice(["file", "drain:o1", "drain:o1"])
        if out1 != "file":
            c.ops["o1"] = ["R %d" % rng.randrange(1, 9000), "S %d" % rng.randrange(1, 10 ** 7)] * rng.randrange(0, 5)
        if rng.random() < 0.7:
            ops.append("std 1 1")
            streams[1] = None
        if rng.random() < 0.4:
            ops.append("std 2 2")
            streams[2] = None
        keys = list(streams)
        for _ in range(rng.randrange(4, 26)):
            k = rng.choice(keys)
            r = rng.random()
            if r < 0.5:
                ops.append("output %d %d %d" % (k, rng.randrange(10 ** 6), self.size(rng, v)))
            elif r < 0.62:
                ops.append("output1 %d %d" % (k, rng.randrange(256)))
            elif r < 0.68:
                n = self.size(rng, v)
                a = rng.randrange(0, n + 1)
                ops.append("outSub %d %d %d %d %d" % (k, rng.randrange(10 ** 6), n, a, min(n - a, 1) if rng.random() < .3 else rng.randrange(0, n - a + 1)))
            elif r < 0.72:
                ops.append("buffOut %d %d %d" % (k, rng.randrange(10 ** 6), self.size(rng, v)))
            elif r < 0.84:
                ops.append("flush %d" % k)
                if streams[k] and rng.random() < 0.7:
                    ops.append("file %s" % streams[k])
            elif r < 0.9 and 1 in streams:
                ops.append("print %d %d" % (rng.randrange(10 ** 6), self.size(rng, v)))
            elif r < 0.95:
                if streams[k]:
                    ops.append("file %s" % streams[k])
                elif k == 2 or out1 == "file":
                    ops.append("file /out/d.%s" % ("err" if k == 2 else "out"))
            elif r < 0.98:
                ops.append("close %d" % k)
                if streams[k]:
                    ops.append("file %s" % streams[k])
        for k in keys:
            if rng.random() < 0.7:
                ops.append("%s %d" % (rng.choice(["close", "flush"]), k))
        self.finish(rng, c, v, ops, script, out1)
        c.meta["kind"] = "out1=%s,buf=%d" % (out1.split(":")[0], BUF[v])
        return c

    def finish(self, rng, c, v, ops, script, out1, extra=""):
        c.ops["d"] = ops
        c.opts["arm"] = 1
        o = "" if out1 == "file" else "out=" + out1
        c.script = script + ["run name=d %s %s -- %s /bin/stream" % (o, extra, VARIANTS[v]), "settle", "dump /home"]

    # ---- the model
    def judge(self, case, r):
        bad = []
        log = r.log("d")
        ops = case.ops["d"]
        init = {}
        for s in case.script:
            w = s.split()
            if w[0] == "gen":
                init[w[1]] = data(int(w[3]), int(w[4]))
        dev, cur = {}, {}          # path -> Seg ; stream -> path
        closed, sticky = set(), {}
        fifos = {s.split()[1]: s.split()[2] for s in case.script if s.startswith("fifodrain")}
        maxlen = {}
        strict = not self.errors
        used = {}
        for n, op in enumerate(ops):
            if n >= len(log):
                break
            w = op.split()
            res = log[n]
            failed = res[:1] == b"!"
            if w[0] in ("ctl", "fds"):
                continue
            if w[0] == "file":
                p = {"/out/d.err": "<2>", "/out/d.out": "<1>"}.get(w[1], w[1])
                if p in fifos:
                    continue
                if res == b"none":
                    continue
                if p not in dev:
                    continue
                sg = dev[p]
                m = self.content(sg, res)
                if m is None:
                    bad.append("op %d %s: the file is not a prefix of what was written" % (n, op))
                elif sg.synced and not m:
                    bad.append("op %d %s: after a flush or close the file is not what was written" % (n, op))
                continue
            if w[0] in ("openOut", "openAppend", "bopenOut", "bopenAppend", "nopenOut", "nopenExcl", "std", "nstd"):
                k = w[1]
                if failed:
                    if strict:
                        bad.append("op %d %s failed: %r" % (n, op, res))
                    continue
                if w[0] in ("std", "nstd"):
                    p = "<%s>" % w[2]
                    dev.setdefault(p, Seg())
                    cur[k] = p
                    continue
                p = w[2]
                if p in dev and p not in fifos:
                    # reopened: what the first stream still buffers makes the content unpredictable; not generated
                    pass
                app = "ppend" in w[0]
                if p not in dev or not app:
                    dev[p] = Seg(init.get(p, b"") if app else b"")
                cur[k] = p
                closed.discard(k)
                continue
            if w[0] == "print":
                dev.setdefault("<1>", Seg())
                sg = dev["<1>"]
                if res == b"!Fail no stream":
                    continue
                if "1" in closed and cur.get("1") == "<1>":
                    if not failed:
                        bad.append("op %d %s: output to a closed stream succeeded" % (n, op))
                    continue
                sg.add(data(int(w[1]), int(w[2])), failed)
                sg.synced = not failed
                if failed and strict:
                    bad.append("op %d %s failed: %r" % (n, op, res))
                continue
            k = w[1]
            if k not in cur:
                continue
            sg = dev[cur[k]]
            std = cur[k][0] == "<"
            if res in (b"!Fail bad", b"!Fail bad op"):
                continue
            if k in closed:
                if w[0] in ("output", "output1", "outSub", "buffOut") and not failed:
                    bad.append("op %d %s: output to a closed stream succeeded" % (n, op))
                continue
            if failed and strict:
                bad.append("op %d %s failed: %r" % (n, op, res))
            if w[0] == "output":
                sg.add(data(int(w[2]), int(w[3])), failed)
                sg.synced = sg.synced and int(w[3]) == 0 or (cur[k] == "<2>" and not failed)
            elif w[0] == "buffOut":
                sg.add(data(int(w[2]), int(w[3])), failed)
                sg.synced = False
            elif w[0] == "output1":
                sg.add(bytes([int(w[2])]), failed)
                sg.synced = cur[k] == "<2>" and not failed
            elif w[0] == "outSub":
                sg.add(data(int(w[2]), int(w[3]))[int(w[4]):int(w[4]) + int(w[5])], failed)
                sg.synced = sg.synced and int(w[5]) == 0 or (cur[k] == "<2>" and not failed)
            elif w[0] == "flush":
                if not failed:
                    sg.synced = True
            elif w[0] == "close":
                if not failed:
                    sg.synced = True
                    closed.add(k)
                    if not std:
                        used[cur[k]] = 1
        if len(log) != len(ops) + 1 and not bad and not case.meta.get("maydie"):
            bad.append("the program stopped after %d of %d operations (status %s)" % (len(log), len(ops), r.status("d")))
        # at the end
        for p, sg in dev.items():
            if p == "<1>":
                D = r.files.get("/out/o1" if "drain:o1" in " ".join(case.script) else "/out/d.out")
                sg.synced = sg.synced or not bad and r.status("d") == 0 and not case.meta.get("maydie")     # exit flushes it
            elif p == "<2>":
                D = r.files.get("/out/d.err")
            elif p in fifos:
                D = r.files.get("/out/" + fifos[p])
            else:
                D = r.files.get(p)
            if D is None:
                continue
            if p == "<2>" and D.startswith(b"Uncaught"):
                continue
            if sg.synced and not sg.exact(D) and not (p == "<1>" and case.meta.get("noexact")):
                bad.append("device %s: %d bytes are not exactly what was written and flushed (%d bytes)%s" % (p, len(D), len(sg.minimal()), self.where(sg, D)))
            elif not sg.prefix(D):
                bad.append("device %s: %d bytes are not a prefix of what was written%s" % (p, len(D), self.where(sg, D)))
        bad += self.more(case, r, cur, dev, closed)
        return bad

    def where(self, sg, D):
        m = b"".join(b for b, _ in sg.segs)
        k = 0
        while k < len(m) and k < len(D) and m[k] == D[k]:
            k += 1
        return "; first difference near byte %d" % k

    def content(self, sg, res):
        """None: not a prefix; False: a proper prefix; True: everything"""
        b, f = unshow(res)
        if b is None:
            n = f[0]
            if sg.has_opt():
                return fp_state(sg, n, int(f[1].partition(b":")[2]))
            m = sg.minimal()
            if n > len(m) or show(m[:n]) != res:
                return None
            return n == len(m)
        if sg.exact(b):
            return True
        return False if sg.prefix(b) else None

    def more(self, case, r, cur, dev, closed):
        return []


def fp_state(sg, N, H):
    """like content, when only the length and the fingerprint of the file are known"""
    st = {(0, 7)}
    work = 0
    pre = False
    for b, o in sg.segs:
        nxt = set()
        for n, h in st:
            work += len(b)
            if work > 400000:
                return True
            if o:
                nxt.add((n, h))
            for c in b:
                if n == N and h == H:
                    pre = True
                if n > N:
                    break
                h = (h * 131 + c + 1) % 1000003
                n += 1
                if o:
                    nxt.add((n, h))
            else:
                nxt.add((n, h))
        st = nxt
    if (N, H) in st:
        return True
    return False if pre else None


class OutErr(Out):
    """C06: the same under refused writes"""
    errors = ["err_w", "err_w", "err_w", "err_close"]

    def gen(self, rng, i):
        c = Out.gen(self, rng, i)
        ops = c.ops["d"]
        # reopening and repeated closing make no difference here; finish with everything flushed once the device works
        ops = [o for o in ops]
        ks = []
        for o in ops:
            w = o.split()
            if w[0] in ("openOut", "openAppend", "bopenOut", "bopenAppend", "nopenOut", "nopenExcl", "std"):
                ks.append(w[1])
        if rng.random() < 0.4:
            at = rng.randrange(len(ks), len(ops) + 1)
            ops.insert(at, "ctl disk %d" % rng.choice([0, 0, rng.randrange(0, 200), rng.randrange(0, 9000)]))
            if rng.random() < 0.5:
                ops.insert(rng.randrange(at + 1, len(ops) + 1), "ctl disk 100000000")
            c.meta["kind"] = c.meta["kind"] + ",diskfull"
        if "o1" in c.ops and rng.random() < 0.35:
            c.ops["o1"] = c.ops["o1"][:2] + ["C"]
            c.meta["epipe"] = 1
            c.meta["kind"] = c.meta["kind"] + ",epipe"
        ops += ["ctl faults off", "ctl disk 100000000"]
        for k in ks:
            ops += ["flush " + k]
            ops += ["close " + k]
        ops += ["fds"]
        c.ops["d"] = ops
        c.script = [s.replace("run name=d", "run name=d ign=13") for s in c.script]
        return c

    def judge(self, case, r):
        bad = []
        if case.meta.get("epipe"):
            # what the reader took is a prefix; the program may be unable to flush and then ends with a failure
            case = case.clone()
            case.meta["maydie"] = 1
            case.meta["noexact"] = 1
        return Out.judge(self, case, r)

    def more(self, case, r, cur, dev, closed):
        bad = []
        log = r.log("d")
        ops = case.ops["d"]
        if len(log) == len(ops) + 1:
            opened = 3 + sum(1 for k, p in cur.items() if p[0] != "<" and k not in closed)
            if ops and ops[-1] == "fds" and log[len(ops) - 1] != b"%d" % opened and not any(log[n][:1] == b"!" for n in range(at0(ops), len(ops))):
                bad.append("descriptors left open at the end: %r, of which %d were left open by the program" % (log[len(ops) - 1], opened))
            at = None
            for n, o in enumerate(ops):
                if o == "ctl faults off":
                    at = n
            if at is not None and "ctl disk 100000000" in ops[at:at + 2]:
                for n in range(at, len(ops)):
                    w = ops[n].split()
                    if w[0] in ("flush", "close") and log[n][:1] == b"!" and b"losed" not in log[n] and b"no stream" not in log[n] and not gone(ops, log, n, w[1]):
                        if case.meta.get("epipe") and cur.get(w[1]) == "<1>":
                            continue
                        bad.append("op %d %s failed although the device works again: %r" % (n, ops[n], log[n]))
        return bad


def at0(ops):
    return ops.index("ctl faults off") if "ctl faults off" in ops else len(ops)


def gone(ops, log, n, k):
    """was stream k closed before operation n?"""
    c = False
    for i in range(n):
        w = ops[i].split()
        if len(w) > 1 and w[1] == k:
            if w[0] == "close" and log[i] == b"ok":
                c = True
            elif "pen" in w[0] or w[0] in ("std", "nstd"):
                c = False
    return c


class In(Base):
    """C07"""
    groups_quick = 900

    def gen(self, rng, i):
        v = rng.randrange(2)
        c = Case(rng.randrange(1 << 40))
        c.opts["pipecap"] = rng.choice([64, 512, 4096, 65536])
        script, ops, ks = [], [], {}
        for k in range(3, 3 + rng.randrange(1, 3)):
            t = rng.choice(["openIn", "openIn", "bopenIn", "nopenIn"])
            path = "/home/i%d" % k
            src = rng.choice(["file", "fifo"])
            kd = rng.choice("dtt")
            if src == "file":
                script.append("gen %s %s %d %d" % (path, kd, rng.randrange(10 ** 6), self.size(rng, v) + (self.size(rng, v) if rng.random() < 0.5 else 0)))
            else:
                script.append("fifofeed %s fd%d" % (path, k))
                c.ops["fd%d" % k] = self.feed(rng, v)
            ops.append("%s %d %s" % (t, k, path))
            ks[k] = (t, src)
        inn = rng.choice(["null", "feed:i0", "feed:i0", "file"])
        if inn == "feed:i0":
            c.ops["i0"] = self.feed(rng, v)
        if inn == "file":
            script.append("gen /home/i0 t %d %d" % (rng.randrange(10 ** 6), self.size(rng, v)))
        if inn != "null":
            ops.append("%s 0 0" % rng.choice(["std", "std", "nstd"]))
            ks[0] = ("openIn" if ops[-1].startswith("std") else "nopenIn", "fifo" if inn == "feed:i0" else "file")
        nb = rng.random() < 0.5
        for _ in range(rng.randrange(4, 40)):
            k = rng.choice(list(ks))
            t = ks[k][0]
            z = rng.random()
            sz = self.size(rng, v) if rng.random() < 0.6 else rng.randrange(1, 130)
            if t == "openIn":
                o = rng.choice(["input", "input1", "inputN", "inputLine", "inputLine", "lookahead", "eos", "inputNB", "scanInt", "scanN", "scanBack", "inputAll" if z < 0.15 else "input1"])
            elif t == "bopenIn":
                o = rng.choice(["input", "input1", "inputN", "lookahead", "eos", "inputAll" if z < 0.15 else "inputN"])
            else:
                o = rng.choice(["input1", "inputN", "inputLine", "lookahead", "eos", "buffIn", "readStr" if z < 0.2 else "buffIn"])
            if o == "inputNB" and not nb:
                o = "input"
            if o == "inputNB":
                if rng.random() < 0.4:
                    ops.append("ctl yield %d" % rng.randrange(1, 4))
                ops.append("inputNB %d %d" % (k, k))
            elif o in ("inputN", "scanN", "buffIn", "readStr"):
                ops.append("%s %d %d" % (o, k, sz))
            elif o == "scanBack":
                n = rng.choice([sz, sz, 511, 512, 513, 600, 1024, 1025])
                ops.append("scanBack %d %d %d" % (k, n, rng.choice([0, 1, min(n, 512), min(n, 511), min(n, 510), 513, rng.randrange(min(n, 600) + 1)])))
            else:
                ops.append("%s %d" % (o, k))
        if rng.random() < 0.15:           # a closed stream, and another one that gets its descriptor
            k = rng.choice(list(ks))
            fresh = "openIn 9 /home/z"
            script.append("gen /home/z t 5 3000")
            ops += ["close %d" % k] + [fresh] * (rng.random() < .7)
            for _ in range(rng.randrange(1, 6)):
                j = rng.choice([k, k, k, 9])
                t = "openIn" if j == 9 else ks[k][0]
                o = rng.choice({"openIn": ["input", "input1", "inputN", "inputLine", "lookahead", "eos", "scanN", "scanBack", "inputAll", "close"], "bopenIn": ["input", "input1", "inputN", "lookahead", "eos", "inputAll", "close"],
                                "nopenIn": ["input1", "inputN", "inputLine", "lookahead", "eos", "buffIn", "close"]}[t])
                if j == 9 and o == "close":
                    o = "input1"
                ops.append("%s %d" % (o, j) + (" 10" if o in ("inputN", "scanN", "buffIn", "scanBack") else "") + (" 3" if o == "scanBack" else ""))
        if rng.random() < 0.5:
            for k in ks:
                ops.append({"openIn": "inputAll", "bopenIn": "inputAll", "nopenIn": "buffIn"}[ks[k][0]] + " %d" % k + (" 70000" if ks[k][0] == "nopenIn" else ""))
                ops.append("eos %d" % k)
        for k in ks:
            if k and rng.random() < 0.8:
                ops.append("close %d" % k)
        ops.append("fdlist")
        c.ops["d"] = ops
        c.opts["arm"] = 1
        c.script = script + ["run name=d in=%s -- %s /bin/stream" % ("/home/i0" if inn == "file" else inn, VARIANTS[v])]
        c.meta["kind"] = "in=%s,buf=%d" % (inn.split(":")[0], BUF[v])
        return c

    def feed(self, rng, v):
        l = []
        for _ in range(rng.randrange(1, 6)):
            l.append("G %s %d %d" % (rng.choice("dttt"), rng.randrange(10 ** 6), self.size(rng, v)) if rng.random() < 0.8 else
                     "W " + esc(" ".join(str(rng.randrange(10 ** 6)) for _ in range(rng.randrange(1, 9))) + rng.choice(["\n", " ", "", "x"])))
            if rng.random() < 0.6:
                l.append("S %d" % rng.randrange(1, 10 ** 7))
        return l

    benign = ["short_r", "eintr", "sched", "gc", "tick", "place"]

    def faults(self, rng, base, r0, k):
        c = Base.faults(self, rng, base, r0, k)
        if k % 4 == 3:
            c.D += pick_targets(rng, r0.counts, ["err_r"], rng.choice([1, 1, 2]))
        return c

    def judge(self, case, r):
        bad = []
        log = r.log("d")
        ops = case.ops["d"]
        srcs = {}
        for s in case.script:
            w = s.split()
            if w[0] == "gen":
                srcs[w[1]] = text(int(w[3]), int(w[4])) if w[2] == "t" else data(int(w[3]), int(w[4]))
            elif w[0] == "fifofeed":
                srcs[w[1]] = fed(case.ops.get(w[2], []))
        run = [s for s in case.script if s.startswith("run")][0]
        if "in=feed:i0" in run:
            srcs["<0>"] = fed(case.ops.get("i0", []))
        elif "in=/home/i0" in run:
            srcs["<0>"] = srcs.get("/home/i0", b"")
        else:
            srcs["<0>"] = b""
        errs = any(d[1] == "err_r" for d in r.D)
        S = {}       # k -> [source, set of positions, closed, lastfail]
        for n, op in enumerate(ops):
            if n >= len(log):
                break
            w = op.split()
            res = log[n]
            if w[0] in ("ctl", "fdlist", "fds"):
                continue
            failed = res[:1] == b"!"
            if w[0] in ("openIn", "bopenIn", "nopenIn", "std", "nstd"):
                if failed:
                    bad.append("op %d %s failed: %r" % (n, op, res))
                    continue
                S[w[1]] = [srcs["<0>"] if "std" in w[0] else srcs.get(w[2], b""), {0}, False, w[0]]
                continue
            if w[1] not in S:
                continue
            st = S[w[1]]
            src, pos = st[0], st[1]
            if res in (b"!Fail bad", b"!Fail bad op", b"!Fail no stream"):
                continue
            if w[0] == "close":
                if failed and not errs:
                    bad.append("op %d %s failed: %r" % (n, op, res))
                if not failed:
                    st[2] = True
                continue
            if st[2]:
                want = {"input": b"=", "inputN": b"=", "inputAll": b"=", "input1": b"none", "lookahead": b"none", "eos": b"true", "scanN": b"none", "scanBack": b"=", "inputLine": b"=" if st[3] in ("nopenIn", "nstd") else b"none",
                        "buffIn": b"=", "readStr": None}.get(w[0], b"?")
                if st[3] in ("nopenIn", "nstd") and w[0] == "input1":
                    want = None
                if want is None and not failed or want not in (None, b"?") and res != want:
                    bad.append("op %d %s: %r from a closed stream" % (n, op, res[:80]))
                continue
            if failed and w[0] == "scanBack" and b"too far" in res and int(w[3]) > 512 and int(w[2]) > 512:
                st[1] = {min(p + int(w[2]), len(src)) for p in pos if min(p + int(w[2]), len(src)) - p > 512}
                if not st[1]:
                    bad.append("op %d %s: %r although less than 512 characters were read" % (n, op, res))
                continue
            if failed:
                if w[0] == "readStr" and (res[:5] == b"!Size" or b"really_input" in res):
                    if all(p + int(w[2]) <= len(src) for p in pos):
                        bad.append("op %d %s: end of file reported although enough data was there" % (n, op))
                    st[1] = {len(src)}
                    continue
                if not errs or (b"SysErr" not in res and b"Io" not in res):
                    bad.append("op %d %s failed without a read error: %r" % (n, op, res))
                    continue
                # a read error: the operation may have consumed up to what it asked for
                lim = {"inputN": int(w[2]) if len(w) > 2 else 0, "buffIn": 0, "readStr": int(w[2]) if len(w) > 2 else 0, "input1": 0, "lookahead": 0, "eos": 0, "inputNB": 0, "input": 0}.get(w[0], len(src))
                st[1] = {q for p in pos for q in range(p, min(len(src), p + lim) + 1)}
                continue
            nxt = set()
            for p in pos:
                q = self.step(w, st[3], src, p, res)
                if q is not None:
                    nxt.add(q)
            if not nxt:
                bad.append("op %d %s: result %r is not what the source holds there (positions %s of %d)" % (n, op, res[:80], sorted(pos)[:3], len(src)))
                break
            st[1] = nxt
        if len(log) != len(ops) + 1 and not bad:
            bad.append("the program stopped after %d of %d operations (status %s)" % (len(log), len(ops), r.status("d")))
        return bad

    def step(self, w, kind, src, p, res):
        o = w[0]
        rest = len(src) - p
        basic = kind in ("nopenIn", "nstd")
        if o == "inputNB":
            a, _, z = res.rpartition(b"|")
            av, mode, val = a.split(b" ", 2)
            if mode != b"blocking" or not z.endswith(b" blocking"):
                return None
            if val == b"none":
                # nothing may have been there: neither in the pipe before the call, nor unread in the buffer (checked by what follows)
                return None if av in (b"data", b"eof") else p
            b, f = unshow(val)
            n = len(b) if b is not None else f[0]
            if n == 0:
                return p if rest == 0 else None
            if n > rest or seg(src, p, p + n) != val:
                return None
            return p + n
        if o == "input" or o == "buffIn":
            b, f = unshow(res)
            if b is None and f is None:
                return None
            n = len(b) if b is not None else f[0]
            if o == "buffIn" and int(w[2]) == 0:
                return p if n == 0 else None
            if n == 0:
                return p if rest == 0 else None
            if o == "buffIn" and n > int(w[2]):
                return None
            return p + n if n <= rest and seg(src, p, p + n) == res else None
        if o in ("inputN", "readStr"):
            n = min(rest, int(w[2]))
            if o == "readStr" and int(w[2]) > rest:
                return None
            return p + n if res == seg(src, p, p + n) else None
        if o == "inputAll":
            return len(src) if res == seg(src, p, len(src)) else None
        if o == "input1":
            if rest == 0:
                return p if res == b"none" else None
            return p + 1 if res == seg(src, p, p + 1) else None
        if o == "lookahead":
            if rest == 0:
                return p if res == b"none" else None
            return p if res == seg(src, p, p + 1) else None
        if o == "eos":
            return p if res == (b"true" if rest == 0 else b"false") else None
        if o == "inputLine":
            if rest == 0:
                return p if res == (show(b"") if basic else b"none") else None
            j = src.find(b"\n", p)
            l = src[p:] if j < 0 else src[p:j + 1]
            want = l if j >= 0 or basic else l + b"\n"
            return p + len(l) if res == show(want) else None
        if o == "scanN":
            n = min(rest, int(w[2]))
            if n == 0 and int(w[2]) > 0:
                return p if res == b"none" else None
            return p + n if res == seg(src, p, p + n) else None
        if o == "scanBack":
            n = min(rest, int(w[2]))
            d = min(n, int(w[3]))
            return p + n if res == seg(src, p + n - d, p + n) and d <= 512 else None
        if o == "scanInt":
            q = p
            while q < len(src) and src[q] in b" \t\n\v\f\r":
                q += 1
            neg = False
            if q < len(src) and src[q] in b"~+-":
                neg = src[q] != 43
                q += 1
            d = q
            while d < len(src) and 48 <= src[d] <= 57:
                d += 1
            if d == q:
                e = min(len(src), q + 1)
                return e if res == b"none" else None
            v = int(src[q:d])
            if neg:
                v = -v
            if res == b"!Overflow" or v >= 2 ** 62:
                return None
            return min(len(src), d + 1) if res == b"%d" % v else None
        return p


_pre = {}


def seg(src, a, b):
    """show(src[a:b]), in constant time for all parts of one source (many positions may have to be tried after a read error)"""
    b = min(b, len(src))
    n = b - a
    if n <= 48:
        return show(src[a:b])
    t = _pre.get(src)
    if t is None:
        if len(_pre) > 8:
            _pre.clear()
        h, t = 0, [0]
        for c in src:
            h = (h * 131 + c + 1) % 1000003
            t.append(h)
        _pre[src] = t
    return b"#%d:%d" % (n, (t[b] + (7 - t[a]) * pow(131, n, 1000003)) % 1000003)


def fed(ops):
    out = []
    for o in ops:
        w = o.split()
        if w[0] == "G":
            out.append(text(int(w[2]), int(w[3])) if w[1] == "t" else data(int(w[2]), int(w[3])))
        elif w[0] == "W":
            out.append(unesc(w[1]) if len(w) > 1 else b"")
        elif w[0] in ("C", "H"):
            break
    return b"".join(out)


class Seek(Base):
    """C08"""
    benign = ["short_r", "short_w", "eintr", "sched", "gc", "place"]

    def gen(self, rng, i):
        v = rng.randrange(2)
        B = BUF[v]
        c = Case(rng.randrange(1 << 40))
        script, ops = [], []
        n0 = self.size(rng, v) + self.size(rng, v)
        script.append("gen /home/r d %d %d" % (rng.randrange(10 ** 6), n0))
        ops.append("nopenIn 3 /home/r")
        ops.append("nopenOut 4 /home/w")
        pos, ln = 0, 0
        readback = False
        only = rng.choice(["in", "out", "both", "out"])
        for _ in range(rng.randrange(5, 50)):
            side = rng.choice(["in", "out"]) if only == "both" else only
            r = rng.random()
            if side == "in":
                if r < 0.35:
                    p = rng.choice([0, n0, n0 + 3, rng.randrange(n0 + 1), rng.randrange(n0 + 1), max(0, n0 - rng.randrange(B))])
                    ops.append("seekIn 3 %d" % p)
                elif r < 0.45:
                    ops.append("posIn 3")
                elif r < 0.52:
                    ops.append("lenIn 3")
                elif r < 0.62:
                    ops.append("input1 3")
                elif r < 0.7:
                    ops.append("lookahead 3")
                elif r < 0.76:
                    ops.append("inInt 3")
                elif r < 0.8:
                    ops.append("canIn 3 %d" % rng.choice([0, 1, B - 1, B, B + 1, 3 * B, rng.randrange(1, 100)]))
                elif r < 0.9:
                    ops.append("inputN 3 %d" % self.size(rng, v))
                else:
                    ops.append("buffIn 3 %d" % self.size(rng, v))
            else:
                if r < 0.3:
                    p = rng.choice([0, ln, rng.randrange(ln + 1), rng.randrange(ln + 1), max(0, ln - rng.randrange(1, B)), max(0, pos - rng.randrange(1, B)), pos])
                    ops.append("seekOut 4 %d" % p)
                    pos = p
                elif r < 0.4:
                    ops.append("posOut 4")
                elif r < 0.5:
                    ops.append("output1 4 %d" % rng.randrange(256))
                    pos += 1
                elif r < 0.56:
                    ops.append("outInt 4 %d" % rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randrange(-2 ** 31, 2 ** 31)]))
                    pos += 4
                elif r < 0.9:
                    n = self.size(rng, v)
                    ops.append("%s 4 %d %d" % (rng.choice(["output", "buffOut"]), rng.randrange(10 ** 6), n))
                    pos += n
                else:
                    ops.append("flush 4")
                    ops.append("file /home/w")
                ln = max(ln, pos)
        ops += [rng.choice(["close 4", "flush 4"]), "file /home/w"]
        if rng.random() < 0.3:
            ops += ["close 4", "nopenIn 5 /home/w", "lenIn 5", "inputN 5 %d" % (ln + 1), "posIn 5"]
        c.ops["d"] = ops
        c.opts["arm"] = 1
        c.script = script + ["run name=d -- %s /bin/stream" % VARIANTS[v], "dump /home"]
        c.meta["kind"] = "%s,buf=%d" % (only, B)
        return c

    def judge(self, case, r):
        bad = []
        log, ops = r.log("d"), case.ops["d"]
        files = {"/home/w": bytearray()}
        for s in case.script:
            w = s.split()
            if w[0] == "gen":
                files[w[1]] = bytearray(data(int(w[3]), int(w[4])))
        S = {}
        for n, op in enumerate(ops):
            if n >= len(log):
                break
            w, res = op.split(), log[n]
            want = None
            if w[0] in ("nopenIn", "nopenOut"):
                S[w[1]] = [w[2], 0, True]
                if w[0] == "nopenOut":
                    files[w[2]] = bytearray()
                want = b"ok"
            elif w[0] == "file":
                # only after a flush or close with nothing written since
                if n > 0 and ops[n - 1].split()[0] in ("flush", "close") and log[n - 1] == b"ok":
                    want = show(bytes(files.get(w[1], b"")))
                else:
                    continue
            elif w[1] not in S or not S[w[1]][2]:
                continue
            else:
                st = S[w[1]]
                f = files[st[0]]
                p = st[1]
                if w[0] in ("seekIn", "seekOut"):
                    st[1] = int(w[2])
                    want = b"ok"
                elif w[0] in ("posIn", "posOut"):
                    want = b"%d" % p
                elif w[0] == "lenIn":
                    want = b"%d" % len(f)
                elif w[0] == "input1":
                    want = show(bytes(f[p:p + 1])) if p < len(f) else b"none"
                    st[1] = p + 1 if p < len(f) else p
                elif w[0] == "lookahead":
                    want = show(bytes(f[p:p + 1])) if p < len(f) else b"none"
                elif w[0] == "canIn":
                    # can_input reads once: a short answer is allowed only to be false
                    k = int(w[2])
                    if res == b"true" and k and p + k > len(f):
                        bad.append("op %d %s: true beyond the end" % (n, op))
                    continue
                elif w[0] == "inInt":
                    if p + 4 <= len(f):
                        x = int.from_bytes(f[p:p + 4], "big", signed=True)
                        want = b"%d" % x
                        st[1] = p + 4
                    else:
                        want = b"!Size"
                        st[1] = max(p, len(f))
                elif w[0] == "inputN":
                    k = int(w[2])
                    want = show(bytes(f[p:p + k]))
                    st[1] = p + len(f[p:p + k])
                elif w[0] == "buffIn":
                    b, fpx = unshow(res)
                    k = len(b) if b is not None else (fpx[0] if fpx else -1)
                    mx = min(int(w[2]), max(0, len(f) - p))
                    if k < 0 or k > mx or (k == 0 and mx > 0) or show(bytes(f[p:p + k])) != res:
                        bad.append("op %d %s: read %r, not the bytes at position %d" % (n, op, res[:60], p))
                        break
                    st[1] = p + k
                    continue
                elif w[0] in ("output", "buffOut", "output1", "outInt"):
                    d = data(int(w[2]), int(w[3])) if w[0] in ("output", "buffOut") else bytes([int(w[2])]) if w[0] == "output1" else (int(w[2]) & 0xffffffff).to_bytes(4, "big")
                    if d:
                        if p > len(f):
                            f.extend(bytes(p - len(f)))
                        f[p:p + len(d)] = d
                    st[1] = p + len(d)
                    want = b"ok"
                elif w[0] == "flush":
                    want = b"ok"
                elif w[0] == "close":
                    want = b"ok"
                    st[2] = False
            if want is not None and res != want:
                bad.append("op %d %s: got %r, a random-access file gives %r" % (n, op, res[:80], want[:80]))
                break
        if not bad and len(log) != len(ops) + 1:
            bad.append("the program stopped after %d of %d operations (status %s)" % (len(log), len(ops), r.status("d")))
        return bad
