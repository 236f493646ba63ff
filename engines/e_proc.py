"""C14: child processes.  C27: commands.  C10: exit."""
import re
from core import *
from simlib import *
import e_io


def make(b, prop):
    return {"C14": Kids, "C27": Cmds, "C10": Exit}[prop](b, prop)


M64 = (1 << 64) - 1


class Base(Engine):
    def prepare(self):
        self.b.compile_driver("proc", [VERIF + "/drv/Sim.sml", VERIF + "/drv/ProcDrv.sml"])
        return ["LOAD /bin/proc %s/proc 755" % self.b.drv]

    def pairs(self, case, r):
        logs = r.log("d")
        return list(zip([o.split() for o in case.ops["d"]], logs)), logs

    def benign(self, rng, c, p=.35):
        for cl in ("gc", "short_r", "short_w", "eintr", "sched", "place", "slice", "pipechunk"):
            if rng.random() < p:
                c.cls[cl] = [rng.choice([100, 3000]) if cl == "gc" else rng.choice([3000, 100000, 400000]), 0, 1 << 40, 1 << 40]


def cnt(b):
    h = 7
    for x in b:
        h = (h * 131 + x) & M64
    return b"%d %d\n" % (len(b), h & 0xffffff)


class Child:
    """what a tool does with its input"""

    def __init__(self, cmd, args, env):
        self.cmd, self.args, self.env = cmd, args, env
        self.sent = b""           # accepted by output
        self.got = 0
        self.oclosed = self.iclosed = False
        self.killed = None
        self.reads = cmd in ("/bin/cat", "/bin/count", "/bin/sink", "/bin/upper", "/bin/spew", "/bin/head")
        self.lost = False         # a put, flush or close raised
        self.maybe = False        # an interrupted reap may have waited for it
        self.gone = False         # it has ended
        self.unsent = 0           # accepted since then

    def output(self):
        """complete output once the input has ended"""
        c, a, s = self.cmd, self.args, self.sent
        if c == "/bin/cat":
            return s
        if c == "/bin/upper":
            return s.translate(bytes(x - 32 if 97 <= x < 123 else x for x in range(256)))
        if c == "/bin/count":
            return cnt(s)
        if c in ("/bin/sink", "/bin/true", "/bin/false", "/bin/exit", "/bin/kill", "/bin/sleep"):
            return b""
        if c == "/bin/spew":
            return s + s
        if c == "/bin/head":
            return s[:int(a[0])]
        if c == "/bin/echo":
            return " ".join(a).encode("latin-1") + b"\n"
        if c == "/bin/args":
            return "".join("[%s]" % x for x in a).encode("latin-1") + b"\n"
        if c == "/bin/gen":
            return None
        return b"Could not exec " + c.encode("latin-1") + b"\n"

    def status(self):
        c, a = self.cmd, self.args
        if c in ("/bin/sink", "/bin/count"):
            return int(a[0]) & 255 if a else 0
        if c == "/bin/false":
            return 1
        if c == "/bin/exit":
            return int(a[0]) & 255
        if c == "/bin/kill":
            return -1
        if c == "/bin/gen":
            return int(a[2]) & 255 if len(a) > 2 else 0
        if c.startswith("/bin/") and c != "/bin/nosuch":
            return 0
        return 1


TOOLS = ["cat", "cat", "count", "sink", "upper", "spew", "head", "echo", "args", "gen", "true", "false", "exit", "kill", "sleep", "env", "fds", "nosuch"]


class Kids(Base):
    name = "kids"
    groups_quick = 2600
    real = ["munix.c, Unix", "runtime system (io.c, signals.c, memory management)", "TextIO, Signal"]
    stub = ["kernel: processes, pipes, signals and waiting", "the commands run as children (cat, count, gen and the like)"]
    assumptions = ["children behave as the commands they stand for", "a status that arrives together with an interrupt may be lost, as documented for input"]

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        ops = []
        live = {}
        cap = rng.choice([512, 4096, 65536])
        c.opts["pipecap"] = cap
        ops.append("ctl fds")
        sleepy = rng.random() < .3
        for _ in range(rng.choice([4, 10, 25])):
            act = rng.random()
            if (act < .3 or not live) and len(live) < 8:
                k = rng.choice([x for x in range(8) if x not in live])
                t = rng.choice(TOOLS)
                a = {"sink": [str(rng.choice([0, 1, 7, 255]))], "count": [str(rng.choice([0, 3]))], "head": [str(rng.choice([0, 1, 100]))], "echo": ["hello", "%", "a%20b"], "args": [rng.choice(["x", "%", "a%20b", "%41%ff", "y" * (300 if cap > 2000 else 80)]) for _ in range(rng.randrange(5))] if rng.random() < .8 else ["%d" % j for j in range(rng.choice([7, 8, 20, 60]))],
                     "gen": [str(rng.randrange(1000)), str(rng.choice([0, 1, 100, cap - 1, cap, cap + 1, 5000, 70000])), str(rng.choice([0, 4]))], "exit": [str(rng.choice([0, 1, 2, 3, 77, 255]))], "kill": [str(rng.choice([9, 15, 2, 11]))], "sleep": [str(rng.choice([0, 1, 100]))]}.get(t, [])
                if rng.random() < .3 or t == "env":
                    ops.append("exece %d /bin/%s %s -- %s" % (k, t, " ".join(a), " ".join(rng.sample(["A=1", "LONG=" + "z" * 200, "B=", "PATH=/x", "E%20X=1%203"], rng.randrange(0, 4)))))
                else:
                    ops.append("exec %d /bin/%s %s" % (k, t, " ".join(a)))
                live[k] = dict(t=t, pend=0, tot=0, oc=False, ic=False, eof=False)
                continue
            if not live:
                continue
            k = rng.choice(list(live))
            s = live[k]
            t = s["t"]
            x = rng.random()
            if x < .45 and not s["oc"]:
                n = rng.choice([1, 10, 63, 64, 65, 200])
                if t in ("count", "sink", "head") and rng.random() < .4:
                    n = rng.choice([cap, cap + 1, 5000, 70000])
                if t in ("cat", "upper", "gen", "env", "fds", "echo", "args") and s["tot"] + n > cap:
                    continue
                if t == "spew" and s["tot"] + n > cap * 2:
                    continue
                s["tot"] += n
                s["pend"] += n
                ops.append("put %d %d %d" % (k, rng.randrange(1000), n))
                if t == "head":
                    s["pend"] = 0
                if rng.random() < .5:
                    ops.append("flush %d" % k)
                    if t in ("cat", "upper") and rng.random() < .7 and not s["ic"]:
                        m = rng.randrange(1, s["pend"] + 1)
                        s["pend"] -= m
                        ops.append("getn %d %d" % (k, m))
            elif x < .6 and not s["oc"] and t != "head":
                s["oc"] = True
                ops.append("closeo %d" % k)
            elif x < .75 and (s["oc"] or t in ("echo", "args", "gen", "true", "false", "exit", "kill", "env", "fds", "nosuch")) and not s["ic"]:
                ops.append(rng.choice(["geta %d", "geta %d", "eof %d"]) % k)
            elif x < .78 and t in ("echo", "args", "true", "exit") and not s["oc"] and not s["ic"]:
                ops += ["geta %d" % k, "put %d 3 %d" % (k, rng.choice([1, 10, 60]))] + ["flush %d" % k] * (rng.random() < .2) + ["reap %d" % k]
                del live[k]
            elif x < .8 and t in ("echo", "args", "gen") and not s["ic"]:
                ops.append("getl %d" % k)
            elif x < .85:
                ops.append("closei %d" % k)
                s["ic"] = True
            elif x < .9:
                ops.append("kill %d %d" % (k, rng.choice([15, 9, 1, 0])))
            else:
                ops.append("reap %d" % k)
                del live[k]
        for k in list(live):
            if rng.random() < .3:
                if live[k]["oc"] and not live[k]["ic"]:
                    ops.append("geta %d" % k)
            ops.append("reap %d" % k)
            if rng.random() < .2:
                ops.append("reap %d" % k)
        ops += ["ctl fds", "ctl children", "ctl !verify"]
        ops = [re.sub(" +", " ", o).strip() for o in ops]
        c.ops["d"] = ["%d %s" % (j + 1, o) for j, o in enumerate(ops)]
        c.opts["arm"] = 1
        c.opts["faultchild"] = rng.choice([0, 1])
        c.env["CATCH"] = "1"
        c.script = ["spawn name=d in=null ign=13 -- %s /bin/proc" % rng.choice(e_io.VARIANTS), "wait d"]
        c.meta["kind"] = "kids=%d" % sum("exec" in o for o in ops)
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        self.benign(rng, c)
        if k % 3 == 1:
            c.D = pick_targets(rng, r0.counts, ["err_proc", "malloc"], rng.choice([1, 1, 2]), [r0.pid("d")])
        elif k % 3 == 2:
            for cl in ("err_proc", "malloc", "syssig"):
                if rng.random() < .5:
                    c.cls[cl] = [rng.choice([20000, 200000]), 0, 1 << 40, rng.choice([1, 3, 1 << 40])]
                    if cl == "syssig":
                        c.script = [s.replace("name=d", "name=d sig=1") for s in c.script]
            if rng.random() < .3:
                c.script = [s for s in c.script[:-1]] + ["sleep %d" % rng.choice([10 ** 5, 10 ** 7, 10 ** 9]), "kill d 2"] + c.script[-1:]
        if c.D or any(x in c.cls for x in ("err_proc", "malloc", "syssig")) or len(c.script) != len(base.script):
            c.meta["deadlock_ok"] = True        # without an operation that failed, the others may wait for ever
        return c

    def judge(self, case, r):
        ps, logs = self.pairs(case, r)
        dist = any(r.cls.get(x, (0, 0))[1] for x in ("err_proc", "malloc", "syssig")) or any(s.startswith("kill d") for s in case.script)
        ints = r.cls.get("syssig", (0, 0))[1] or any(s.startswith("kill d") for s in case.script)
        if r.stop == "deadlock":
            return [] if dist else ["deadlock: no process can run (%s)" % ", ".join(n for _, n in r.blocked)]
        if r.status("d") != 0 or not logs or logs[-1] != b"end":
            if dist and (r.cls.get("malloc", (0, 0))[1] and r.status("d") == 512 or ints):
                return []
            return ["the program ended with status %s after %r" % (r.status("d"), logs[-1:])]
        ch = {}
        unsure = set()
        fds0 = None
        leak = False              # an exception may have left streams open: descriptors are not counted
        zomb = 0
        bad = []
        for w, l in ps:
            n, o, a = w[0], w[1], w[2:]
            exc = l.startswith(b"!")
            if o == "ctl":
                if a[0] == "fds" and not exc:
                    if fds0 is None:
                        fds0 = int(l)
                    elif not leak and int(l) != fds0:
                        bad.append("op %s: %s descriptors are open at the end, %d at the beginning" % (n, l.decode(), fds0))
                elif exc:
                    if l != b"!Interrupt" or not ints:
                        bad.append("op %s: %r" % (n, l))
                elif a[0] == "children" and not leak and l != b"0":
                    bad.append("op %s: %s children are left at the end" % (n, l.decode()))
                continue
            if l in (b"!Interrupt", b"!Out_of_memory") and o not in ("exec", "exece", "reap"):
                if l == b"!Interrupt" and not ints or l == b"!Out_of_memory" and not r.cls.get("malloc", (0, 0))[1]:
                    bad.append("op %s %s raised %s" % (n, " ".join(w[1:]), l.decode()))
                    break
                x = ch.get(a[0])
                if x:
                    x.lost = True
                    if o == "kill" and not x.reaped and int(a[1]):
                        x.killed = int(a[1])      # the signal may have been sent before the interrupt came
                continue
            if o in ("exec", "exece"):
                if o == "exece":
                    j = a.index("--")
                    args, env = a[2:j], a[j + 1:]
                else:
                    args, env = a[2:], None
                ch.pop(a[0], None)
                if exc:
                    if not dist:
                        bad.append("op %s %s: %s" % (n, " ".join(w[1:])[:60], l.decode()))
                        break
                    if l == b"!Interrupt":
                        leak = True
                        unsure.add(a[0])      # interrupted before or after it was started
                    continue
                unsure.discard(a[0])
                x = ch[a[0]] = Child(a[1], [unesc(y).decode("latin-1") for y in args], env)
                x.reaped = False
                continue
            x = ch.get(a[0])
            if x is None:
                if not exc and a[0] not in unsure:
                    bad.append("op %s %s on a process that was not started: %r" % (n, " ".join(w[1:]), l))
                continue
            # the command could not be executed because of an injected error
            execfail = bool(r.probes.get("err_exec"))
            if o == "put":
                if exc:
                    if x.reads and x.cmd != "/bin/head" and not x.oclosed and not x.killed and not x.lost and not x.iclosed and not x.reaped and not execfail:
                        bad.append("op %s %s: %s" % (n, " ".join(w[1:]), l.decode()))
                        break
                    x.lost = True
                else:
                    x.sent += data(int(a[1]), int(a[2]))
                    if x.gone and not x.oclosed and not x.lost:
                        x.unsent += int(a[2])
            elif o in ("flush", "closeo"):
                if exc:
                    if x.reads and x.cmd != "/bin/head" and not x.oclosed and not x.killed and not x.lost and not x.iclosed and not x.reaped and not execfail:
                        bad.append("op %s %s: %s" % (n, " ".join(w[1:]), l.decode()))
                        break
                    x.lost = True
                    leak = True
                else:
                    if x.unsent and not x.lost and not x.oclosed:
                        bad.append("op %s %s succeeded although %d bytes cannot have been delivered" % (n, o, x.unsent))
                        break
                    if o == "closeo":
                        x.oclosed = True
            elif o == "closei":
                x.iclosed = True
                if exc:
                    bad.append("op %s closei: %s" % (n, l.decode()))
            elif o in ("geta", "getn", "getl", "eof"):
                if exc:
                    if not x.iclosed and not x.reaped:
                        bad.append("op %s %s: %s" % (n, " ".join(w[1:]), l.decode()))
                        break
                    continue
                if x.lost or x.iclosed or x.reaped or execfail:
                    continue
                if o == "geta" and not x.reads:
                    x.gone = True
                full = x.output() if x.cmd not in ("/bin/gen", "/bin/env", "/bin/fds") else None
                if x.cmd == "/bin/gen" and o == "geta":
                    m = int(x.args[1])
                    if not x.killed and x.got == 0:
                        have = len(l) - 1 if l.startswith(b"=") else int(l[1:].split(b":")[0])
                        if have != m:
                            bad.append("op %s geta: %d bytes of the %d written by the child" % (n, have, m))
                            break
                    x.got = 1
                    continue
                if x.cmd == "/bin/gen":
                    x.got = 1
                    continue
                if x.cmd == "/bin/env" and o == "geta" and x.got == 0 and not x.killed:
                    x.got = 1
                    want = b"".join(unesc(e) + b"\n" for e in x.env)
                    if l != show(want):
                        bad.append("op %s: the child's environment was %r" % (n, l[:200]))
                        break
                    continue
                if x.cmd == "/bin/fds" and o == "geta" and x.got == 0 and not x.killed:
                    x.got = 1
                    continue
                if full is None:
                    continue
                rest = full[x.got:]
                if o == "geta":
                    if l == show(rest):
                        x.got = len(full)
                    elif not x.killed:
                        bad.append("op %s geta: %r instead of %d bytes, what the child wrote" % (n, l[:60], len(rest)))
                        break
                elif o == "getn":
                    m = int(a[1])
                    if l == show(rest[:m]):
                        x.got += min(m, len(rest))
                    elif not x.killed:
                        bad.append("op %s getn %d: %r is not what the child wrote" % (n, m, l[:60]))
                        break
                elif o == "getl":
                    j = rest.find(b"\n") + 1
                    line = rest[:j] if j else rest
                    if l == show(line) or not j and rest and l == show(rest + b"\n"):
                        x.got += len(line)
                    elif not x.killed:
                        bad.append("op %s getl: %r instead of %r" % (n, l[:60], line[:60]))
                        break
                elif o == "eof" and not x.killed and x.oclosed:
                    if (l == b"true") != (rest == b""):
                        bad.append("op %s eof: %s with %d bytes to come" % (n, l.decode(), len(rest)))
                        break
                if x.killed:
                    x.lost = True
            elif o == "kill":
                s = int(a[1])
                if exc:
                    if not (x.reaped or x.maybe) or not l.startswith(b"!Fail Unix.kill: "):
                        bad.append("op %s kill: %s" % (n, l.decode()))
                        break
                elif x.reaped:
                    bad.append("op %s kill of a child that was reaped: %s" % (n, l.decode()))
                    break
                elif s:
                    x.killed = s
            elif o == "reap":
                if exc:
                    if (x.reaped or x.maybe) and l.startswith(b"!Fail Unix.reap: "):
                        x.reaped = True
                        continue
                    if l == b"!Interrupt" and ints:
                        leak = True
                        x.lost = x.maybe = True       # interrupted before or after the child was waited for
                        continue
                    if l == b"!Out_of_memory":
                        leak = True
                        continue
                    if l.startswith((b"!SysErr", b"!Io")) and not x.reaped and (not x.reads or x.cmd == "/bin/head" or x.killed or x.lost or execfail or len(x.output() or b"") > x.got):
                        leak = True       # the last of its input could not be delivered; the child has been waited for
                        x.reaped = True
                        continue
                    bad.append("op %s reap: %s" % (n, l.decode()))
                    break
                if x.reaped:
                    bad.append("op %s reap of a child that was reaped: %s" % (n, l.decode()))
                    break
                if x.unsent and not x.lost and not x.oclosed:
                    bad.append("op %s reap reports nothing although %d bytes cannot have been delivered" % (n, x.unsent))
                    break
                want = {x.status()}
                if x.killed:
                    want |= {-1, x.status()}
                if execfail:
                    want.add(1)
                if x.cmd == "/bin/gen":
                    want |= {1, -1}           # its output was not read to the end
                elif x.cmd in ("/bin/env", "/bin/fds"):
                    want |= {1, -1}
                elif (len(x.output() or b"") > x.got or x.lost or x.iclosed) and x.cmd not in ("/bin/sink", "/bin/true", "/bin/false", "/bin/exit", "/bin/kill", "/bin/sleep"):
                    want |= {1, -1}
                x.reaped = True
                if int(l) not in want:
                    bad.append("op %s reap: status %s of %s, expected %s" % (n, l.decode(), x.cmd, sorted(want)))
                    break
        return bad


class Cmds(Base):
    name = "cmds"
    groups_quick = 3000
    real = ["runtime system (mosml.c, sys.c, io.c)", "Process, Mosml, BinIO, FileSys"]
    stub = ["kernel: files, processes", "the shell and the commands"]
    assumptions = ["the shell behaves as POSIX describes for a simple command with redirections"]
    CMDS = [("cat", lambda s: s, 0), ("upper", lambda s: s.upper(), 0), ("count 0", cnt, 0), ("count 3", cnt, 3), ("sink 5", lambda s: b"", 5), ("spew", lambda s: s + s, 0), ("head 10", lambda s: s[:10], 0), ("echo a b", lambda s: b"a b\n", 0), ("warn oops", lambda s: b"oops\n", 0),
            ("true", lambda s: b"", 0), ("false", lambda s: b"", 1), ("nosuch", lambda s: b"", 127), ("args x y", lambda s: b"[x][y]\n", 0)]

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        ops = ["ctl fds"]
        for _ in range(rng.choice([2, 6, 15])):
            x = rng.random()
            if x < .4:
                s, st = rng.choice([("true", 0), ("false", 1), ("exit 3", 3), ("exit 0", 0), ("exit 255", 255), ("cat nofile", 1), ("nosuch", 127), ("kill 9", -9), ("kill 15", -15), ("false; true", 0), ("true; false", 1), ("echo x > o1", 0), ("cat < nofile", 1), ("sleep 1", 0), ("%", 0), ("exit 2; true", 2)])
                ops.append("system " + (s if s == "%" else esc(s)))
            else:
                cmd = rng.choice(self.CMDS)[0].split()
                ops.append("run %s %d %d %s" % (cmd[0], rng.randrange(1000), rng.choice([0, 0, 1, 10, 100, 5000, 70000]), " ".join(cmd[1:])))
        ops += ["ctl fds", "ctl children", "ctl !verify"]
        c.ops["d"] = ["%d %s" % (j + 1, o.strip()) for j, o in enumerate(ops)]
        c.opts["arm"] = 1
        c.opts["faultchild"] = rng.choice([0, 1])
        c.opts["tmpfail"] = 1
        pre = ["write /tmp/mine keep", "mkdir /w"]
        if rng.random() < .15:
            pre.append("disk %d" % rng.choice([0, 100, 3000, 60000]))
        c.script = pre + ["spawn name=d cwd=/w in=null -- %s /bin/proc" % rng.choice(e_io.VARIANTS), "wait d", "dump /tmp"]
        c.meta["kind"] = "disk" if len(pre) > 2 else "plain"
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        self.benign(rng, c)
        cl = ["err_proc", "err_open", "err_w", "err_r", "err_close", "malloc", "err_meta"]
        if k % 3 == 1:
            c.D = pick_targets(rng, r0.counts, cl, rng.choice([1, 1, 2]))
        elif k % 3 == 2:
            for x in cl:
                if rng.random() < .3:
                    c.cls[x] = [rng.choice([20000, 200000]), 0, 1 << 40, rng.choice([1, 3, 1 << 40])]
        return c

    def judge(self, case, r):
        ps, logs = self.pairs(case, r)
        F = lambda *k: sum(r.cls.get(x, (0, 0))[1] for x in k)
        disk = any(s.startswith("disk ") for s in case.script)
        dist = disk or F("err_proc", "err_open", "err_w", "err_r", "err_close", "malloc", "err_meta")
        if r.status("d") != 0 or not logs or logs[-1] != b"end":
            if F("malloc") and r.status("d") == 512:
                return []
            return ["the program ended with status %s after %r" % (r.status("d"), logs[-1:])]
        bad = []
        fds0 = None
        stuck = False
        for w, l in ps:
            n, o, a = w[0], w[1], w[2:]
            if o == "ctl":
                if a[0] == "fds":
                    if fds0 is None:
                        fds0 = int(l)
                    elif int(l) != fds0 and not (stuck and (disk or F("err_w", "err_close"))):
                        bad.append("op %s: %s descriptors are open at the end, %d at the beginning" % (n, l.decode(), fds0))
                elif a[0] == "children" and l != b"0":
                    bad.append("op %s: %s children left" % (n, l.decode()))
            elif o == "system":
                s = unesc(a[0]).decode() if a else ""
                want = dict([("true", 0), ("false", 256), ("exit 3", 768), ("exit 0", 0), ("exit 255", 65280), ("cat nofile", 256), ("nosuch", 127 * 256), ("kill 9", 9), ("kill 15", 15), ("false; true", 0), ("true; false", 256), ("echo x > o1", 0), ("cat < nofile", 256), ("sleep 1", 0), ("", 0), ("exit 2; true", 512)])[s]
                if l.startswith(b"!"):
                    if not dist:
                        bad.append("op %s system %s: %s" % (n, s, l.decode()))
                    continue
                yes, v = l.split()
                if (yes == b"yes") != (want == 0) and not (yes == b"no" and dist):
                    bad.append("op %s system %r: %s although the command ended with status %d" % (n, s, l.decode(), want))
                elif yes == b"yes" and want != 0:
                    bad.append("op %s system %r: success although the command ended with status %d" % (n, s, want))
            elif o == "run":
                inp = data(int(a[1]), int(a[2]))
                name = " ".join([a[0]] + a[3:])
                f, st = [(x[1], x[2]) for x in self.CMDS if x[0] == name][0]
                want = f(inp)
                if l.startswith(b"!"):
                    stuck = True
                    if not dist:
                        bad.append("op %s run %s: %s" % (n, name, l.decode()))
                    elif not l.startswith((b"!Io", b"!SysErr", b"!Out_of_memory", b"!Fail")):
                        bad.append("op %s run %s: %s" % (n, name, l.decode()))
                elif l[:1] == b"S":
                    if st != 0:
                        bad.append("op %s run %s: success although the command ended with status %d" % (n, name, st))
                    elif l[1:] != show(want) :
                        bad.append("op %s run %s: output %r instead of %d bytes" % (n, name, l[1:60], len(want)))
                else:
                    if st == 0 and not dist:
                        bad.append("op %s run %s: failure although the command succeeded" % (n, name))
                    elif l[1:] != show(want) and not dist:
                        bad.append("op %s run %s: output of the failing command %r instead of %d bytes" % (n, name, l[1:60], len(want)))
            if bad:
                return bad
        left = sorted(k for k in r.files if k.startswith("/tmp/") and k != "/tmp/mine")
        if left and not F("err_meta"):
            bad.append("temporary files are left behind: %s" % left)
        if r.files.get("/tmp/mine") != b"keep":
            bad.append("an existing file in /tmp was changed")
        return bad


def made(w):
    """the text of an exception made by the driver's mkexn; the runtime may cut it short"""
    def txt(n, k):
        return bytes(97 + (i * k + n) % 26 for i in range(n))

    def sys(n):
        return b"SysErr: " + txt(n, 7)
    if w[0] == "sys":
        return sys(int(w[1]))
    if w[0] == "num":
        return b"Num: 2.5"
    if w[0] == "io":
        n, r = int(w[1]), [int(x) for x in w[2:]]

        def go(r):
            if not r:
                return b"Fail: " + txt(n, 1)
            return b"Io: %s failed on `%s'; %s" % (txt(r[0], 3), txt(r[1], 5), go(r[2:]))
        return go(r)
    return b"Div"


def makew(rng):
    """an exception with texts of all lengths around the limits of the message"""
    L = lambda: rng.choice([0, 1, 5, 30, 60, 100, 120, 200, 240, 250, 255, 256, 257, 300, 1000, 5000])
    x = rng.random()
    if x < .15:
        return "sys %d" % L()
    if x < .2:
        return rng.choice(["num", "div"])
    return "io %d" % L() + "".join(" %d %d" % (rng.choice([0, 4, 8, L()]), rng.choice([0, 10, L()])) for _ in range(rng.choice([1, 1, 1, 2, 3, 5])))


class Exit(Base):
    name = "exit"
    groups_quick = 4000
    real = ["runtime system (sys.c, io.c, main.c, misc.c, fail.c)", "Process, BasicIO, TextIO"]
    stub = ["kernel: files, pipes with injected errors", "the process reading standard output"]
    assumptions = ["what an exit action does to the exit status by calling exit itself: the last call counts"]

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        ops = []
        na = [0]

        def spec(depth=0):
            na[0] += 1
            k = na[0]
            t = rng.choice(["log", "log", "print", "eprint", "ebuf", "raise", "exit", "flush", "deep", "write", "add", "term"] if rng.random() < .5 else ["log", "print", "raise", "flush", "write"])
            if t == "add" and depth < 3:
                return "%d add %s" % (k, spec(depth + 1))
            if t in ("print", "eprint", "ebuf"):
                return "%d %s %d %d" % (k, t, rng.randrange(1000), rng.choice([1, 63, 64, 65, 300, 5000]))
            if t in ("exit", "term"):
                return "%d %s %s" % (k, t, rng.choice(["0", "1", "5", "-1"]))
            if t == "deep":
                return "%d deep %d" % (k, rng.choice([10, 1000, 9000]))
            if t == "write":
                return "%d write /w/a%d %d %d" % (k, k, rng.randrange(1000), rng.choice([0, 10, 5000]))
            if t == "raise":
                return "%d raise %d" % (k, rng.randrange(9))
            return "%d %s" % (k, t if t != "add" else "log")
        for _ in range(rng.choice([0, 2, 6, 15])):
            x = rng.random()
            if x < .4:
                ops.append("at " + spec())
            elif x < .75:
                ops.append("print %d %d" % (rng.randrange(1000), rng.choice([1, 10, 63, 64, 65, 200, 4095, 4096, 4097, 9000])))
            elif x < .9:
                ops.append(rng.choice(["eprint", "ebuf"]) + " %d %d" % (rng.randrange(1000), rng.choice([1, 10, 64, 200])))
            elif x < .93:
                ops.append("flusho")
            elif x < .97:
                ops.append("emsg " + makew(rng))
            else:
                ops.append("garbage %d" % rng.choice([10, 3000]))
        end = rng.choice(["exit", "exit", "bexit", "term", "raise", "raise", "none", "success", "failure", "exitn"])
        if end in ("exit", "bexit", "term"):
            ops.append("%s %s" % (end, rng.choice(["0", "0", "1", "2", "3", "42", "255", "256", "-1", "127"])))
        elif end == "exitn":
            ops.append("exitn %d %s" % (rng.choice([0, 1, 5, 30]), rng.choice(["0", "0", "7"])))
        elif end in ("success", "failure"):
            ops.append(end)
        elif end == "raise":
            ops.append("raise " + rng.choice(["Fail boom", "Fail %", "Mine a%20b 7", "Subscript", "Io", "SysErr", "Big 100", "Big 300", "Big 5000", "Oom", "Deep 1000", "Deep 20000", "Viac 5", "Made " + makew(rng), "Made " + makew(rng), "Made " + makew(rng), "Made " + makew(rng)]))
        c.ops["d"] = ["%d %s" % (j + 1, o) for j, o in enumerate(ops)]
        c.opts["arm"] = 1
        out = rng.choice(["/out/o", "/out/o", "drain:o"])
        if out == "drain:o":
            c.opts["pipecap"] = rng.choice([64, 512, 65536])
            c.ops["o"] = []
            if rng.random() < .5:
                c.ops["o"] = ["R %d" % rng.choice([1, 100, 5000]), "S %d" % rng.choice([10 ** 6, 10 ** 9])]
        if rng.random() < .15:
            if out == "drain:o":
                c.ops["o"] = ["R %d" % rng.choice([0, 1, 100, 5000]), "C"]
                c.meta["kind"] = "pipe broken"
            else:
                c.meta["kind"] = "disk"
        c.script = ["mkdir /w"] + (["disk %d" % rng.choice([0, 10, 100, 4096, 8000])] if c.meta.get("kind") == "disk" else [])
        c.script += ["spawn name=d cwd=/w in=null out=%s err=/out/e %s -- %s /bin/proc" % (out, rng.choice(["ign=13"]), rng.choice(e_io.VARIANTS)), "wait d" if out == "drain:o" and 0 else "waitall", "dump /out", "dump /w"]
        c.meta.setdefault("kind", end)
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        self.benign(rng, c)
        cl = ["err_w", "malloc"]
        if k % 3 == 1:
            c.D = pick_targets(rng, r0.counts, cl, rng.choice([1, 1, 2]), [r0.pid("d")])
        elif k % 3 == 2 and rng.random() < .6:
            c.cls["err_w"] = [rng.choice([20000, 200000, 1000000]), rng.choice([0, 1, 3]), 1 << 40, rng.choice([1, 3, 1 << 40])]
        return c

    def judge(self, case, r):
        logs = r.log("d")
        F = lambda *k: sum(r.cls.get(x, (0, 0))[1] for x in k)
        dist = F("err_w") or case.meta.get("kind") in ("disk", "pipe broken")
        oom = F("malloc")
        ops = [o.split() for o in case.ops["d"]]
        # the expected history
        acts = []
        want = []
        out = b""
        err = b""
        files = {}
        status = 0
        end = None

        def run(w):
            nonlocal out, err, end
            k, t = w[0], w[1]
            want.append(b"A " + k.encode())
            if t == "print":
                out += data(int(w[2]), int(w[3]))
            elif t in ("eprint", "ebuf"):
                err += data(int(w[2]), int(w[3]))
            elif t == "write":
                files[w[2]] = data(int(w[3]), int(w[4]))
            elif t == "add":
                acts.append(w[2:])
            elif t == "exit":
                doexit(int(w[2]))
            elif t == "term":
                end = int(w[2])

        def doexit(n):
            nonlocal end
            while acts and end is None:
                run(acts.pop())
            if end is None:
                end = n
        fatal = None
        for w in ops:
            o, a = w[1], w[2:]
            if o == "raise":
                want.append(b"doom")
                end = 2
                fatal = a
                break
            if o in ("exit", "exitn"):
                doexit(int(a[-1]))
            elif o == "success":
                doexit(0)
            elif o == "failure":
                doexit(-1)
            elif o in ("bexit", "term"):
                end = int(a[0])
            elif o == "at":
                acts.append(a)
                want.append(b"+")
            elif o == "print":
                out += data(int(a[0]), int(a[1]))
                want.append(b"+")
            elif o in ("eprint", "ebuf"):
                err += data(int(a[0]), int(a[1]))
                want.append(b"+")
            elif o == "emsg":
                want.append(b"=" + made(a))
            else:
                want.append(b"+")
            if end is not None:
                break
        if end is None:
            want.append(b"end")
            end = 0
        st = r.status("d")
        o = r.files.get("/out/o", b"")
        e = r.files.get("/out/e", b"")
        bad = []
        if oom:
            # an allocation that was refused: Out_of_memory somewhere, or the fatal message
            if st is None:
                bad.append("the program did not terminate")
            elif st & 127:
                bad.append("the program was killed by signal %d" % (st & 127))
            return bad
        exc = set([l for l in logs if l.startswith(b"X ")] + ["op%d" % (j + 1) for j, l in enumerate([l for l in logs if not l.startswith((b"A ", b"X "))]) if l.startswith(b"!")])
        if st is None or st & 127:
            return ["the program ended with wait status %s" % st]
        if not dist:
            logs = [b if a[:1] == b[:1] == b"=" and len(a) > 150 and b.startswith(a) else a for a, b in zip(logs, want)] + logs[len(want):]
            if logs != want:
                j = next((j for j in range(min(len(logs), len(want))) if logs[j] != want[j]), min(len(logs), len(want)))
                bad.append("history differs at step %d: %r instead of %r" % (j, logs[j:j + 2], want[j:j + 2]))
            elif st != (end & 255) << 8:
                bad.append("exit status %d instead of %d" % (st >> 8, end & 255))
            elif o != out:
                bad.append("standard output has %d bytes, %d were written" % (len(o), len(out)))
            elif fatal:
                if fatal[0] == "Oom":
                    if e != err + b"Fatal error: out of memory.\n":
                        bad.append("message %r" % e[len(err):][:100])
                elif fatal[0] == "Made" and not e.startswith(err + b"Uncaught exception:\n" + made(fatal[1:])[:150]):
                    bad.append("message %r instead of %r" % (e[len(err):][:300], made(fatal[1:])))
                elif fatal[0] == "Made":
                    pass
                elif not e.startswith(err + b"Uncaught exception:\n") or len(e) <= len(err) + 20:
                    bad.append("no message about the uncaught exception: %r" % e[-100:])
                elif fatal[0] == "Fail" and fatal[1] == "boom" and b"boom" not in e:
                    bad.append("the message does not name the exception: %r" % e[-100:])
                elif fatal[0] == "Mine" and b"Mine" not in e:
                    bad.append("the message does not name the exception: %r" % e[-100:])
            elif e != err:
                bad.append("standard error has %d bytes, %d were written" % (len(e), len(err)))
            for k, v in files.items():
                if not bad and r.files.get(k) != v:
                    bad.append("an exit action's file %s has %s" % (k, "nothing" if r.files.get(k) is None else "%d bytes" % len(r.files[k])))
            return bad
        # output was refused: everything else happens all the same
        got = [l for l in logs if not l.startswith((b"!", b"X ", b"=")) and l != b"+"]
        exp = [l for l in want if l != b"+" and not l.startswith(b"=")]
        if got != exp:
            return ["after a failed write: history %r instead of %r" % (got[-4:], exp[-4:])]
        code = end & 255
        if code:
            if st != code << 8:
                bad.append("exit status %d instead of %d (output had failed)" % (st >> 8, code))
        elif st not in (0, 512):
            bad.append("exit status %d instead of 0 or 2" % (st >> 8))
        if not bad and case.meta.get("kind") == "pipe broken" and not F("err_w"):
            if not (e.startswith(err + b"Uncaught exception:\n") if fatal and fatal[0] != "Oom" else e.startswith(err) if fatal else e == err):
                bad.append("standard error has %d bytes, %d were written (standard output was refused)" % (len(e), len(err)))
        if bad:
            return bad
        # what arrived: whole pieces in order, except those whose writing raised
        pos = {0}
        for nm, piece in pieces(ops, logs):
            raised = nm in exc
            nxt = set()
            full = False
            for p in pos:
                k = 0
                rest = o[p:p + len(piece)]
                if rest == piece:
                    nxt.add(p + len(piece))
                    if not raised:
                        continue
                k = 0
                while k < len(rest) and rest[k] == piece[k]:
                    k += 1
                if raised:
                    nxt.update(range(p, p + k + 1))
                elif p + k == len(o) and (st or code or case.meta.get("kind") == "pipe broken"):
                    full = True           # the rest could not be delivered, and the status says so
            if full or case.meta.get("kind") == "pipe broken" and len(o) in pos:
                return bad
            pos = nxt
            if not pos:
                bad.append("standard output (%d bytes, status %d) is not made of the pieces written, or they were lost silently" % (len(o), st >> 8))
                return bad
        if len(o) not in pos:
            bad.append("standard output (%d bytes, status %d) is not made of the pieces written" % (len(o), st >> 8))
        return bad


def pieces(ops, logs):
    """the pieces printed, in the order of the log"""
    acts = {}

    def note(a):
        acts[a[0]] = a
        if a[1] == "add":
            note(a[2:])
    k = 0
    out = []
    for w in ops:
        if w[1] == "at":
            note(w[2:])
    n = 0
    for l in logs:
        if l.startswith(b"A "):
            a = acts[l[2:].decode()]
            if a[1] == "print":
                out.append((b"X " + a[0].encode(), data(int(a[2]), int(a[3]))))
        elif l.startswith(b"X ") or l in (b"doom", b"end"):
            pass
        else:
            w = ops[n]
            n += 1
            if w[1] == "print":
                out.append(("op%d" % n if l.startswith(b"!") else b"+", data(int(w[2]), int(w[3]))))
    return out
